"""C05: Enumerated and tagged Choice values are exactly the declared items, mapped consistently."""
from choicescen import *      # noqa

LEVEL = 'other'
FLOOR = 40
RULE = ('Scenario analysis over any number of declared items/alternatives, every encoding mode, with and without the id '
        'option: a declared item must reach a normal exit with the corresponding other-side name or id, an undeclared '
        'one, a value of another kind, and a Choice value without exactly one key must have no normal exit.')


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    enum_cases(su)
    choice_cases(su)
