"""C06: untagged unions accept exactly when any / all / exactly one of the alternatives do."""
from choicescen import *      # noqa

LEVEL = 'other'
FLOOR = 40
RULE = ('Scenario analysis with nested calls abstracted to success or failure: for symbolic numbers of alternatives that '
        'accept or refuse the value, an anyOf / allOf / oneOf union must have no normal exit when none / not all / not '
        'exactly one alternative accepts, and no exception exit otherwise; the result must be the result of an '
        'accepting alternative.')


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    union_cases(su)
