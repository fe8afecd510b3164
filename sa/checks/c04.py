"""C04: every nested value goes through the codec of its declared type, exactly once, and lands in its own place."""
from contscen import *      # noqa

LEVEL = 'other'
FLOOR = 40
RULE = ('Scenario analysis with nested encode/decode calls abstracted to an uninterpreted result (declared type, value): '
        'for any number of fields or elements the result must hold, at each field or position, exactly the nested result '
        'for the declared type and the original value; and when a nested call fails no normal exit state may be '
        'reachable.')


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    struct_cases(su, shape=False, contents=True)
    of_cases(su, shape=False, contents=True)
    tag_cases(su)
