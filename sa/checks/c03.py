"""C03: structure of container values: required fields, undeclared fields, number of elements, uniqueness."""
from contscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Scenario analysis of every container type, direction and encoding mode: a value lacking a required field, '
        'carrying an undeclared one, with too few or too many elements, of the wrong container kind, or with equal '
        'elements in a unique collection must have no normal exit state; the corresponding well-formed value must have '
        'no exception exit. Field lists, element counts and bounds are symbolic (any number of fields around the field '
        'in question).')


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    struct_cases(su, shape=True, contents=False)
    of_cases(su, shape=True, contents=False)
