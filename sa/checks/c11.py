"""C11: check() refuses every ill-formed schema and accepts every well-formed one."""
from checkscen import *     # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of check() and everything it calls on families of abstract schemas, one per well-formedness '
        'rule and position, with names, identifiers and bounds left open under the relation the rule is about: every path of '
        'an ill-formed family must end in an exception, every path of a well-formed family must return the schema. The two '
        'bundled data-file validators are modelled as accepting.')


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    for key, what, schema, facts, expect in cases():
        def go(sc, schema=schema, facts=facts):
            install_models(sc)
            sc.vals = [sc.py(schema)]
            facts(sc)
            return sc.call('jadn', 'check', sc.vals)
        su.fcase(key, what, go, expect)
