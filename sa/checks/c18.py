"""C18: a schema written as JIDL and read back is the same schema."""
from textround import *     # noqa

LEVEL = 'other'
FLOOR = 100
RULE = ('Abstract interpretation of jidl_loads(jidl_dumps(schema)) on families of abstract schemas (names, descriptions, patterns, '
        'ids and bounds open): the written text is followed as known characters and tokens with known alphabets through splitting and '
        'regular-expression matching, and the schema that comes back must have the same types, options, fields and information.')
STYLES = [{'desc': 60}, {'name': 4, 'type': 8}, {'id': 2, 'info': 4}, {'desc': 10}, {'id': 8, 'name': 30, 'type': 60}]


def run(rep):
    rep.rule = RULE
    run_round(rep, 'jadn.convert.jidl', 'jidl_dumps', 'jidl_loads', styles=STYLES)
