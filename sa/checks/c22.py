"""C22: a schema written as HTML and read back is the same schema."""
from textround import *     # noqa

LEVEL = 'other'
FLOOR = 100
RULE = ('Abstract interpretation of html_loads(html_dumps(schema)) on families of abstract schemas (names, descriptions, patterns, '
        'ids and bounds open): the written text is followed as known characters and tokens with known alphabets through splitting and '
        'regular-expression matching, and the schema that comes back must have the same types, options, fields and information.')


def run(rep):
    rep.rule = RULE
    run_round(rep, 'jadn.convert.html', 'html_dumps', 'html_loads')
