SCHEMA = '''
import copy
import jadn
from jadn.codec import Codec
def codec(types, rec=False, strs=False, **info):
    return Codec({'info': {'package': 'http://x', **info}, 'types': types}, rec, strs)
def refused(f, *a):
    try:
        f(*a)
    except (ValueError, TypeError):
        return True
    return False
'''
SEEDS = [
    dict(id='c08-flatten-acc', prop='C08', needs='flatten called with an accumulator by the caller',
         breaks='flatten adds to the dict of earlier results it is given',
         edits=[('utils.py', "    fcmd = fc.copy()", "    fcmd = fc")],
         demo=SCHEMA + '''
from jadn.utils import flatten
acc = {'z': 1}
assert flatten({'a': {'b': 2}}, '', acc) == {'z': 1, 'a.b': 2}
assert acc == {'z': 1}
'''),
    dict(id='c09-format-table', prop='C09', needs='an Array with a format and a description translated to JSON Schema, then another one',
         breaks='the keywords of a format pick up the description of the first type that used it',
         edits=[('translate/jsonschema_w.py', "        return dmerge(w_td('string', tdef[TypeDesc]), fmt)", "        fmt.update(w_td('string', tdef[TypeDesc]))\n        return fmt")],
         demo=SCHEMA + '''
import json
from jadn.translate.jsonschema_w import json_schema_dumps
def net(desc):
    return json.loads(json_schema_dumps({'types': [['N', 'Array', ['/ipv4-net'], desc, [[1, 'a', 'Binary', [], ''], [2, 'p', 'Integer', [], '']]]]}))['definitions']['N']
net('first')
assert 'description' not in net('')
'''),

    dict(id='c07-config-limit', prop='C07', needs='a String without a maximum of its own, set to a longer limit by a type that has one, then used',
         breaks='a String type that declares its own maximum raises or lowers the default limit of the strings after it when the mode is set again',
         edits=[('codec/__init__.py', "                symval.TypeOpts.update({'minv': minv, 'maxv': maxv})",
                 "                symval.TypeOpts.update({'minv': minv, 'maxv': maxv})\n"
                 "                if t.BaseType == 'String' and self.symtab:\n                    self.config['$MaxString'] = max(self.config['$MaxString'], maxv)")],
         demo=SCHEMA + '''
T = [['Long', 'String', ['}999'], '', []], ['S', 'String', [], '', []]]
c = codec(T)
assert refused(c.encode, 'S', 'x' * 300)
c.set_mode(True, True)
assert refused(c.encode, 'S', 'x' * 300)
'''),
    dict(id='c07-range-seen', prop='C07', needs='a Number without a declared minimum, a value, then a smaller one',
         breaks='the first value of an unbounded Number becomes its minimum',
         edits=[('codec/codec.py', "    if 'minf' in op and val < op['minf']:", "    if val < op.setdefault('minf', min(val, 0.0)):")],
         demo=SCHEMA + '''
c = codec([['N', 'Number', [], '', []]])
assert c.encode('N', -1.5) == -1.5
assert c.encode('N', -2.5) == -2.5
'''),
    dict(id='c08-canon-options', prop='C08', needs='type options in another order than the canonical one, and the schema used again',
         breaks='canonicalize copies fields but sorts the type options of the original in place',
         edits=[('utils.py', "    cschema = copy.deepcopy(schema)     # don't modify original", "    cschema = {**schema, 'types': [[*t[:4], *copy.deepcopy(t[4:])] for t in schema['types']]}")],
         demo=SCHEMA + '''
from jadn.utils import canonicalize
s = {'types': [['S', 'String', ['}5', '{1', '/email'], '', []]]}
t = copy.deepcopy(s)
canonicalize(s)
assert s == t
'''),
    dict(id='c08-style-inplace', prop='C08', needs='a style dict passed to jidl_dumps and used again',
         breaks='jidl_dumps completes the style dict of the caller in place',
         edits=[('convert/jidl.py', "    w = jidl_style()\n    if style:\n        w.update(style)   # Override any specified column widths\n", "    w = style if style else {}\n    for k, v in jidl_style().items():\n        w.setdefault(k, v)\n")],
         demo=SCHEMA + '''
from jadn.convert import jidl_dumps
st = {'desc': 50}
jidl_dumps({'types': [['S', 'String', [], '', []]]}, st)
assert st == {'desc': 50}
'''),
    dict(id='c09-config-alias', prop='C09', needs='a configuration obtained for a schema without its own, changed by the caller',
         breaks='get_config hands out the table of defaults itself',
         edits=[('utils.py', "    config = dict(DEFAULT_CONFIG)\n    if meta:\n        config.update(meta.get('config', {}))\n    return config",
                 "    own = (meta or {}).get('config')\n    return {**DEFAULT_CONFIG, **own} if own else DEFAULT_CONFIG")],
         demo=SCHEMA + '''
T = [['S', 'String', [], '', []]]
c = codec(T)
c.config['$MaxString'] = 3
assert codec(T).encode('S', 'abcd') == 'abcd'
'''),
    dict(id='c09-flatten-default', prop='C09', needs='two flatten calls without an accumulator',
         breaks='results of earlier flatten calls turn up in later ones (shared default and no copy, either alone would do)',
         edits=[('utils.py', "def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:", "def flatten(cmd: dict, path: str = '', fc: dict = {}, sep: str = '.') -> dict:"),
                ('utils.py', "    fcmd = fc.copy()", "    fcmd = fc")],
         demo=SCHEMA + '''
from jadn.utils import flatten
flatten({'a': {'b': 2}})
assert flatten({'c': 1}) == {'c': 1}
'''),
]
