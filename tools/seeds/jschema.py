J = '''
import json, jadn
from jadn.translate import json_schema_dumps
def js(types, info=None, **kw):
    s = {'types': [t + [[]] * (5 - len(t)) for t in types]}
    if info:
        s = {'info': {'package': 'http://x', **info}, **s}
    return json.loads(json_schema_dumps(s, **kw))
def d(types, *a, **kw):
    return js(types, *a, **kw)['definitions'][types[0][0]]
'''
Y = 'translate/jsonschema_w.py'
SEEDS = [
    dict(id='c16-required', prop='C16', needs='a field that must occur at least twice', breaks='only fields that must occur exactly once are required',
         edits=[(Y, "        return fo['minc'] >= 1 if 'minc' in fo else True", "        return fo.get('minc', 1) == 1")],
         demo=J + '''
T = lambda *o: d([['A', 'Record', [], '', [[1, 'b', 'String', list(o), ''], [2, 'c', 'String', [], '']]]])
assert T('[0')['required'] == ['c'] and T(']0')['required'] == ['b', 'c']
assert T('[2', ']5')['required'] == ['b', 'c'], T('[2', ']5')'''),
    dict(id='c16-zero', prop='C16', needs='a Number whose minimum is zero', breaks='a minimum of zero is not written',
         edits=[(Y, "        {'minimum': topts['minf']} if 'minf' in topts else {},", "        {'minimum': topts['minf']} if topts.get('minf') else {},")],
         demo=J + '''
assert d([['A', 'Number', ['y1.5'], '']])['minimum'] == 1.5
assert d([['A', 'Number', ['y0.0', 'z1.0'], '']])['minimum'] == 0'''),
    dict(id='c16-config', prop='C16', needs='a minimum above the configured maximum', breaks='the configured maximum gives way to a larger minimum',
         edits=[(Y, "        topts['maxv'] = ctx['config'][CONFIG_MAX[tdef[BaseType]]]", "        topts['maxv'] = max(ctx['config'][CONFIG_MAX[tdef[BaseType]]], topts.get('minv', 0))")],
         demo=J + '''
assert d([['A', 'String', ['{2'], '']], {'config': {'$MaxString': 5}})['maxLength'] == 5
assert d([['A', 'String', ['{7'], '']], {'config': {'$MaxString': 5}})['maxLength'] == 5'''),
    dict(id='c16-exports', prop='C16', needs='a schema with exports', breaks='only exported types are defined when there are exports',
         edits=[(Y, "        {'definitions': {t: tt(td[t], ctx) for t in (exports + [t for t in td if t not in exports])}},", "        {'definitions': {t: tt(td[t], ctx) for t in exports or td}},")],
         demo=J + '''
T = [['A', 'ArrayOf', ['*B'], ''], ['B', 'String', [], '']]
assert set(js(T)['definitions']) == {'A', 'B'}
assert set(js(T, {'exports': ['A']})['definitions']) == {'A', 'B'}'''),
    dict(id='c16-int32', prop='C16', needs='an Integer of format i32', breaks='the range of i32 is one too wide',
         edits=[(Y, "'maximum': 2147483647}", "'maximum': 2147483648}")],
         demo=J + '''
x = d([['A', 'Integer', ['/i32'], '']])
assert x.get('maximum') in (None, 2 ** 31 - 1), x'''),
    dict(id='c16-const', prop='C16', needs='an enumeration with ids in the const style', breaks='ids are written as texts in the const style',
         edits=[(Y, "{'const': f[vcol], 'description'", "{'const': str(f[vcol]), 'description'")],
         demo=J + '''
E = [['A', 'Enumerated', ['='], '', [[1, 'x', ''], [5, 'y', '']]]]
assert [x['const'] for x in d(E, enum_style='const')['oneOf']] == [1, 5]'''),
    dict(id='c16-nsid', prop='C16', needs='a type imported from a namespace with the name of a defined type', breaks='an imported type with the name of a defined type refers to the defined one',
         edits=[(Y, "    if nsid:\n        imp =", "    if nsid and tn not in ctx['type_defs']:\n        imp =")],
         demo=J + '''
T = [['A', 'Record', [], '', [[1, 'b', 'n:Foreign', [], ''], [2, 'c', 'n:B', [], '']]], ['B', 'String', [], '']]
p = d(T, {'namespaces': {'n': 'http://n'}})['properties']
assert p['b']['$ref'] == '#/imports/n/Foreign'
assert p['c']['$ref'] == '#/imports/n/B', p'''),
]
