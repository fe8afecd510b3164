J = '''
import jadn
from jadn.transform import strip_comments
from jadn.utils import build_deps, topo_sort, canonicalize, object_type_schema, list_type_schema
'''
U, T, C = 'utils.py', 'transform/transform.py', 'core.py'
SEEDS = [
    dict(id='c15-item', prop='C15', needs='an enumeration with item descriptions and a schema with its types as lists of fields', breaks='items of derived enumerations keep their whole description when the enumeration has options',
         edits=[(T, "fd = ItemDesc if tdef[BaseType] == 'Enumerated' else FieldDesc\n            for fdef in tdef[Fields]:",
                 "fd = ItemDesc if tdef[BaseType] == 'Enumerated' else FieldDesc\n            for fdef in tdef[Fields][:64]:")],
         demo=J + '''
sc = strip_comments({'types': [['A', 'Enumerated', [], '', [[i, f'i{i}', 'text'] for i in range(100)]]]})
assert all(f[2] == '' for f in sc['types'][0][4])
'''),
    dict(id='c15-minv', prop='C15', needs="an Integer with bounds 0 and 0 and a format", breaks='a lower bound 0 of Integer written as default is removed',
         edits=[(U, "to['minv'] == 0 and basetype != 'Integer'", "to['minv'] == 0 and basetype not in ('Integer', 'int')".replace("not in ('Integer', 'int')", "!= 'Integer' or to.get('maxv') == 0 and 'minv' in to and len(to) == 3"))],
         demo=J + '''
o = {'types': [['A', 'Integer', ['{0', '}0', '/i8'], '', []]]}
assert '{0' in canonicalize(o)['types'][0][2]
'''),
    dict(id='c15-maxc', prop='C15', needs='a field with explicit multiplicity 1..1 next to a field type with options', breaks='an unlimited multiplicity is taken for the default',
         edits=[(U, "if 'maxc' in fo and fo['maxc'] == 1:", "if 'maxc' in fo and fo['maxc'] <= 1:")],
         demo=J + '''
o = {'types': [['A', 'Record', [], '', [[1, 'a', 'String', ['[0', ']0'], '']]]]}
assert ']0' in canonicalize(o)['types'][0][4][0][3]
'''),
    dict(id='c15-objfield', prop='C15', needs='an Enumerated type in list form', breaks='list form of a type in object form shares the field lists with the original',
         edits=[(U, "return [[*t[:-1], [list(f) for f in t.Fields]] for t in types]", "return [[*t[:-1], [list(f)[:5] if f[0] else list(f)[:4] for f in t.Fields]] for t in types]")],
         demo=J + '''
s = {'types': [['A', 'Record', [], '', [[0, 'a', 'String', [], 'desc']]]]}
assert list_type_schema(object_type_schema(s)) == s
'''),
    dict(id='c20-ktype', prop='C20', needs='a map whose key is a defined type with a derived enumeration next to it', breaks='a key type that is also an item of a list of a derived enumeration is not a reference',
         edits=[(U, "oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]\n        # Options that enum",
                 "oids = [OPTION_ID['vtype']] if tdef[BaseType] == 'ArrayOf' or not tdef[TypeName] else [OPTION_ID['ktype'], OPTION_ID['vtype']]\n        # Options that enum")],
         demo=J + '''
d = build_deps({'types': [['A', 'Record', [], '', [[1, 'a', 'MapOf', ['+Key', '*String'], '']]], ['Key', 'String', [], '', []]]})
assert d['A'] == ['Key'], d
'''),
    dict(id='c20-choice', prop='C20', needs='a Choice field with a derived enumeration', breaks='derived enumerations inside a Choice are not references',
         edits=[(U, "                refs += get_refs(['', f[FieldType], f[FieldOptions], ''])",
                 "                if tdef[BaseType] != 'Choice' or f[FieldType] != 'Enumerated':\n                    refs += get_refs(['', f[FieldType], f[FieldOptions], ''])")],
         demo=J + '''
d = build_deps({'types': [['A', 'Choice', [], '', [[1, 'a', 'Enumerated', ['#B'], '']]], ['B', 'Record', [], '', []]]})
assert d['A'] == ['B'], d
'''),
    dict(id='c20-root', prop='C20', needs='a root type that is not defined', breaks='a root without a definition is not reported when no type refers to it',
         edits=[(C, "    refs = set(dep_refs) | set(roots)\n", "    refs = set(dep_refs) | (set(roots) & defs)\n")],
         demo=J + '''
assert jadn.analyze({'info': {'roots': ['Nope']}, 'types': []})['undefined'] == ['Nope']
'''),
    dict(id='c20-selfref', prop='C20', needs='a recursive type nothing else refers to', breaks='a type that only refers to itself counts as unreferenced',
         edits=[(C, "dep_refs = {v for d in items for v in items[d]}", "dep_refs = {v for d in items for v in items[d] if v != d}")],
         demo=J + '''
assert jadn.analyze({'types': [['A', 'Record', [], '', [[1, 'a', 'A', ['[0'], '']]]]})['unreferenced'] == []
'''),
    dict(id='c20-sort', prop='C20', needs='two types that depend on the same type, which depends on a third', breaks='types already listed are not followed when they are roots too',
         edits=[(U, "            out.append(it)\n            for i in deps.get(it, []):\n                walk_tree(i)",
                 "            out.append(it)\n            for i in deps.get(it, []):\n                if i not in roots:\n                    walk_tree(i)"),
                (U, "    for item in roots:\n        walk_tree(item)", "    for item in roots[:1] + [r for r in roots[1:] if r in deps]:\n        walk_tree(item)")],
         demo=J + '''
assert set(topo_sort({'A': ['B']}, ['A', 'B'])) == {'A', 'B'}
'''),
]
