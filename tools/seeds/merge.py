"""Changes planted in the merging of imported packages."""
R = 'transform/resolve.py'
RS = '''
import json, os, shutil, tempfile
from jadn.transform import resolve_imports
def merge(root, **files):
    d = tempfile.mkdtemp()
    try:
        for n, s in files.items():
            with open(os.path.join(d, n + '.jadn'), 'w', encoding='utf-8') as f:
                json.dump(s, f)
        return resolve_imports(root, d)['types']
    finally:
        shutil.rmtree(d)
def pkg(name, types, ns=None, **info):
    i = {'package': 'http://' + name, **info}
    if ns:
        i['namespaces'] = {k: 'http://' + v for k, v in ns.items()}
    return {'info': i, 'types': [t + [[], '', []][len(t) - 2:] for t in types]}
'''
SEEDS = [
    dict(id='c26-iterate', prop='C26', needs='two references to other packages one after the other in a type', breaks='the list of references is changed while it is read, so every second external reference stays among the internal ones and is refused as undefined',
         edits=[(R, "for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely", "for dn in self.deps[tn]:")],
         demo=RS + '''
b = pkg('b', [['X', 'String'], ['Y', 'Integer']])
T = lambda *fs: merge(pkg('a', [['A', 'Record', [], '', [[n, 'f%d' % n, f, [], ''] for n, f in enumerate(fs, 1)]], ['B', 'String']], {'b': 'b'}, exports=['A']), b=b)
assert len(T('b:X', 'B')) == 3
assert len(T('b:X', 'b:Y')) == 3'''),
    dict(id='c26-overlap', prop='C26', needs='a package that is reached twice, the second time for one type it has given and one it has not', breaks='a package asked again for a type it has given does not give the new ones',
         edits=[(R, "    if set(types) - sm.used:\n        sm.load()", "    if sm.used.isdisjoint(types):\n        sm.load()")],
         demo=RS + '''
c = pkg('c', [['X', 'String'], ['Y', 'Integer'], ['Z', 'Number']])
b = pkg('b', [['B', 'Record', [], '', [[1, 'x', 'c:X', [], '']]]], {'c': 'c'})
r = merge(pkg('a', [['A', 'Record', [], '', [[1, 'x', 'b:B', [], ''], [2, 'y', 'c:X', [], ''], [3, 'z', 'c:Y', [], '']]]], {'b': 'b', 'c': 'c'}, exports=['A']), b=b, c=c)
assert sorted(t[0] for t in r) == ['A', 'B$b', 'X$c', 'Y$c'], r'''),
    dict(id='c26-same', prop='C26', needs='an imported package with a type that is not needed and called like a type the root uses', breaks='types of imported packages are added when the root uses a type of that name',
         edits=[(R, "for t in sm.schema['types'] if t[TypeName] in sm.used]", "for t in sm.schema['types'] if t[TypeName] in sm.used | root.used]")],
         demo=RS + '''
r = merge(pkg('a', [['A', 'Record', [], '', [[1, 'x', 'b:X', [], ''], [2, 'y', 'Y', [], '']]], ['Y', 'String']], {'b': 'b'}, exports=['A']), b=pkg('b', [['X', 'String'], ['Y', 'Integer']]))
assert sorted(t[0] for t in r) == ['A', 'X$b', 'Y'], r'''),
    dict(id='c26-dup', prop='C26', needs='two files of the same package', breaks='the last file of a package is used although it is reported as ignored',
         edits=[(R, "Using: {packages[sm.package].source}, Ignoring: {fn}')", "Using: {packages[sm.package].source}, Ignoring: {fn}')\n            packages[sm.package] = sm if sm.package != root.package else root")],
         demo=RS + '''
r = merge(pkg('a', [['A', 'Record', [], '', [[1, 'x', 'b:X', [], '']]]], {'b': 'b'}, exports=['A']), b1=pkg('b', [['X', 'String']]), b2=pkg('b', [['X', 'Integer']]))
assert [t[:2] for t in r] == [['A', 'Record'], ['X$b', 'String']], r'''),
    dict(id='c26-sys', prop='C26', needs='a system type (name starting with $) in an imported package', breaks='system types of imported packages keep their names, and are confused with those of the root',
         edits=[(R, "if ns_id and not is_builtin(tname) else tname", "if ns_id and not is_builtin(tname) and tname[0] != sys else tname")],
         demo=RS + '''
r = merge(pkg('a', [['A', 'Record', [], '', [[1, 'x', 'b:$X', [], ''], [2, 'y', '$X', [], '']]], ['$X', 'String']], {'b': 'b'}, exports=['A']), b=pkg('b', [['$X', 'Integer']]))
assert len({t[0] for t in r}) == 3, r'''),
    dict(id='c26-info', prop='C26', needs='a reference in an option of a field of a Choice', breaks='options of the fields of a Choice are not renamed',
         edits=[(R, "                f[FieldOptions] = update_opts(f[FieldOptions])\n", "                if td[BaseType] != 'Choice':\n                    f[FieldOptions] = update_opts(f[FieldOptions])\n")],
         demo=RS + '''
T = lambda b: [o for t in merge(pkg('a', [['A', b, [], '', [[1, 'x', 'ArrayOf', ['*b:X', '{1'], '']]]], {'b': 'b'}, exports=['A']), b=pkg('b', [['X', 'String']])) for f in t[4] for o in f[3]]
assert T('Record') == ['*X$b', '{1']
assert T('Choice') == ['*X$b', '{1'], T('Choice')'''),
]
