SCHEMA = '''
import copy
import json
import jadn
def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False
def sch(*types):
    return {'info': {'package': 'http://x'}, 'types': list(types)}
'''
SAME = '''def same(code):
    import os, subprocess, sys
    out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env={**os.environ, 'PYTHONHASHSEED': str(n)}, capture_output=True,
                          text=True, check=True).stdout for n in range(1, 13)}
    assert len(out) == 1, out
'''
SEEDS = [
    dict(id='c11-range-falsy', prop='C11', needs='a maximum of zero below a minimum that is not zero', breaks='a type whose maximum is 0 and below its minimum passes check()',
         edits=[('core.py', "    if 'maxv' in topts and 'minv' in topts and topts['maxv'] < topts['minv']:",
                 "    if topts.get('maxv') and 'minv' in topts and topts['maxv'] < topts['minv']:")],
         demo=SCHEMA + '''
assert refused(jadn.check, sch(['T', 'Integer', ['{5', '}0'], '', []]))
'''),
    dict(id='c11-dup-adjacent', prop='C11', needs='two fields with the same id or name that are not next to each other', breaks='a repeated field id or name is only noticed in adjacent fields',
         edits=[('core.py', "            seen = set()\n            return set(x for x in seq if x in seen or seen.add(x))",
                 "            seq = list(seq)\n            return {x for x, y in zip(seq, seq[1:]) if x == y}")],
         demo=SCHEMA + '''
assert refused(jadn.check, sch(['T', 'Map', [], '', [[1, 'a', 'String', [], ''], [2, 'b', 'String', [], ''], [1, 'c', 'String', [], '']]]))
'''),
    dict(id='c11-ordinal-set', prop='C11', needs='a Record whose ids are a permutation of 1..n', breaks='fields of an Array or Record out of order pass check()',
         edits=[('core.py', "[(f, n) for n, f in enumerate(fields, 1) if f[FieldID] != n]",
                 "[(f, n) for n, f in enumerate(sorted(fields, key=lambda x: x[FieldID]), 1) if f[FieldID] != n]")],
         demo=SCHEMA + '''
assert refused(jadn.check, sch(['T', 'Record', [], '', [[2, 'a', 'String', [], ''], [1, 'b', 'String', [], '']]]))
'''),
    dict(id='c11-unique-extra', prop='C11', needs='a repeated field of a defined type with unique and another type option', breaks='unique lets any other type option through on a repeated field',
         edits=[('core.py', "                    if set(fto) - allowed:", "                    if not set(fto) & allowed:")],
         demo=SCHEMA + '''
assert refused(jadn.check, sch(['T', 'Record', [], '', [[1, 'a', 'S', ['q', '{1', ']0'], '']]], ['S', 'String', [], '', []]))
'''),
    dict(id='c14-jidl-locale', prop='C14', needs='a locale whose encoding is not UTF-8 and a description outside ASCII', breaks='JIDL files are written in the encoding of the locale',
         edits=[('convert/jidl.py', "open(fname, 'w', encoding='utf8')", "open(fname, 'w')")],
         demo=SCHEMA + '''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    code = ("import jadn; from jadn.convert.jidl import jidl_dump; "
            "jidl_dump({'types': [['T', 'String', [], 'caf' + chr(233), []]]}, %r)" % (d + '/x.jidl'))
    r = subprocess.run([sys.executable, '-X', 'utf8=0', '-c', code], env={**os.environ, 'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE': '0'})
    assert r.returncode == 0
    assert 'caf\u00e9' in open(d + '/x.jidl', encoding='utf8').read()
'''),
    dict(id='c14-markdown-errors', prop='C14', needs='text outside ASCII in a schema dumped to a Markdown file', breaks='characters outside ASCII become question marks in Markdown files',
         edits=[('convert/markdown.py', "open(fname, 'w', encoding='utf8')", "open(fname, 'w', encoding='ascii', errors='replace')")],
         demo=SCHEMA + '''
import tempfile
from jadn.convert.markdown import markdown_dump, markdown_dumps
with tempfile.TemporaryDirectory() as d:
    s = {'types': [['T', 'String', [], 'x\u4e2d\u6587', []]]}
    markdown_dump(s, d + '/x.md')
    assert open(d + '/x.md', encoding='utf8').read() == markdown_dumps(s)
'''),
    dict(id='c14-dump-append', prop='C14', needs='dumping twice to the same file', breaks='a dump without a source is added after what the file already holds',
         edits=[('core.py', "    with open(fname, 'w', encoding='utf8') as f:", "    with open(fname, 'w' if source else 'a', encoding='utf8') as f:")],
         demo=SCHEMA + '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    s = {'types': [['T', 'String', [], '', []]]}
    jadn.dump(s, d + '/x.jadn')
    jadn.dump(s, d + '/x.jadn')
    assert json.load(open(d + '/x.jadn', encoding='utf8')) == s
'''),
    dict(id='c13-deps-set', prop='C13', needs='a type with two or more different references, in two processes with different hash seeds', breaks='the order of the dependencies of a type, and with it of sorted types, differs between processes',
         edits=[('utils.py', "    deps = {t[TypeName]: get_refs(t) for t in schema['types']}", "    deps = {t[TypeName]: [*{*get_refs(t)}] for t in schema['types']}")],
         demo=SCHEMA + SAME + '''
same("import jadn; print(jadn.build_deps({'types': [['A', 'Record', [], '', [[i, 'f%d' % i, 'T%d' % i, [], ''] for i in range(1, 6)]]]}))")
'''),
    dict(id='c13-schema-order', prop='C13', needs='several types that are not exported, translated to JSON Schema in two processes', breaks='the order of the definitions in a JSON Schema differs between processes',
         edits=[('translate/jsonschema_w.py', "exports + [t for t in td if t not in exports]", "exports + list(td.keys() - set(exports))")],
         demo=SCHEMA + SAME + '''
same("import jadn.translate as t; print(t.json_schema_dumps({'info': {'package': 'http://x', 'exports': ['A1']}, 'types': [['A%d' % i, 'String', [], '', []] for i in range(1, 6)]}))")
'''),
]
