J = '''
import io, json, jadn, tempfile, os
d = tempfile.mkdtemp()
def bad(f, *a):
    try:
        f(*a)
    except Exception:
        return
    raise SystemExit('an invalid schema was accepted')
def in_file(ext, text):
    p = os.path.join(d, 'x' + ext)
    with open(p, 'w') as f: f.write(text)
    with open(p) as f: return jadn.load_any(f)
ok = {'types': [['A', 'Record', [], '', [[1, 'b', 'String', [], '']]]]}
twice = {'types': ok['types'] * 2}
'''
C, JI, H = 'core.py', 'convert/jidl.py', 'convert/html.py'
SEEDS = [
    dict(id='c10-any-json', prop='C10', needs='an invalid schema in a .jadn file read with load_any', breaks='load_any parses .jadn files itself, without the check',
         edits=[(C, "            '.jadn': jadn.load,", "            '.jadn': json.load,")],
         demo=J + '''
assert in_file('.jadn', json.dumps(ok))['types'][0][0] == 'A'
bad(in_file, '.jadn', json.dumps(twice))'''),
    dict(id='c10-jidl-plain', prop='C10', needs='a JIDL document without information header that repeats a type', breaks='only JIDL documents with an information header are checked',
         edits=[(JI, "    return check({'info': info, 'types': types} if info else {'types': types})", "    return check({'info': info, 'types': types}) if info else {'types': types}")],
         demo=J + '''
from jadn.convert import jidl_dumps, jidl_loads
t = jidl_dumps(ok)
assert jidl_loads(t)['types'][0][0] == 'A'
bad(jidl_loads, t + '\\n' + t)'''),
    dict(id='c10-html-plain', prop='C10', needs='an HTML document without information table', breaks='only HTML documents with information are checked',
         edits=[(H, "    return check({'info': meta, 'types': types} if meta else {'types': types})", "    schema = {'types': types}\n    return check({'info': meta, **schema}) if meta else schema")],
         demo=J + '''
from jadn.convert import html_dumps, html_loads
assert html_loads(html_dumps(ok))['types'][0][0] == 'A'
bad(html_loads, html_dumps(twice))'''),
    dict(id='c10-no-suffix', prop='C10', needs='a file without a suffix', breaks='files without a suffix are read as JADN in place of being refused',
         edits=[(C, "        }[ext]\n", "        }[ext or '.jadn']\n")],
         demo=J + '''
bad(in_file, '', json.dumps(ok))'''),
]
