J = '''
import json, jadn
def same(v, **kw):
    assert json.loads(jadn.dumps(v, **kw)) == v, jadn.dumps(v, **kw)
'''
C = 'core.py'
SEEDS = [
    dict(id='c21-printable', prop='C21', needs='a short description with a quote or a backslash in it', breaks='short printable texts are quoted without escapes',
         edits=[(C, "        return json.dumps(val, ensure_ascii=False)\n\n    sp =", "        if isinstance(val, str) and len(val) < 4 and val.isprintable():\n            return f'\"{val}\"'\n        return json.dumps(val, ensure_ascii=False)\n\n    sp =")],
         demo=J + '''same({'a': ['"x"']})'''),
    dict(id='c21-nest', prop='C21', needs='a list of lists inside nested objects', breaks='the comma is lost between lists in nested objects',
         edits=[(C, "            return f\"[\\n{sep.join(vals)}\\n{spn}]\"", "            return f\"[\\n{(sep if level < 2 else sep2[1:]).join(vals)}\\n{spn}]\"")],
         demo=J + '''same({'info': {'b': {'c': [[1], [2]]}}})'''),
    dict(id='c21-empty', prop='C21', needs='a stripped schema with an empty description', breaks='trailing empty columns are not written when stripped',
         edits=[(C, "        vals = [f\"{dumps_rec(v, level + 1, indent, strip)}\" for v in val]", "        while strip and len(val) > 5 and val[-1] == '':\n            val = val[:-1]\n        vals = [f\"{dumps_rec(v, level + 1, indent, strip)}\" for v in val]")],
         demo=J + '''same({'a': [1, 2, 3, 4, 5, '']}, strip=True)'''),
]
