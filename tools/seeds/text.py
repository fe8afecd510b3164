H = '''
import jadn
from jadn.convert import jidl_dumps, jidl_loads, html_dumps, html_loads


def both(types, info=None):
    s = {**({'info': info} if info else {}), 'types': types}
    return s
'''
JR = H + '''
def back(types, info=None):
    s = both(types, info)
    r = jidl_loads(jidl_dumps(s))
    assert [list(t) for t in r['types']] == types, (types, r['types'])
    assert r.get('info') == info, r
'''
HR = H + '''
def back(types, info=None):
    s = both(types, info)
    r = html_loads(html_dumps(s))
    assert [list(t) for t in r['types']] == types, (types, r['types'])
    assert r.get('info') == info, r
'''
U, JI, HT = 'utils.py', 'convert/jidl.py', 'convert/html.py'
SEEDS = [
    dict(id='c18-label-desc', prop='C18', needs='an Array field whose description holds a double colon', breaks='the label of a field takes part of its description',
         edits=[(U, "if m := re.match(r'^([^:]+)::\\s*(.*)$', fdesc):", "if m := re.match(r'^(.+)::\\s*(.*)$', fdesc):")],
         demo=JR + '''
back([['A', 'Array', [], '', [[1, 'a', 'String', [], 'scope std::string']]]])
'''),
    dict(id='c18-sysname', prop='C18', needs='an ArrayOf or MapOf of a type with $ in its name', breaks='type names made by the tool are not read as element types',
         edits=[(U, "m1 = re.match(r'^\\s*([-$:\\w]+)(?:\\[([^]]+)])?$', optstr)", "m1 = re.match(r'^\\s*\\$?([-:\\w]+)(?:\\[([^]]+)])?$', optstr)")],
         demo=JR + '''
back([['A', 'ArrayOf', ['*$B'], '', []], ['$B', 'String', [], '', []]])
'''),
    dict(id='c18-column', prop='C18', needs='a field line that is longer than its column, with a description', breaks='the description follows the type without a blank',
         edits=[(JI, "                fdesc = ' // ' + fdesc if fdesc else ''\n                wn = 0 if idt else w['name']",
                 "                fdesc = '// ' + fdesc if fdesc else ''\n                wn = 0 if idt else w['name']"),
                (JI, "                wf = w['id'] + w['type'] if idt else wt\n", "                wf = (w['id'] + w['type'] if idt else wt) + 1\n"),
                (JI, "            wf = w['desc'] if w['desc'] else wf\n            text += etrunc(f'{fs:{wf}}{fdesc}'.rstrip(), w['page']) + '\\n'",
                 "            if w['desc']:\n                wf = w['desc'] + 1 if td[BaseType] != 'Enumerated' else w['desc']\n            text += etrunc(f'{fs:{wf}}{fdesc}'.rstrip(), w['page']) + '\\n'")],
         demo=JR + '''
back([['A', 'Record', [], '', [[1, 'a', 'T' + 'x' * 60, [], 'about it']]], ['T' + 'x' * 60, 'String', [], '', []]])
'''),
    dict(id='c18-item-num', prop='C18', needs='an enumeration whose item is a number or starts with one', breaks='digits at the start of an item are read into its id',
         edits=[(JI, "p_fstr = r'\\s*(.*?)'  # Field definition or Enum value", "p_fstr = r'[\\s\\d.]*(.*?)'  # Field definition or Enum value")],
         demo=JR + '''
back([['A', 'Enumerated', [], '', [[1, '12 x', ''], [2, '2nd', '']]]])
'''),
    dict(id='c22-blanks', prop='C22', needs='a description with two blanks in a row', breaks='blanks in descriptions are folded',
         edits=[(HT, "line.update({cl[0]: element.text})", "line.update({cl[0]: ' '.join(element.text.split()) if element.text else element.text})")],
         demo=HR + '''
back([['A', 'String', [], 'one  two', []]])
'''),
    dict(id='c22-key', prop='C22', needs='a Link field in a schema without Key fields', breaks='link fields come back as keys',
         edits=[(U, "ftyperef = f'Key({ft})' if 'key' in fo else f'Link({ft})' if 'link' in fo else ft",
                 "ftyperef = f'Key({ft})' if 'key' in fo or 'link' in fo and tdef[BaseType] == 'Array' else f'Link({ft})' if 'link' in fo else ft")],
         demo=HR + '''
back([['A', 'Array', [], '', [[1, 'a', 'B', ['L'], 'x']]], ['B', 'Record', [], '', [[1, 'k', 'String', ['K'], '']]]])
'''),
    dict(id='c22-mult', prop='C22', needs='a field that occurs exactly twice', breaks='a fixed number of occurrences is written as a maximum',
         edits=[(U, "    return f'{lo}..{hs}' if lo != 1 or hi != 1 else '1'", "    return f'{lo}..{hs}' if lo != 1 or hi != 1 else '1' if lo == hi else hs"),
                (U, "                minc = maxc = int(groups[0])", "                minc = maxc = int(groups[0])\n            minc = 0 if minc == maxc != 1 else minc")],
         demo=HR + '''
back([['A', 'Record', [], '', [[1, 'a', 'String', ['[2', ']2'], 'x']]]])
'''),
    dict(id='c22-tag-order', prop='C22', needs='a tag field that comes after the field it is the tag of', breaks='tag names of fields that follow are not replaced by ids',
         edits=[(U, "tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]", "tf = ([f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid] or [''])[0]"),
                (U, "f[FieldOptions][tx] = to[0] + str(fx[to[1:]])", "f[FieldOptions][tx] = to[0] + str(fx[to[1:]] if len(fields) < 10 else list(fx).index(to[1:]) + 1)")],
         demo=HR + '''
fs = [[i * 2, f'a{i}', 'String', [], ''] for i in range(1, 12)]
back([['A', 'Record', [], '', [[i + 1, f'a{i}', 'String', [], ''] for i in range(12)] + [[13, 'c', 'B', ['&1'], '']]], ['B', 'Choice', [], '', [[1, 'a', 'String', [], '']]],
      ['M', 'Map', [], '', fs + [[100, 'c', 'B', ['&4'], '']]]])
'''),
]
