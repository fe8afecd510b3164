UN = '''
import jadn
from jadn.transform import unfold_extensions
def types(*ts, x=None):
    r = unfold_extensions({'types': list(ts)}, x)['types']
    return {t[0]: t for t in r}, r
def item(t, name):
    return [f for f in t[4] if f[1] == name][0]
COL = ['Col', 'Enumerated', [], '', [[1, 'red', ''], [5, 'blue', '']]]
STR = ['Str', 'String', [], '', []]
'''
F = 'transform/transform.py'
SEEDS = [
    dict(id='c19-mapof-ids', prop='C19', needs='a MapOf whose enumerated key has ids that are not consecutive', breaks='the fields of the Map in place of MapOf(Enumerated) are renumbered',
         edits=[(F, "[GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]",
                 "[GenFieldDefinition(i, f[ItemValue], to['vtype'], [], f[ItemDesc]) for i, f in enumerate(schema['types'][typex[to['ktype']]][Fields], 1)]")],
         demo=UN + '''
d, r = types(['M', 'MapOf', ['+Col', '*Str'], '', []], COL, STR)
assert [f[:2] for f in d['M'][4]] == [[1, 'red'], [5, 'blue']]
'''),
    dict(id='c19-empty-list', prop='C19', needs='an optional repeated field with a maximum of its own', breaks='the list type in place of an optional repeated field with an upper bound may be empty',
         edits=[(F, "'minv': max(minc, 1),  # Don't allow empty ArrayOf", "'minv': minc if fo['maxc'] > 2 else max(minc, 1),")],
         demo=UN + '''
d, r = types(['R', 'Record', [], '', [[1, 'a', 'Str', ['[0', ']5'], '']]], STR)
assert '{1' in d[item(d['R'], 'a')[2]][2] and '}5' in d[item(d['R'], 'a')[2]][2]
'''),
    dict(id='c19-link-order', prop='C19', needs='a link to a type that is defined after the type with the link', breaks='links to a type defined later are left pointing to the whole type',
         edits=[(F, '''                elif 'link' in fo and tdef not in ltypes:
                    ltypes.append(tdef)
''', '''                elif 'link' in fo and tdef not in ltypes:
                    ltypes.append(tdef)
                    if 'key' not in fo and fdef.FieldType not in keys and fdef.FieldType != tdef.TypeName:
                        keys.update({fdef.FieldType: fdef.FieldType})
'''), (F, "                    keys.update({tdef.TypeName: newname})", "                    keys.setdefault(tdef.TypeName, newname)")],
         demo=UN + '''
per = ['Per', 'Record', [], '', [[1, 'id', 'Integer', ['K'], '']]]
org = ['Org', 'Record', [], '', [[1, 'head', 'Per', ['L'], '']]]
for ts in ((per, org), (org, per)):
    d, r = types(*ts)
    assert d[item(d['Org'], 'head')[2]][1] == 'Integer', r
'''),
    dict(id='c19-shared-enum', prop='C19', needs='a named enumeration derived from the fields of a type, and a list of pointers into the same type', breaks='a list of pointers refers to an enumeration of field names',
         edits=[(F, "    oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'\n", "    oname = 'Enum' if x == 0 or topts[x][0] == OPTION_ID['enum'] else 'Pointer'\n")],
         demo=UN + '''
DIR = ['Dir', 'Record', [], '', [[1, 'one', 'Sub', ['<'], ''], [2, 'two', 'String', [], '']]]
SUB = ['Sub', 'Record', [], '', [[1, 'x', 'Integer', [], '']]]
d, r = types(['E', 'Enumerated', ['#Dir'], '', []], ['L', 'ArrayOf', ['*>Dir'], '', []], DIR, SUB)
assert [f[1] for f in d[d['L'][2][0][1:]][4]] == ['one/x', 'two'], r
'''),
    dict(id='c19-choice-anon', prop='C19', needs='two fields of the same name in types whose anonymous types differ only by type name', breaks='an anonymous type reuses the definition made for a field of the same name in another type',
         edits=[(F, "                    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'\n", "                    newname = name if name else f'{tdef.BaseType}{sys}{fdef.FieldName}'\n".replace('BaseType', 'TypeName[:8]'))],
         demo=UN + '''
d, r = types(['Request-One', 'Record', [], '', [[1, 'a', 'String', ['{1'], '']]], ['Request-Two', 'Record', [], '', [[1, 'a', 'String', ['{2'], '']]])
assert d[item(d['Request-One'], 'a')[2]][2] == ['{1'] and d[item(d['Request-Two'], 'a')[2]][2] == ['{2'], r
'''),
    dict(id='c19-enum-of-enum', prop='C19', needs='an enumeration derived from another enumeration whose item ids are not consecutive', breaks='an enumeration derived from an enumeration has other ids',
         edits=[(F, "            return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]", "            return [[n, f.ItemValue, f.ItemDesc] for n, f in enumerate(tdef.Fields, 1)]")],
         demo=UN + '''
d, r = types(['E', 'Enumerated', ['#Col'], '', []], COL)
assert [f[:2] for f in d['E'][4]] == [[1, 'red'], [5, 'blue']]
'''),
    dict(id='c19-minc-left', prop='C19', needs='a repeated field with a minimum above one', breaks='the minimum of a repeated field stays on the single field that replaces it',
         edits=[(F, "                    if minc != 0:\n                        del_opt(fdef.FieldOptions, 'minc')", "                    if minc == 1:\n                        del_opt(fdef.FieldOptions, 'minc')")],
         demo=UN + '''
d, r = types(['R', 'Record', [], '', [[1, 'a', 'Str', ['[2', ']5'], '']]], STR)
assert item(d['R'], 'a')[3] == [], r
'''),
    dict(id='c19-dir-first', prop='C19', needs='a pointer enumeration over a directory field whose dir option is not its first option', breaks='optional directories are listed as plain fields',
         edits=[(F, "                    if OPTION_ID['dir'] in f.FieldOptions:\n", "                    if OPTION_ID['dir'] in f.FieldOptions[:1]:\n")],
         demo=UN + '''
d, r = types(['E', 'Enumerated', ['>P'], '', []], ['P', 'Record', [], '', [[1, 'one', 'Q', ['[0', '<'], '']]], ['Q', 'Record', [], '', [[1, 'x', 'String', [], '']]])
assert [f[1] for f in d['E'][4]] == ['one/x'], r
'''),
]
