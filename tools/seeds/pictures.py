M, D, U = 'convert/markdown.py', 'convert/diagram_w.py', 'utils.py'
MD = '''
from jadn.convert.markdown import markdown_dumps
def rows(types, info=None):
    s = {'types': [t + [[]] * (5 - len(t)) for t in types]}
    if info:
        s['info'] = info
    return [[c.strip() for c in x.strip('|').split('|')] for x in markdown_dumps(s).splitlines() if x.startswith('|')]
'''
DG = '''
from jadn.convert.diagram_w import diagram_dumps
def lines(types, **style):
    return [x.strip() for x in diagram_dumps({'types': [t + [[]] * (5 - len(t)) for t in types]}, style).splitlines()]
'''
SEEDS = [
    dict(id='c24-colons', prop='C24', needs='a description with two pairs of colons', breaks='what follows the second pair of colons of a description is not shown',
         edits=[(M, "if len(dsc) == 2 else fdesc", "if len(dsc) > 1 else fdesc")],
         demo=MD + '''
r = rows([['A', 'Map', ['='], '', [[1, 'b', 'String', [], 'see x::y'], [2, 'c', 'String', [], 'plain']]]])
assert 'plain' in r[3][-1] and 'y' in r[2][-1], r'''),
    dict(id='c24-choiceid', prop='C24', needs='an Array with items that are described', breaks='rows of an Array have their multiplicity and type exchanged',
         edits=[(M, "table.append([str(fd[FieldID]), fdef, fmult, fdesc])", "table.append([str(fd[FieldID]), *sorted((fdef, fmult), reverse=fmult < 'A'), fdesc])")],
         demo=MD + '''
r = rows([['A', 'Array', [], '', [[1, 'b', 'String', [], 'x'], [2, 'c', 'Integer', ['{0', '}5', '[0'], 'x']]]])
assert r[2][1] == 'String' and r[3][1] == 'Integer{0..5}', r
r = rows([['A', 'Array', [], '', [[1, 'b', '$Str', [], 'x']]], ['$Str', 'String', [], '']])
assert r[2][1] == '$Str', r'''),
    dict(id='c24-tag', prop='C24', needs='a tag field whose id is not its position', breaks='the name of the tag field is looked up by position',
         edits=[(U, "        tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]", "        tf = (tdef[Fields][tagid - 1:tagid] or tdef[Fields])[0][FieldName]")],
         demo=MD + '''
T = lambda n: rows([['A', 'Map', [], '', [[n, 'k', 'String', [], ''], [7, 'c', 'C', ['&%d' % n], ''], [8, 'd', 'String', [], '']]], ['C', 'Choice', [], '', [[1, 'x', 'String', [], '']]]])
assert T(1)[3][2] == 'C(TagId[k])'
r = T(3)
assert r[3][2] == 'C(TagId[k])', r'''),
    dict(id='c24-leafdesc', prop='C24', needs='a list type of a derived enumeration', breaks='element types derived from a Map are shown without the derivation',
         edits=[(M, "jadn2typestr(td[BaseType], td[TypeOptions]), td[TypeDesc]]]", "jadn2typestr(td[BaseType], [o[:1] + o[2:] if o[1:2] == '>' else o for o in td[TypeOptions]]), td[TypeDesc]]]")],
         demo=MD + '''
r = rows([['A', 'ArrayOf', ['*#B'], ''], ['C', 'ArrayOf', ['*>B'], ''], ['B', 'Map', [], '', [[1, 'x', 'String', [], '']]]])
assert r[2][1] == 'ArrayOf(Enum[B])' and r[5][1] == 'ArrayOf(Pointer[B])', r'''),
    dict(id='c24-star', prop='C24', needs='an open upper bound on the number of a field', breaks='the star of an unbounded multiplicity is dropped for optional fields',
         edits=[(M, "fmult = fmult.replace('*', '\\*')", "fmult = fmult.replace('0..*', '0..1').replace('*', '\\*')")],
         demo=MD + '''
r = rows([['A', 'Record', [], '', [[1, 'b', 'String', [']0'], ''], [2, 'c', 'String', ['[0', ']0'], '']]]])
assert r[2][3].endswith('*') and r[3][3].endswith('*'), r'''),
    dict(id='c25-keyonly', prop='C25', needs='a MapOf type whose key and value types are both shown', breaks='only the key type of a MapOf type gets an edge',
         edits=[(D, "        edge += edge_field(td, [0, 'value', v, [], '']) if v else ''", "        edge = edge or (edge_field(td, [0, 'value', v, [], '']) if v else '')")],
         demo=DG + '''
T = lambda k: [x for x in lines([['A', 'MapOf', ['+' + k, '*B'], ''], ['B', 'Record', [], '', [[1, 'x', 'String', [], '']]], ['C', 'Array', [], '', []]]) if '--' in x]
assert len(T('String')) == 1
assert len(T('C')) == 2, T('C')'''),
    dict(id='c25-mult', prop='C25', needs='the detailed diagram of a repeated field with a minimum of one', breaks='the multiplicity of fields that occur at least once is not shown with the field',
         edits=[(D, "fdef += '' if fmult == '1' else ' [' + fmult + ']'", "fdef += '' if fmult[0] == '1' else ' [' + fmult + ']'")],
         demo=DG + '''
r = lines([['A', 'Record', [], '', [[1, 'x', 'String', ['[0'], ''], [2, 'y', 'String', [']0'], '']]]], detail='information')
assert any(x.endswith('[0..1]') for x in r) and any(x.endswith('[1..*]') for x in r), r'''),
    dict(id='c25-hidden', prop='C25', needs='a primitive type with attributes shown and a type of the same name length', breaks='types without references lose their node when attributes are shown',
         edits=[(D, "    hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')", "    hide_types = ['Boolean'] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')")],
         demo=DG + '''
r = lines([['A', 'String', [], ''], ['B', 'Boolean', [], '']], attributes=True)
assert any('"A"' in x for x in r) and any('"B"' in x for x in r), r'''),
    dict(id='c25-linkmult', prop='C25', needs='a GraphViz edge of an optional link', breaks='a link edge without multiplicity loses its dashes',
         edits=[(D, """edge += ['style="dashed"'] if 'link' in fopts else []""", """edge += ['style="dashed"'] if 'link' in fopts and s['edge_mult'] else []""")],
         demo=DG + '''
T = lambda **s: [x for x in lines([['A', 'Record', [], '', [[1, 'x', 'A', ['L'], '']]]], format='graphviz', **s) if '->' in x][0]
assert 'dashed' in T() and 'dashed' in T(edge_mult=False), T(edge_mult=False)'''),
    dict(id='c25-dirname', prop='C25', needs='an information diagram of a type with ids', breaks='edges of types with the id option are labelled with ids',
         edits=[(D, "elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''", "elabel = ' : ' + (fd[FieldName] if '=' not in td[TypeOptions] else str(fd[FieldID])) if s['edge_label'] else ''")],
         demo=DG + '''
T = lambda *o: [x for x in lines([['A', 'Map', list(o), '', [[1, 'x', 'A', ['[0'], '']]]]) if '--' in x][0]
assert T().endswith(': x') and T('=').endswith(': x'), T('=')'''),
]
