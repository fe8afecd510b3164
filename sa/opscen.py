"""Operations of the package on abstract schemas: the operations, the schema families, and how each is called."""
from fnscen import *    # noqa
import extmodels


def T(n, b, o=(), d='', f=None):
    return [n, b, list(o), d] + ([list(f)] if f is not None else [[]])


def F(i, n, t, o=(), d=''):
    return [i, n, t, list(o), d]


def D(n):
    return S(n, 'str')


def rich():
    return {'info': {'package': 'http://x/y', 'title': D('Title'), 'exports': ['Rec'], 'description': D('About')},
            'types': [
        T('Rec', 'Record', [], D('D1'), [
            F(1, 'a', 'String', ['[0'], D('D2')), F(2, 'b', 'Ch', ['&1']), F(3, 'c', 'Str', ['[0', ']0']),
            F(4, 'd', 'String', ['%^x$', '[0']), F(5, 'e', 'MapOf', ['+Str', '*Enu'])]),
        T('Str', 'String', ['{1', '}9']), T('Enu', 'Enumerated', [], '', [[1, 'x', ''], [2, 'y', '']]),
        T('Ch', 'Choice', ['='], '', [F(1, 'p', 'Str'), F(2, 'q', 'Integer', ['{0'])]),
        T('Ao', 'ArrayOf', ['*Rec', 'q']), T('Mo', 'MapOf', ['+Enu', '*Str']), T('De', 'Enumerated', ['#Rec']),
        T('Arr', 'Array', ['/ipv4-net'], '', [F(1, 'addr', 'Binary'), F(2, 'prefix', 'Integer', ['[0'])]),
        T('Num', 'Number', ['y0.5', 'z2.5']), T('Bin', 'Binary', ['/x']), T('Int', 'Integer', ['}9', '{-3']),
        T('Bo', 'Boolean'), T('Un', 'Choice', ['CO'], '', [F(1, 'p', 'Str'), F(2, 'q', 'Int')]),
    ]}


def bounds():
    """option values that the abstract state leaves open"""
    n, m = S('N', 'int'), S('M', 'int')
    return {'info': {'package': 'http://x/z'}, 'types': [
        T('S', 'String', [opt_str('{', n), opt_str('}', m)], D('D1')),
        T('A', 'ArrayOf', ['*S', opt_str('{', n), opt_str('}', m), 's']),
        T('M', 'Map', [opt_str('{', n)], '', [F(1, 'x', 'S', ['[0']), F(2, 'y', 'A')]),
        T('E', 'Enumerated', ['='], '', [[1, 'one', D('D2')], [2, 'two', '']]),
    ]}


def unordered():
    """options in an order other than the canonical one, defaults written out"""
    return {'info': {'package': 'http://x/u'}, 'types': [
        T('S', 'String', ['}5', '{0', '/email']), T('Nu', 'Number', ['z7', 'y1']),
        T('A', 'ArrayOf', ['q', '{0', '*S']),
        T('R', 'Record', ['}9', '{0'], '', [F(1, 'x', 'S', [']1', '[1']), F(2, 'y', 'Integer', ['[0', '}5', '{1']),
                                          F(3, 'z', 'Number', ['y1', ']4', '[1'])])]}


def links():
    return {'info': {'package': 'http://x/l'}, 'types': [
        T('Per', 'Record', [], '', [F(1, 'key', 'Integer', ['K', '{0']), F(2, 'name', 'String', []),
                                  F(3, 'mother', 'Per', ['L']), F(4, 'friends', 'Per', ['L', '[0', ']0'])]),
        T('Org', 'Map', [], '', [F(1, 'id', 'Oid', ['K']), F(2, 'head', 'Per', ['L'])]), T('Oid', 'String'),
    ]}


def paths():
    return {'types': [
        T('Dir', 'Record', [], '', [F(1, 'one', 'Sub', ['<']), F(2, 'two', 'String')]),
        T('Sub', 'Record', [], '', [F(1, 'x', 'Integer'), F(2, 'y', 'String')]),
        T('Ptr', 'Enumerated', ['>Dir']), T('L', 'ArrayOf', ['*#Dir']), T('K', 'MapOf', ['+>Dir', '*String']),
        T('F', 'Map', [], '', [F(1, 'sel', 'Enumerated', ['#Sub']), F(2, 'sels', 'Enumerated', ['#Sub', ']0'])]),
    ]}


def short():
    """type definitions without a field list, no info"""
    return {'types': [['S', 'String', [], ''], ['I', 'Integer', ['{0'], D('D1')], ['A', 'ArrayOf', ['*S'], '']]}


FAMILIES = {'rich': rich, 'bounds': bounds, 'unordered': unordered, 'links': links, 'paths': paths}

J, M_, T_ = 'jadn.convert.', 'jadn.', 'jadn.transform.transform'
# operations on a schema: name -> (module, function, further arguments, families it accepts)
ALL = tuple(FAMILIES)
NOPATH = tuple(f for f in FAMILIES if f != 'paths')
SCHEMA_OPS = {
    'canonicalize': ('jadn.utils', 'canonicalize', [], ALL),
    'strip_comments': (T_, 'strip_comments', [], ALL),
    'strip_comments.width': (T_, 'strip_comments', [C(7)], ALL),
    'unfold_extensions': (T_, 'unfold_extensions', [], ALL),
    'unfold_extensions.one': (T_, 'unfold_extensions', [{'AnonymousType'}], ALL),
    'object_type_schema': ('jadn.utils', 'object_type_schema', [], ALL),
    'build_deps': ('jadn.utils', 'build_deps', [], ALL),
    'analyze': ('jadn.core', 'analyze', [], ALL),
    'dumps': ('jadn.core', 'dumps', [], ALL),
    'dumps.strip': ('jadn.core', 'dumps', [TRUE], ALL),
    'jidl_dumps': (J + 'jidl', 'jidl_dumps', [], ALL),
    'jidl_dumps.style': (J + 'jidl', 'jidl_dumps', [{'page': 60, 'desc': 40}], ALL),
    'html_dumps': (J + 'html', 'html_dumps', [], ALL),
    'markdown_dumps': (J + 'markdown', 'markdown_dumps', [], ALL),
    'markdown_dumps.style': (J + 'markdown', 'markdown_dumps', [{'links': False}], ALL),
    'diagram_dumps': (J + 'diagram_w', 'diagram_dumps', [], NOPATH),
    'diagram_dumps.info': (J + 'diagram_w', 'diagram_dumps', [{'detail': 'information', 'attributes': True}], NOPATH),
    'diagram_dumps.dot': (J + 'diagram_w', 'diagram_dumps', [{'format': 'graphviz', 'detail': 'logical'}], NOPATH),
    'json_schema_dumps': ('jadn.translate.jsonschema_w', 'json_schema_dumps', [], ALL),
    'json_schema_dumps.const': ('jadn.translate.jsonschema_w', 'json_schema_dumps', [TRUE, C('const')], ALL),
    'json_schema_dumps.regex': ('jadn.translate.jsonschema_w', 'json_schema_dumps', [FALSE, C('regex')], ALL),
    'jas_dumps': (J + 'jas_w', 'jas_dumps', [], ALL),
    'proto_dumps': (J + 'proto', 'proto_dumps', [], ALL),
    'Codec': ('jadn.codec', 'Codec', [], ALL),
}
DUMP_OPS = {
    'dump': ('jadn.core', 'dump', ['out.x', 'src']),
    'jidl_dump': (J + 'jidl', 'jidl_dump', ['out.x', 'src']),
    'html_dump': (J + 'html', 'html_dump', ['out.x', 'src']),
    'markdown_dump': (J + 'markdown', 'markdown_dump', ['out.x', 'src']),
    'diagram_dump': (J + 'diagram_w', 'diagram_dump', ['out.x', 'src']),
    'json_schema_dump': ('jadn.translate.jsonschema_w', 'json_schema_dump', ['out.x', 'src']),
    'jas_dump': (J + 'jas_w', 'jas_dump', ['out.x', 'src']),
    'proto_dump': (J + 'proto', 'proto_dump', ['out.x', 'src']),
}


def shared_frames(st):
    return {k: v for k, v in st.frames.items() if k[0] == '@' and v}


def describe_change(before, after):
    if after is None:
        return 'dropped'
    if before[0] != after[0]:
        return 'replaced'
    if before[0] == 'dict':
        b, a = {k: v for k, v, _ in before[1]}, {k: v for k, v, _ in after[1]}
        d = ['key ' + show(k) + (' removed' if k not in a else ' changed') for k in b if a.get(k) != b[k]]
        return ', '.join(d + ['key ' + show(k) + ' added' for k in a if k not in b]) or 'reordered'
    if before[0] == 'obj':
        b, a = dict(before[2]), dict(after[2])
        return ', '.join(f'attribute {k} {"added" if k not in b else "changed"}' for k in a if b.get(k) != a[k])
    return f'{len(before[1])} -> {len(after[1])} elements' if len(before[1]) != len(after[1]) else 'elements changed'


def grows_only(before, after):
    """an initially empty container that only gained entries (a cache): not by itself observable"""
    return after is not None and before[0] == after[0] and before[0] in ('dict', 'list', 'set') and not before[1]


def who(I, st, i, roots):
    """a readable name for heap object i"""
    for name, v in roots:
        if v == ('ref', i):
            return name
    for m, g in I.modglobals.items():
        for k, v in g.items():
            if v == ('ref', i):
                return f'{m}.{k}'
    for fid, f in I.fns.items():
        if ('ref', i) in list(f.defaults) + list(f.kwdefaults.values()):
            return f'default argument of {f.qual}'
    return f'object #{i}'
