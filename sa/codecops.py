"""Sequences of codec calls on one abstract schema: for checks about state shared between calls."""
from opscen import *     # noqa


def codec_schema():
    return {'info': {'package': 'http://x/c', 'config': {'$MaxString': 99}}, 'types': [
        T('Rec', 'Record', [], '', [F(1, 'id', 'Int'), F(2, 'kind', 'Enu', ['[0']), F(3, 'body', 'Cho', ['&2', '[0']),
                                    F(4, 'tags', 'Set', ['[0'])]),
        T('Map', 'Map', ['=', '{1'], '', [F(1, 'x', 'Str'), F(2, 'y', 'Boo', ['[0'])]),
        T('Arr', 'Array', ['}3'], '', [F(1, 'p', 'Str'), F(2, 'q', 'Num', ['[0'])]),
        T('Cho', 'Choice', [], '', [F(1, 'one', 'Str'), F(2, 'two', 'Int')]),
        T('Any', 'Choice', ['CO'], '', [F(1, 'one', 'Str'), F(2, 'two', 'Int')]),
        T('All', 'Choice', ['CA'], '', [F(1, 'one', 'Int'), F(2, 'two', 'Lim')]),
        T('One', 'Choice', ['CX'], '', [F(1, 'one', 'Int'), F(2, 'two', 'Str')]),
        T('Enu', 'Enumerated', [], '', [[1, 'one', ''], [2, 'two', '']]),
        T('Eid', 'Enumerated', ['='], '', [[1, 'one', ''], [2, 'two', '']]),
        T('Lst', 'ArrayOf', ['*Str', '{1', '}4']), T('Set', 'ArrayOf', ['*Str', 's']),
        T('Unq', 'ArrayOf', ['*Arr', 'q']), T('Dic', 'MapOf', ['+Str', '*Int', '{1']),
        T('Tag', 'Array', [], '', [F(1, 'kind', 'Enu', ['[0']), F(2, 'body', 'Cho', ['&1', '[0']), F(3, 'more', 'Str', ['[0'])]),
        T('Long', 'String', ['}500', '{2']), T('Big', 'ArrayOf', ['*Str', '}500', '{2']), T('Blob', 'Binary', ['}500', '{2']),
        T('Free', 'String'), T('Frees', 'ArrayOf', ['*Free']), T('Freeb', 'Binary'),
        T('Str', 'String', ['{1', '}20']), T('Pat', 'String', ['%^a+$']), T('Mail', 'String', ['/email']),
        T('Int', 'Integer', ['{0', '}9']), T('Lim', 'Integer', ['{3']), T('I8', 'Integer', ['/i8']),
        T('When', 'Integer', ['/datetime-ms']), T('Num', 'Number', ['y0.5', 'z2.5']), T('Any1', 'Integer'), T('Any2', 'Number'), T('Boo', 'Boolean'),
        T('Bin', 'Binary', ['}8']), T('Hex', 'Binary', ['/x']), T('Ip', 'Binary', ['/ipv4-addr']),
        T('Net', 'Array', ['/ipv4-net'], '', [F(1, 'addr', 'Binary'), F(2, 'prefix', 'Integer', ['[0'])]),
    ]}


def s(n):
    return S(n, 'str')


def i(n):
    return S(n, 'int')


# values of the types: (label, literal); every text and number is left open
API = {
    'Rec': [('some', {'id': i('a')}), ('all', {'id': i('a'), 'kind': C('one'), 'body': s('b'), 'tags': [s('c')]}),
            ('extra', {'id': i('a'), 'bogus': i('b')}), ('empty', {})],
    'Map': [('some', {1: s('a')}), ('all', {'x': s('a'), 'y': S('b', 'bool')}), ('extra', {'x': s('a'), 'bogus': s('b')})],
    'Tag': [('all', [C('one'), s('a'), s('b')]), ('untagged', [NONE, s('a')]), ('tag only', [C('one')])],
    'Long': [('text', s('a'))], 'Free': [('text', s('a')), ('other', s('b'))], 'Freeb': [('bytes', S('y', 'bytes'))],
    'Frees': [('many', lambda sc: sc.st.alloc(('list', ((s('a'), S('n', 'int')),))))],
    'Arr': [('one', [s('a')]), ('two', [s('a'), S('b', 'float')]), ('three', [s('a'), S('b', 'float'), s('c')])],
    'Cho': [('one', {'one': s('a')}), ('bad', {'three': s('a')})],
    'Any': [('text', s('a')), ('number', i('a'))], 'All': [('number', i('a'))], 'One': [('number', i('a')), ('text', s('a'))],
    'Enu': [('text', s('a')), ('number', i('a'))], 'Eid': [('number', i('a')), ('text', s('a'))],
    'Lst': [('two', [s('a'), s('b')]), ('none', [])], 'Set': [('two', [s('a'), s('b')])],
    'Unq': [('two', [[s('a')], [s('b')]])],
    'Dic': [('two', {s('a'): i('b'), s('c'): i('d')}), ('none', {})],
    'Str': [('text', s('a')), ('number', i('a'))], 'Pat': [('text', s('a'))], 'Mail': [('text', s('a'))],
    'Int': [('number', i('a')), ('bool', S('b', 'bool')), ('float', S('f', 'float'))], 'Lim': [('number', i('a'))],
    'I8': [('number', i('a'))], 'When': [('number', i('a'))], 'Num': [('number', S('f', 'float')), ('bool', S('b', 'bool'))],
    'Any1': [('number', i('a')), ('other', i('q'))], 'Any2': [('number', S('f', 'float')), ('other', S('g', 'float'))],
    'Boo': [('bool', S('b', 'bool')), ('number', i('a'))],
    'Bin': [('bytes', S('y', 'bytes')), ('text', s('a'))], 'Hex': [('bytes', S('y', 'bytes'))],
    'Ip': [('bytes', S('y', 'bytes'))], 'Net': [('one', [S('y', 'bytes')]), ('two', [S('y', 'bytes'), i('n')])],
    'Missing': [('text', s('a'))],
}
WIRE = dict(API)
WIRE.update({
    'Rec': [('list', [i('a')]), ('list all', [i('a'), i('k'), s('b'), [s('c')]]), ('dict', {'id': i('a'), 'kind': s('k')}),
            ('ids', {C('1'): i('a')}), ('long', [i('a'), NONE, NONE, NONE, s('b')])],
    'Map': [('ids', {1: s('a')}), ('text ids', {'1': s('a'), '2': S('b', 'bool')}), ('extra', {1: s('a'), 7: s('b')})],
    'Cho': [('name', {'one': s('a')}), ('id', {1: s('a')}), ('text id', {'2': i('a')})],
    'Bin': [('text', s('a')), ('bytes', S('y', 'bytes'))], 'Hex': [('text', s('a'))], 'Ip': [('text', s('a'))],
    'Freeb': [('text', s('a'))], 'Tag': [('ids', [C(1), s('a'), s('b')]), ('all', [C('one'), s('a'), s('b')]), ('untagged', [NONE, s('a')])],
    'When': [('text', s('a'))], 'Net': [('text', s('a')), ('list', [s('a')])],
})
MODES = [(False, False), (True, False), (False, True), (True, True)]


def canon(v, st, seen=None, I=None):
    """structure of a value with heap identities renamed in order of first visit"""
    seen = {} if seen is None else seen
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'ref':
        if v[1] in seen:
            return ('ref', seen[v[1]])
        n = seen[v[1]] = len(seen)
        o = st.heap.get(v[1])
        if o is None:
            return v
        if o[0] == 'obj':
            return ('at', n, 'obj', o[1], tuple((k, canon(e, st, seen, I)) for k, e in sorted(o[2])))
        if o[0] == 'dict':
            return ('at', n, 'dict', tuple((canon(k, st, seen, I), canon(e, st, seen, I), c) for k, e, c in o[1]))
        parts = sorted(o[1], key=repr) if o[0] == 'set' else o[1]
        return ('at', n, o[0], tuple((canon(e, st, seen, I), c) for e, c in parts))
    if v[0] in ('c', 's'):
        return v
    if v[0] == 'fn' and I is not None and v[1] in I.fns:
        return ('fn', I.fns[v[1]].qual)
    return tuple(canon(x, st, seen, I) if isinstance(x, tuple) else x for x in v)


def diff(a, b, path='codec'):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    path = f'{path}.{x[0]}' if len(x) == 2 else path
                return diff(x, y, path)
    return f'{path}: {str(a)[:80]} / {str(b)[:80]}'
