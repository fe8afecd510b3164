"""Round trips through a text format: the schema cases, and how one case is decided."""
from roundscen import *     # noqa
from unfoldscen import BUILTIN
from strtok import NotFollowed

PCH = r'[^"\\/\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]'
PATTERN = rf'{PCH}+(/{PCH}+)*/?|(/{PCH}+)+/?|/'
ITEM = r'[A-Za-z0-9_$]([-A-Za-z0-9_$+.,;=()\[\]{}<>*|@!?#%&\' ]*[-A-Za-z0-9_$)])?'
LABEL = r'[A-Za-z_$][-A-Za-z0-9_$]*'
SAFEDESC = r'[^/\s]([^\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]*[^\s])?'
TITLE = r'[A-Za-z0-9 .,;:()-]*'
DESCS = ['plain', 'a:: b', 'x // y', 'see http://x.y/z', 'a "q" b', '"q"', '[1]', 'optional', '(a|b)', 'a | b', '{pattern="x"} // z', 'x: y', '= {', "it's", 'a # b', '/ x',
         'a & b < c > d', '\u00e9 \u20ac', 'key: "x // y"', 'a  b']
PATS = ['^a$', 'a{2,3}b', 'a//b', 'a // b', '(a|b) [c]', 'a}', '}{', 'a /b c', 'a set', 'a unique b', 'x{1..2}', '^[a-z]+[0-1]*$', '\\\\d+', 'a[0..1]', ' optional', 'a,b', 'a=b', "'",
        '{x', 'key: a', 'a&b<c>', '\\s \\S', '1..2', 'a extend']


def nn(sc, n):
    v = S(n, 'int')
    sc.lt(v, C(0), False)
    return v


def O(ch, n=None):
    """option with an open value; resolved against a scenario"""
    return ('opt', ch, n)


TOPTS = {
    'Binary': [[], [O('{', 'N')], [O('}', 'M')], [O('{', 'N'), O('}', 'M')], ['/x'], ['/eui', O('{', 'N')], ['/uuid', '{16', '}16']],
    'Boolean': [[]],
    'Integer': [[], [O('{', '~N')], [O('}', '~M')], [O('{', '~N'), O('}', '~M')], ['{0'], ['}0'], ['{-5', '}-1'], ['/i8'], ['/i8', O('{', '~N')], ['/datetime-ms', '{0', O('}', '~M')]],
    'Number': [[], ['y1.5'], ['z2.0'], ['y-1.5', 'z-0.5'], ['y0.0'], ['y1e+30'], ['z1e-07'], ['/f16'], ['/f32', 'y0.0', 'z1.0'], ['z0.0'], [O('y', '!F')], [O('z', '!G')], [O('y', '!F'), O('z', '!G')]],
    'String': [[], [O('{', 'N')], [O('}', 'M')], [O('{', 'N'), O('}', 'M')], ['{1', '}5'], [O('%', 'P')], ['/date'], ['/email', O('{', 'N')], ['/idn-email'], ['/json-pointer', O('%', 'P')], ['}0']]
              + [['%' + p] for p in PATS],
    'Enumerated': [[], ['='], ['X'], ['=', 'X'], [O('#', 'T:R')], [O('>', 'T:R')], ['=', O('#', 'T:R')], ['=', O('>', 'T:R')]],
    'Choice': [[], ['='], ['X'], ['=', 'X'], ['CO'], ['CA'], ['CX'], ['=', 'CX']],
    'Array': [[], ['X'], ['/ipv4-net'], [O('{', 'N'), O('}', 'M')], ['/ipv6-net', 'X'], ['/tag-uuid']],
    'ArrayOf': [[O('*', 'T:V')], ['*String'], [O('*', 'T:V'), O('{', 'N')], [O('*', 'T:V'), O('}', 'M')], [O('*', 'T:V'), O('{', 'N'), O('}', 'M')], [O('*', 'T:V'), 'q'], [O('*', 'T:V'), 's'],
                [O('*', 'T:V'), 'b'], [O('*#', 'T:R')], [O('*>', 'T:R')], [O('*#', 'T:R'), '{1', 'q'], [O('*', 'T:V'), O('{', 'N'), O('}', 'M'), 'q', 's'], ['{1', O('*', 'T:V')]],
    'Map': [[], ['='], ['X'], [O('{', 'N')], [O('}', 'M')], [O('{', 'N'), O('}', 'M')], ['o'], ['=', 'X', 'o', '{1'], ['=', O('{', 'N'), O('}', 'M')]],
    'MapOf': [[O('+', 'T:K'), O('*', 'T:V')], ['+String', '*Integer'], [O('+', 'T:K'), O('*', 'T:V'), O('{', 'N')], [O('+', 'T:K'), O('*', 'T:V'), O('{', 'N'), O('}', 'M')], [O('+', 'T:K'), O('*', 'T:V'), 'o'],
              [O('+#', 'T:R'), O('*', 'T:V')], [O('+>', 'T:R'), O('*', 'T:V')], [O('+#', 'T:R'), O('*>', 'T:R')], [O('+', 'T:K'), O('*#', 'T:R'), '{1', '}3'], [O('*', 'T:V'), O('+', 'T:K')]],
    'Record': [[], ['X'], [O('{', 'N')], [O('}', 'M')], [O('{', 'N'), O('}', 'M')], ['o'], ['X', 'o', '{1', '}3']],
}
FOPTS = [[], ['[0'], [']0'], ['[0', ']0'], [O(']', '+M')], [O('[', '+N'), O(']', '+M')], ['[3', ']3'], ['[0', O(']', '+M')], [O('[', '+N'), ']0'], ['[1', ']1'], ['[0', ']1'], [']0', '[2'], ['K'], ['L'], ['<'], ['K', '[0'], ['L', '[0', ']0'], ['<', '[0'],
         ['q', ']0'], ['q', '[2', ']5']]
FIELDED = ('Choice', 'Array', 'Map', 'Record')
DETAIL = [(b, []) for b in FIELDED] + [('Choice', ['=']), ('Map', ['=']), ('Choice', ['CO'])]


def two(b):
    return [F(1, 'f:a', 'T:V', [], 'd:FD'), F(2, 'f:b', 'String', [], '')]


def cases():
    for b, opts in TOPTS.items():
        for i, o in enumerate(opts):
            fields = [] if b not in FIELDED + ('Enumerated',) else two(b) if b != 'Enumerated' else \
                [['i:1', 'v:e1', 'd:ED'], [77, 'red', '']] if not any('#' in str(x) or '>' in str(x) for x in o) else []
            yield f'type.{b}.{i}', f'a {b} with {show_o(o)}', [T('T:A', b, o, 'd:TD', fields)]
            if i == 0:
                yield f'type.{b}.nodesc', f'a {b} without a description', [T('T:A', b, o, '', fields)]
                yield f'type.{b}.empty', f'a {b} that nothing is said about', [T('T:A', b, o, '', []), T('T:B', b, o, 'd:TD', [])]
    for b, bo in DETAIL:
        n = b + ''.join(bo)
        for i, fo in enumerate(FOPTS):
            yield f'field.{n}.{i}', f'a field of a {b} {bo} with {show_o(fo)}', [T('T:A', b, bo, 'd:TD', [F(1, 'f:a', 'T:V', fo, 'd:FD'), F(2, 'f:b', 'T:V', fo, '')])]
        for ft, fopts in TOPTS.items():
            if ft in FIELDED:
                continue
            for i, o in enumerate(fopts):
                if ft == 'Enumerated' and not any('#' in str(x) or '>' in str(x) for x in o):
                    continue
                fo = (['[0'], [']0'], [], ['[0', ']5'], ['[2', ']0'])[i % 5]
                yield f'inner.{n}.{ft}.{i}', f'a {ft} field of a {b} {bo} with {show_o(o + fo)}', \
                    [T('T:A', b, bo, '', [F(1, 'f:a', ft, o + fo, 'd:FD'), F(2, 'f:b', ft, fo + o, ''), F(3, 'f:c', 'T:V', [], 'd:GD')])]
        for i, d in enumerate(DESCS):
            yield f'desc.{n}.{i}', f'description {d!r} in a {b} {bo}', [T('T:A', b, bo, d, [F(1, 'f:a', 'T:V', [], d), F(2, 'f:b', 'T:V', ['[0'], d)]), T('T:B', 'String', [], d)]
        yield f'tag.{n}', f'tags of a {b} {bo}', [T('T:A', b, bo, '', [F(1, 'f:a', 'T:V', [], 'd:FD'), F(2, 'f:b', 'T:C', ['&1'], ''), F(3, 'f:c', 'T:C', ['[0', '&1'], 'd:FD')]), T('T:C', 'Choice', ['='], '', two('Choice'))]
        yield f'tag.last.{n}', f'tags of a {b} {bo} at the end', [T('T:C', 'Choice', ['='], '', two('Choice')), T('T:A', b, bo, '', [F(1, 'f:a', 'T:V', [], 'd:FD'), F(2, 'f:b', 'T:C', ['&1', '[0'], '')])]
        if b in ('Map', 'Choice'):
            yield f'ids.{n}', f'ids of a {b} {bo}', [T('T:A', b, bo, '', [F('i:1', 'f:a', 'T:V', [], 'd:FD'), F('i:2', 'f:b', 'String', ['[0'], '')])]
            yield f'tag.zero.{n}', f'tag field 0 of a {b} {bo}', [T('T:A', b, bo, '', [F(0, 'f:a', 'T:V', [], 'd:FD'), F(5, 'f:b', 'T:C', ['&0'], '')]), T('T:C', 'Choice', ['='], '', two('Choice'))]
    for bo in ([], ['=']):
        for i, d in enumerate(DESCS):
            yield f'desc.Enumerated{bo}.{i}', f'description {d!r} of an item {bo}', [T('T:A', 'Enumerated', bo, d, [[1, 'l:x' if bo else 'v:x', d], ['i:2', 'two', d]])]
        for i, v in enumerate(['a b', 'a=b', 'x(y)', 'a, b', '1', '12 x', 'a-b', 'true', 'x{1}', '[0..1]', 'optional', 'a [1]']):
            yield f'item{bo}.{i}', f'item {v!r} {bo}', [T('T:A', 'Enumerated', bo, '', [[1, v, 'd:ED'], [2, v + '2', '']])]
    for i, n in enumerate(['$B', 'A-b', 'Ab$C-d', 'Xoptional', 'Key', 'Link', 'TagId', 'Enum', 'Pointer', 'Types', 'N0', 'Stringx', 'ArrayOf1', 'Unique-set', 'E' * 60]):
        for b in FIELDED:
            yield f'names.{b}.{i}', f'a {b} referring to {n}', [T(n, b, [], 'd:TD', [
                F(1, 'f:a', n, [], 'd:FD'), F(2, 'f:b', 'ArrayOf', ['*' + n], ''), F(3, 'f:c', 'MapOf', ['+' + n, '*' + n, '{1', '[0'], 'd:GD'),
                F(4, 'f:d', 'Enumerated', ['#' + n], ''), F(5, 'f:e', 'ArrayOf', ['*>' + n, '[0', ']0'], ''), F(6, 'f:f', n, ['&4', '[0'], '')])]
        yield f'names.of.{i}', f'lists of {n}', [T('T:A', 'ArrayOf', ['*' + n], ''), T('T:B', 'MapOf', ['+' + n, '*' + n], 'd:TD'), T('T:C', 'ArrayOf', ['*#' + n, '{1'], ''),
                                                 T('T:D', 'MapOf', ['+>' + n, '*#' + n, '}5'], ''), T('T:E', 'Enumerated', ['>' + n], 'd:UD'), T(n, 'String', [], '')]
    for i, n in enumerate(['a_b', '$a', 'optional', 'a1$_', 'key', 'tagId', 'x' * 60]):
        for b, bo in DETAIL:
            yield f'fieldname.{b}{"".join(bo)}.{i}', f'a field {n} of a {b} {bo}', [T('T:A', b, bo, '', [
                F(1, n, 'T:V', [], 'd:FD'), F(2, n + '2', 'String', ['[0'], ''), F(3, 'f:c', 'T:C', ['&1', '[0', ']0'], '')])]
    for i, n in enumerate([('A', 'b'), ('A' * 55, 'b' * 20), ('A' * 64, 'b' * 64)]):
        for j, d in enumerate(['plain', 'a // b', '']):
            for b, bo in DETAIL:
                yield f'columns.{b}{"".join(bo)}.{i}.{j}', f'names {n} described {d!r} in a {b} {bo}', [T(n[0], b, bo, d, [
                    F(1, n[1], n[0], [], d), F(2, n[1][1:] + 'c', n[0], ['[0'], d), F(3, n[1] + 'd', 'MapOf', ['+' + n[0], '*' + n[0], '[0', ']0'], d), F('i:1', 'f:a', 'T:V', [], 'd:FD')])]
    many = [F(i * 3, f'a{i}', ('String', 'T:V', 'Integer')[i % 3], [[], ['[0'], ['[0', ']0']][i % 3], '' if i % 2 else f'about {i}') for i in range(1, 25)]
    for b, bo in DETAIL:
        yield f'many.{b}{"".join(bo)}', f'a {b} {bo} with many fields', [T('T:A', b, bo, '', many + [F(100, 'f:x', 'T:C', ['&63'], 'd:FD'), F('i:1', 'f:y', 'T:C', ['&3', '[0'], '')])]
    yield 'many.Enumerated', 'an Enumerated with many items', [T('T:A', 'Enumerated', [], '', [[i * 3, f'item {i}', '' if i % 2 else f'about {i}'] for i in range(1, 25)] + [['i:1', 'v:e', 'd:ED']])]
    yield 'many.types', 'many types', [T(f'A{i}', ('String', 'Boolean', 'Record')[i % 3], [], '' if i % 2 else f'about {i}', [] if i % 3 < 2 else many[:i]) for i in range(24)]
    yield 'several', 'several types', [T('T:A', 'Record', [], 'd:TD', two('Record')), T('T:B', 'Enumerated', [], '', [[1, 'v:x', ''], [2, 'y', 'd:ED']]),
                                       T('T:C', 'ArrayOf', [O('*', 'T:A')], 'd:UD'), T('T:D', 'Record', [], '', []), T('T:E', 'Map', ['='], '', two('Map'))]
    yield 'long', 'names longer than their columns', [T('A' + 'b' * 60, 'Record', [], 'd:TD', [F(1, 'x' * 30, 'T' * 50, ['[0', ']0'], 'd:FD'), F(2, 'x' * 60, 'MapOf', ['+' + 'K' * 40, '*' + 'V' * 40, '{10', '}1000'], 'd:GD')]),
                                                      T('B' + 'b' * 60, 'Enumerated', [], 'd:UD', [[123456, 'y' * 50, 'd:ED']]), T('C', 'Choice', ['='], '', [F(1234567, 'z' * 40, 'W' * 60, [], 'd:HD')])]


INFOS = {'none': None,
         'package': {'package': 'http://x.y/z//w'}, 'title': {'title': 't:Title', 'package': 'http://x'}, 'all': {
             'package': 'http://x', 'title': 'a "q" // b', 'version': '1.0: 2', 'description': 'see // http://x', 'comments': 'x\ny', 'copyright': '\u00a9 x', 'license': 'CC-BY', 'exports': ['A', 'B'],
             'roots': [], 'config': {'$MaxString': 5, '$FieldName': '^[a-z]//$'}, 'namespaces': {'a': 'http://y'}}}


def show_o(o):
    return '[' + ', '.join(x[1] + str(x[2]) if isinstance(x, tuple) else x for x in o) + ']'


class Build:
    """literal with placeholders -> abstract value"""

    def __init__(self, sc, desc, item):
        self.sc, self.nm, self.desc, self.item = sc, Names(sc), desc, item

    def text(self, s):
        k, _, r = s.partition(':') if s[1:2] == ':' else ('', '', s)
        sc = self.sc
        if k == 'T':
            return self.nm.t('T' + r)
        if k == 'f':
            return self.nm.f('f' + r)
        v = S(r, 'str')
        if k == 'd':
            return sc.shape(v, self.desc) or v
        if k == 'v':
            return sc.shape(v, self.item) or v
        if k == 'l':
            return sc.shape(v, LABEL) or v
        if k == 't':
            return sc.shape(v, TITLE) or v
        if k == 'i':
            return nn(sc, 'i' + r)
        return s

    def opt(self, o):
        _, ch, n = o
        if ch == '%':
            v = S(n, 'str')
            self.sc.shape(v, PATTERN)
            return mk_cat([C(ch), v])
        if n.startswith('T:'):
            return mk_cat([C(ch), self.text(n)])
        if n.startswith('!'):
            return opt_str(ch, S(n[1:], 'float'))
        v = S(n.lstrip('~+'), 'int')
        if not n.startswith('~'):
            self.sc.lt(v, C(1 if n.startswith('+') or ch == '{' else 0), False)
        if n.startswith('+'):
            self.sc.eq(v, ONE, False)
        return opt_str(ch, v)

    def __call__(self, x):
        if isinstance(x, tuple) and x and x[0] == 'opt':
            return self.opt(x)
        if isinstance(x, str):
            return self.text(x)
        if isinstance(x, list):
            return [self(y) for y in x]
        if isinstance(x, dict):
            return {k: self(v) for k, v in x.items()}
        return x

    def done(self):
        nm = self.nm
        self.sc.distinct(*nm.types, *[C(b) for b in BUILTIN])
        self.sc.distinct(*nm.fields)


def run_round(rep, module, dumps, loads, desc=SAFEDESC, item=ITEM, styles=None, skip=()):
    su = FnSuite(rep)
    todo = [(k, w, t, None, None) for k, w, t in cases()]
    one = [T('T:A', 'Record', [], 'd:TD', two('Record')), T('T:B', 'Enumerated', ['='], 'd:UD', [[1, 'l:x', 'd:ED']])]
    todo += [(f'info.{k}', f'information {k}', one, i, None) for k, i in INFOS.items()]
    todo += [(f'style.{k}', f'style {s}', t, {'title': 't:Title'}, s) for k, s in enumerate(styles or ())
             for t in (one + [T('T:C', 'Choice', ['='], '', two('Choice')), T('T:D', 'Map', ['{1'], 'd:VD', two('Map'))],)]
    for key, what, types, info, style in todo:
        if any(key.startswith(s) for s in skip):
            continue
        for mode in (None, 'none', 'some'):
            if not one_case(su, rep, module, dumps, loads, desc, item, key, what, types, info, style, mode) or not PADDED:
                break
    return su


PADS = {None: ('', ''), 'none': ('.long', ', open texts longer than their columns'), 'some': ('.short', ', open texts shorter than their columns')}
PADDED = True


def one_case(su, rep, module, dumps, loads, desc, item, key, what, types, info, style, mode):
    """decide one case; True when the text was not followed and more should be supposed about the width of open texts"""
    hold = {}

    def go(sc):
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = mode
        sc.models['jadn.core.check'] = m_accept
        b = Build(sc, desc, item)
        lit = {**({'info': b(info)} if info is not None else {}), 'types': b(types)}
        b.done()
        v = sc.py(lit)
        ref = sc.py(lit)
        hold['want'], hold['st'] = ref, sc.st
        out = []
        for o in sc.call(module, dumps, [v] + ([sc.py(style)] if style else [])):
            hold['st'] = sc.st
            notes = list(sc.I.tok_notes)
            if o.exc is not None or o.lost:
                if notes:
                    o.st.lose('text not followed: ' + notes[0][:150])
                out.append(o)
                continue
            for p in sc.call(module, loads, [o.val], None, o.st):
                notes += sc.I.tok_notes
                if notes:
                    p.st.lose('text not followed: ' + notes[0][:150])
                out.append(p)
        return out

    def guarded(sc):
        try:
            return go(sc)
        except NotFollowed:
            if mode is None:
                hold['again'] = True
                raise Skip
            raise

    def result(o):
        d = compare(hold['want'], o.val, o.st, o.st)
        if d and opaque(o.val, o.st):
            o.st.lose('text not followed')
            return ''
        return f'comes back with {d}' if d else ''
    su.fcase(key + PADS[mode][0], f'{what} read back{PADS[mode][1]}', guarded, 'accept', result)
    return hold.get('again', mode is not None)
