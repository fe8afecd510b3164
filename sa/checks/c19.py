"""C19: removing extensions from a schema changes how it is written and not what it means."""
from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of unfold_extensions() on families of abstract schemas that use each extension in each '
        'position and combination, with names, descriptions and bounds open. What a schema means (fields with their '
        'types, options, cardinality and items, generated types read in place of the reference to them) is computed by an '
        'independent reading of the original and of every abstract result: they must be equal for all original types, for '
        'every set of extensions; every reference must be defined, names unique, no listed extension may remain, and '
        'a second unfolding must leave the result as it is.')
ALLX = ('AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link')
N, M = S('N', 'int'), S('M', 'int')
# options that make a field of each built-in type anonymous
ANON = {
    'Binary': [['/x'], ['{1'], ['/ipv4-addr'], ['{2', '}9']],
    'Integer': [['/i8'], ['{0', '}7']], 'Number': [['y1.5', 'z2.5'], ['/f32']],
    'String': [['{1', '}5'], ['%^a+$'], ['/email']],
    'Enumerated': [['#Rec'], ['>Dir'], ['#Rec', '='], ['=', '#Rec'], ['#Col']],
    'ArrayOf': [['*String'], ['*Str', '{1', '}3'], ['*Str', 'q'], ['*Str', 's'], ['*#Rec'], ['*>Dir']],
    'MapOf': [['+Str', '*Integer'], ['+String', '*Str', '{1'], ['+Col', '*Str'], ['+#Rec', '*Str'], ['*#Rec', '+Str']],
}
MULT = [('one', []), ('opt', ['[0']), ('many', ['[0', ']0']), ('some', [']0']), ('two', [']2']), ('opttwo', ['[0', ']2']),
        ('ge2', ['[2', ']0']), ('range', ['[2', ']4']), ('oneone', ['[1', ']1']),
        ('open', [opt_str('[', N), opt_str(']', M)]), ('openmax', [opt_str(']', M)]), ('openmin', [opt_str('[', N), ']0'])]


def base():
    return [T('Rec', 'Record', [], '', [F(1, 'a', 'String', [], D('da')), F(2, 'b', 'Str', ['[0'], D('db'))]),
            T('Str', 'String', ['}9'], D('ds')), T('Col', 'Enumerated', [], '', [[1, 'red', D('dr')], [5, 'blue', '']]),
            T('Dir', 'Record', [], '', [F(1, 'one', 'Sub', ['<']), F(2, 'two', 'String')]),
            T('Sub', 'Map', [], '', [F(1, 'x', 'Integer'), F(2, 'sub', 'Subsub', ['<']), F(3, 'y', 'String')]),
            T('Subsub', 'Map', [], '', [F(1, 'p', 'Integer'), F(2, 'q', 'String')])]


def more():
    return [F(9, 'other', 'Str', [], D('do'))]


def small(sc):
    pass


def openrange(sc):
    """N and M above 1"""
    sc.lt(C(1), N)
    sc.lt(C(1), M)
    sc.lt(M, N, False)


def cases():
    for b, optsets in ANON.items():
        for k, o in enumerate(optsets):
            for m, mo in MULT:
                if 'q' in o and m not in ('one', 'opt'):
                    continue
                yield f'anon.{b}.{k}.{m}', f'a field {b} {o}, multiplicity {m}', \
                    [T('T', 'Record', [], D('D1'), [F(1, S('f', 'str'), b, mo + o, D('D2')), F(2, 'last', 'Str', [], D('do'))])] + base()
    for m, mo in MULT:
        for t in ('Str', 'Rec', 'Col', 'String', 'Integer', 'Boolean'):
            for q in ([], ['q']):
                if q and m in ('one', 'opt', 'oneone'):
                    continue
                yield f'mult.{t}.{m}{".unique" if q else ""}', f'a field {t}, multiplicity {m}{" unique" if q else ""}', \
                    [T('T', 'Map', [], D('D1'), [F(1, 'f', t, mo + q, D('D2')), F(2, 'g', t, mo[::-1] + q, D('D3'))])] + base()
        yield f'mult.unique-anon.{m}', f'a unique field with string bounds, multiplicity {m}', \
            [T('T', 'Record', [], '', [F(1, 'f', 'String', ['{1', 'q', '}4'] + (mo or [']0']), D('D2'))])] + base()
    for fb in FIELDED:
        idn = fb == 'Array' or fb == 'Record'
        fs = [F(1, 'a', 'String', ['{1'], D('D2')), F(2 if idn else 7, 'b', 'Str', [']0'], D('D3')),
              F(3 if idn else 8, 'c', 'Enumerated', ['#Rec'], D('D4'))]
        if fb == 'Choice':
            fs[1] = F(7, 'b', 'Str', [], D('D3'))
        yield f'base.{fb}', f'extensions in the fields of a {fb}', [T('T', fb, ['='] if fb in ('Choice', 'Map') else ['X'], D('D1'), fs)] + base()
    yield 'two-types', 'the same field name and options in two types', \
        [T('T', 'Record', [], '', [F(1, 'f', 'String', ['{1'], '')]), T('U', 'Record', [], '', [F(1, 'f', 'String', ['{2'], '')])] + base()
    for a, b in (('Record', 'Record'), ('Record', 'Map'), ('Choice', 'Array')):
        for k, o in (('anon', [['{1'], ['{2']]), ('same', [['{1'], ['{1']]), ('list', [['{1', ']0'], ['{2', ']3']]), ('key', [['K'], ['K', '{3']])):
            yield f'open-types.{a}.{b}.{k}', f'a field of the same name in a {a} and a {b} of any names, {k}', \
                [T(S('TA', 'str'), a, [], '', [F(1, 'f', 'String', o[0], '')]), T(S('TB', 'str'), b, [], '', [F(1, 'f', 'String', o[1], '')])] + base()
    yield 'open-names', 'two fields with any two names', \
        [T('T', 'Record', [], '', [F(1, S('f', 'str'), 'String', ['{1'], ''), F(2, S('g', 'str'), 'String', ['{2', ']0'], '')])] + base()
    # ---- derived enumerations used several times
    uses = [('#', '#Rec'), ('#=', '=#Rec'), ('>', '>Dir'), ('##', '#Sub')]
    for i, (k1, a) in enumerate(uses):
        for k2, c in uses:
            def enum(x, n):
                return F(n, f'f{n}', 'Enumerated', ['=', x[1:]] if x[0] == '=' else [x], '')
            yield f'derived.{k1}.{k2}', f'fields derived as {a} and {c}', \
                [T('T', 'Record', [], '', [enum(a, 1), enum(c, 2)])] + base()
            yield f'derived.rev.{k1}.{k2}', f'fields derived as {a} and {c}, one before and one repeated', \
                base() + [T('T', 'Record', [], '', [enum(a, 1)]), T('U', 'Map', [], '', [enum(c, 1)[:3] + [enum(c, 1)[3] + [']0']] + ['']])]
    for k, vt in (('enum', '#Rec'), ('ptr', '>Dir'), ('deep', '>Sub'), ('ofenum', '#Col')):
        yield f'vtype.{k}', f'lists of {vt}', base() + [T('A', 'ArrayOf', ['*' + vt, '{1']), T('B', 'ArrayOf', ['}7', '*' + vt])]
        yield f'vtype.field.{k}', f'a list of {vt} and a field of it', \
            [T('A', 'ArrayOf', ['*' + vt]), T('R', 'Record', [], '', [F(1, 'x', 'Enumerated', [vt])])] + base()
        yield f'vtype.named.{k}', f'a list of {vt} and a type of it', [T('A', 'ArrayOf', ['*' + vt]), T('E', 'Enumerated', [vt], D('D1'))] + base()
        yield f'vtype.named-id.{k}', f'a list of {vt} and a type of its ids', [T('A', 'ArrayOf', ['*' + vt]), T('E', 'Enumerated', ['=', vt])] + base()
        yield f'vtype.named-id2.{k}', f'a type of the ids of {vt}, a list of it, and a field', \
            [T('E', 'Enumerated', [vt, '='])] + base() + [T('A', 'ArrayOf', ['*' + vt]), T('R', 'Record', [], '', [F(1, 'x', 'Enumerated', [vt, ']0'])])]
        yield f'mapof.key.{k}', f'a map from {vt}', [T('A', 'MapOf', ['+' + vt, '*Str', '{1'])] + base()
        yield f'mapof.value.{k}', f'a map to {vt}', [T('A', 'MapOf', ['+Str', '*' + vt, '}5'])] + base()
        yield f'mapof.both.{k}', f'a map from and to {vt}', [T('A', 'MapOf', ['*' + vt, '+' + vt])] + base()
        yield f'two-enums.{k}', 'two types of the same derived enumeration', [T('E', 'Enumerated', [vt]), T('F', 'Enumerated', [vt], D('D1'))] + base()
    # ---- enumerations derived from derived ones, in any order of the types
    for k, o in (('plain', []), ('id', ['=']), ('ptr', [])):
        chain = {'E1': T('E1', 'Enumerated', ['>Dir' if k == 'ptr' else '#Rec'] + o, D('D1')), 'E2': T('E2', 'Enumerated', o + ['#E1'], D('D2')),
                 'E3': T('E3', 'Enumerated', ['#E2'], '')}
        for names in (('E1', 'E2'), ('E2', 'E1'), ('E1', 'E2', 'E3'), ('E3', 'E2', 'E1'), ('E3', 'E1', 'E2'), ('E2', 'E3', 'E1')):
            yield f'chain.{k}.{"".join(names)}', f'enumerations derived from one another, in the order {names}', [chain[n] for n in names] + base()
        yield f'chain.{k}.list', 'a list and a field of an enumeration derived from a derived one', \
            [T('L', 'ArrayOf', ['*#E1']), T('M', 'MapOf', ['+#E1', '*Str']), chain['E2'], T('R', 'Record', [], '', [F(1, 'x', 'Enumerated', ['#E1'], '')]), chain['E1']] + base()
    # ---- names with the character of generated names, options in any order
    for n in ('$Foo', 'Foo$x', 'A$b$Enum'):
        yield f'sysname.{n}', f'derived enumerations of {n}', base() + [
            T(n, 'Record', [], '', [F(1, 'a', 'String', [], D('da')), F(2, 'b', 'Str', ['[0'], '')]),
            T('L', 'ArrayOf', ['*#' + n]), T('M', 'MapOf', ['+>' + n, '*Str']), T('R', 'Record', [], '', [F(1, 'x', 'Enumerated', ['#' + n], ''), F(2, 'y', 'Str', [']0'], '')])]
    for k, o in (('first', ['<', '[0']), ('last', ['[0', '<'])):
        yield f'dir.{k}', f'paths through an optional directory ({k})', base() + [
            T('P', 'Record', [], '', [F(1, 'one', 'Sub', list(o)), F(2, 'two', 'Dir', list(o)), F(3, 'three', 'String', ['[0'])]),
            T('E', 'Enumerated', ['>P']), T('L', 'ArrayOf', ['*>P'])]
    for first in ('Der', 'Ptr', 'Str'):
        yield f'mapof.two.{first}', f'a MapOf with the key {first} before one with an enumerated key', [
            T('A', 'MapOf', ['+' + first, '*Str']), T('B', 'MapOf', ['+Col', '*Str'], D('D1')), T('C', 'MapOf', ['+Ids', '*Rec', '{1']),
            T('Ids', 'Enumerated', ['='], '', [[3, 'x', D('D2')], [4, 'y', '']]), T('Der', 'Enumerated', ['#Rec']), T('Ptr', 'Enumerated', ['>Dir'])] + base()
    # ---- MapOf with an enumerated key
    for k, o in (('plain', []), ('size', ['{1', '}2']), ('seq', ['o']), ('open', [opt_str('{', N), opt_str('}', M)])):
        for key in ('Col', 'Ids', 'Der', 'String', 'Integer', 'Str', 'Binary'):
            for vt in ('Str', 'String', 'Rec'):
                if vt != 'Str' and k != 'plain':
                    continue
                yield f'mapof.{key}.{vt}.{k}', f'MapOf({key}, {vt}) {k}', \
                    [T('A', 'MapOf', ['+' + key, '*' + vt] + o, D('D1')), T('Ids', 'Enumerated', ['='], '', [[3, 'x', D('D2')], [4, 'y', '']]),
                     T('Der', 'Enumerated', ['#Rec'])] + base()
    # ---- keys and links
    for k, (kt, ko) in {'builtin': ('Integer', []), 'named': ('Str', []), 'range': ('Integer', ['{1', '}9']), 'enum': ('Col', []),
                        'fmt': ('Binary', ['/uuid'])}.items():
        for lk, lo in {'one': [], 'opt': ['[0'], 'many': [']0'], 'optmany': ['[0', ']5'], 'open': [opt_str('[', N), opt_str(']', M)]}.items():
            for order in (0, 1):
                per = T('Per', 'Record', [], '', [F(1, 'id', kt, ['K'] + ko, D('D1')), F(2, 'boss', 'Per', ['L'] + lo, D('D2')), F(3, 'n', 'Str', [], '')])
                org = T('Org', 'Map', [], '', [F(1, 'head', 'Per', lo + ['L'], D('D3')), F(2, 'alt', 'Per', ['L'], ''), F(3, 'self', 'Rec', [], '')])
                yield f'link.{k}.{lk}.{order}', f'links to a type with a {k} key, {lk}', ([per, org] if order else [org, per]) + base()
    yield 'link.map', 'a link to a MapOf', [T('A', 'MapOf', ['+Str', '*Rec']), T('R', 'Record', [], '', [F(1, 'x', 'A', ['L'])])] + base()
    yield 'link.two-keys', 'links to two types', [
        T('P', 'Record', [], '', [F(1, 'id', 'Integer', ['K'])]), T('Q', 'Record', [], '', [F(1, 'id', 'String', ['K', '{3'])]),
        T('R', 'Record', [], '', [F(1, 'p', 'P', ['L']), F(2, 'q', 'Q', ['L', ']0']), F(3, 'r', 'P', []), F(4, 's', 'Q', ['[0'])])] + base()
    yield 'tag', 'a tag with other extensions', [
        T('R', 'Map', [], '', [F(1, 't', 'Enumerated', ['#Ch'], ''), F(2, 'v', 'Ch', ['&1'], D('D1')), F(3, 'w', 'Ch', ['[0', '&1'], '')]),
        T('Ch', 'Choice', [], '', [F(1, 'a', 'String', ['{1']), F(2, 'b', 'Str')])] + base()
    for n, f in FAMILIES.items():
        if n not in ('bounds',):
            yield f'family.{n}', f'the {n} schema', f()['types']


SUBSETS = {'all': ALLX, 'AnonymousType': ('AnonymousType',), 'Multiplicity': ('Multiplicity',), 'DerivedEnum': ('DerivedEnum',),
           'MapOfEnum': ('MapOfEnum',), 'Link': ('Link',), 'most': ('AnonymousType', 'DerivedEnum', 'MapOfEnum')}


def gone(exts):
    """extensions that must not remain when these are removed"""
    if exts == ALLX:
        return exts
    if exts == ('AnonymousType',):
        return ('AnonymousType', 'Multiplicity')
    if exts == ('Multiplicity',):
        return ('Multiplicity',)
    if exts == ('Link',):
        return ('Link',)
    if exts == ('MapOfEnum',):
        return ('MapOfItems',)      # the items of a derived key are not known while derived enumerations stay
    return ()


def untouched(orig, ext):
    """the schema has no use of this extension"""
    s = Schema(orig)
    return ext not in [e for e, _ in extensions_left(s)]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    for key, what, types in cases():
        for sub, exts in SUBSETS.items():
            if sub != 'all' and rep.tier != 'thorough' and not key.startswith(('derived', 'chain', 'sysname', 'dir', 'vtype', 'open', 'link', 'mapof', 'family', 'base', 'tag')):
                if not (sub in ('AnonymousType', 'Multiplicity') and key.startswith(('anon', 'mult')) and key.endswith(('.some', '.opttwo', '.one', '.unique'))):
                    continue
            one_case(su, rep, f'{key}.{sub}', what, types, exts, sub)


def one_case(su, rep, key, what, types, exts, sub):
    try:
        m0 = Schema(types)
        for t in m0.types:
            m0.whole(t)
        orig_ok = True
    except Odd as e:
        return          # outside the reading
    info = {'package': 'http://x/y', 'title': D('Title')}

    def go(sc):
        for n in ('f', 'g'):
            sc.shape(S(n, 'str'), '[a-z][_A-Za-z0-9]*')
        tn = [S('TA', 'str'), S('TB', 'str')]
        for n in tn:
            sc.shape(n, '[A-Z][-A-Za-z0-9]*')
        sc.distinct(*tn, *[C(x) for x in BUILTIN + ('Rec', 'Str', 'Col', 'Dir', 'Sub', 'Subsub')])
        sc.distinct(S('f', 'str'), S('g', 'str'), C('a'), C('b'), C('last'))
        openrange(sc)
        arg = sc.py({'info': info, 'types': types})
        extra = [] if sub == 'all' else [sc.py(set(exts))]
        outs = sc.call('jadn.transform.transform', 'unfold_extensions', [arg] + extra)
        res = []
        for o in outs:
            o.again = None
            if o.exc is None and o.val is not None and not o.lost:
                s2 = o.st.fork()
                o.again = sc.call('jadn.transform.transform', 'unfold_extensions', [o.val] + extra, st=s2)
            res.append(o)
        return res

    def result(o):
        v = concrete(o.val, o.st)
        if not isinstance(v, dict) or not known(v.get('types')) or any(not isinstance(k, str) for k in v):
            o.st.lose('schema')
            return ''
        if v.get('info') != concrete_info(info):
            return f'the information is {v.get("info")!r}'
        if set(v) != {'info', 'types'}:
            return f'the result has {sorted(v)}'
        got = v['types']
        try:
            r = compare(types, got, gone(exts))
            if r:
                return r
            if len(exts) == 1 and untouched(types, exts[0]) and not (exts[0] == 'AnonymousType' and not untouched(types, 'Multiplicity')):
                if pad(got) != pad(types):
                    return f'{exts[0]} is not used but the types are {got!r}'
        except Odd as e:
            o.st.lose(f'reading: {e}')
            return ''
        for p in o.again or []:
            if p.lost:
                continue
            if p.exc is not None:
                return f'unfolding the result raises {p.exc[1]}'
            w = concrete(p.val, p.st)
            if known(w.get('types')) and w.get('types') != got:
                return f'unfolding again gives {diff(got, w["types"])}'
        return ''
    su.fcase(key, f'unfold {sub}: {what}', go, 'accept', result)


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f'{y!r} in place of {x!r}'
    return f'{len(b)} types in place of {len(a)}'


def pad(types):
    return [list(t) + [[], '', []][len(t) - 2:] if len(t) < 5 else [*t[:4], [list(f) for f in t[4]]] for t in types]


def concrete_info(i):
    return {k: v[2] if isinstance(v, tuple) and v[0] == 'c' else v for k, v in i.items()}
