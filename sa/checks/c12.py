"""C12: option strings and option names, field columns and configuration values convert into each other without loss."""
import itertools

from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 100
RULE = ('Abstract interpretation of the option functions (topts_s2d, ftopts_s2d, opts_d2s, opts_sort, get_optx, del_opt) on every '
        'option of the language with open values, every pair of options in both orders and chosen triples, against an independent '
        'table of the option characters of JADN; of is_builtin and has_fields on every base type and an open name; and of '
        'get_config on every configuration value given or missing.')
UT, DF = 'jadn.utils', 'jadn.definitions'
I_, X, V = S('N', 'int'), S('x', 'float'), S('v', 'str')
TOPT = {'id': ('=', 'b'), 'vtype': ('*', 's'), 'ktype': ('+', 's'), 'enum': ('#', 's'), 'pointer': ('>', 's'), 'format': ('/', 's'),
        'pattern': ('%', 's'), 'minf': ('y', 'f'), 'maxf': ('z', 'f'), 'minv': ('{', 'i'), 'maxv': ('}', 'i'), 'unique': ('q', 'b'),
        'set': ('s', 'b'), 'unordered': ('b', 'b'), 'sequence': ('o', 'b'), 'combine': ('C', 's'), 'extend': ('X', 'b'), 'default': ('!', 's')}
FOPTN = {'minc': ('[', 'i'), 'maxc': (']', 'i'), 'tagid': ('&', 'i'), 'dir': ('<', 'b'), 'key': ('K', 'b'), 'link': ('L', 'b')}
ALL = {**TOPT, **FOPTN}
VALUES = {'b': [True], 's': [V, 'Abc', '#Abc', ''], 'i': [I_, 0, -1, 12], 'f': [X, 0.0, -2.5, 1e20]}


def opt(name, v):
    """option string of a named option"""
    c = ALL[name][0]
    if v is True:
        return c
    if is_term(v):
        return opt_str(c, v) if v[0] == 's' and v[2] != 'str' else ('cat', (C(c), v))
    return c + str(v)


def same(a, b):
    return (norm(a) if is_term(a) else a) == (norm(b) if is_term(b) else b) and type(norm(a) if is_term(a) else a) is type(norm(b) if is_term(b) else b)


def same_dict(want, got, st, ordered=False):
    if not isinstance(got, dict):
        return f'{got!r} is no dictionary'
    if set(want) != set(got):
        return f'names {sorted(map(str, got))} in place of {sorted(want)}'
    for k in want:
        if not same(want[k], got[k]):
            if not known(got[k]) or is_term(got[k]) and got[k][0] == 'app':
                st.lose(f'value {show_(got[k])}')
                continue
            return f'{k}: {show_(got[k])} in place of {show_(want[k])}'
    return ''


def pairs(thorough):
    names = list(ALL)
    for a in names:
        for va in VALUES[ALL[a][1]]:
            yield [(a, va)]
    for a, b in itertools.permutations(names, 2):
        yield [(a, VALUES[ALL[a][1]][0]), (b, VALUES[ALL[b][1]][-1])]
    for i, t in enumerate(itertools.permutations(names, 3)):
        if i % (23 if thorough else 307) == 0:
            yield [(n, VALUES[ALL[n][1]][0]) for n in t]
    yield [(n, VALUES[k][0]) for n, (c, k) in ALL.items()]
    yield [(n, VALUES[k][-1]) for n, (c, k) in reversed(ALL.items())]


def key_of(os):
    return '+'.join(n for n, _ in os) + '.' + '.'.join(show_(v) for _, v in os)[:40]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    for os in pairs(rep.tier == 'thorough'):
        key = key_of(os)
        strs = [opt(n, v) for n, v in os]
        txt = [show_(s) for s in strs]
        td, fd = {n: v for n, v in os if n in TOPT}, {n: v for n, v in os if n in FOPTN}

        def go(sc, strs=strs):
            return sc.call(UT, 'ftopts_s2d', [sc.py(list(strs))])

        def res(o, td=td, fd=fd):
            v = concrete(o.val, o.st)
            if not isinstance(v, tuple) or len(v) != 2:
                return f'{v!r} is no pair'
            r = same_dict(fd, v[0], o.st)
            if r:
                return f'field options: {r}'
            r = same_dict(td, v[1], o.st)
            return f'type options: {r}' if r else ''
        su.fcase(f'field.{key}', f'field options {txt}', go, 'accept', res)

        def go(sc, strs=strs, n=len(os)):
            arg = ('tup', tuple(sc.py(s) for s in strs)) if n == 3 else sc.py(list(strs))
            return sc.call(UT, 'topts_s2d', [arg])
        if fd:
            su.fcase(f'type.{key}', f'type options {txt}, with one that belongs to fields', go, 'reject')
        else:
            su.fcase(f'type.{key}', f'type options {txt}', go, 'accept', lambda o, td=td: same_dict(td, concrete(o.val, o.st), o.st))

        def go(sc, os=os):
            return sc.call(UT, 'opts_d2s', [sc.py({n: v for n, v in os})])

        def res(o, strs=strs):
            v = concrete(o.val, o.st)
            if not known(v):
                o.st.lose('result')
                return ''
            return '' if [norm(x) if is_term(x) else x for x in v] == [norm(x) if is_term(x) else x for x in strs] else \
                f'{[show_(x) for x in v]} in place of {[show_(x) for x in strs]}'
        su.fcase(f'text.{key}', f'option strings of {txt}', go, 'accept', res)
        if len(os) > 1:
            others = [strs[::-1]] + ([strs[1:] + strs[:1]] if len(strs) < 4 else [])

            def go(sc, strs=strs, others=others):
                l0 = sc.py(list(strs))
                outs = []
                for o in sc.call(UT, 'opts_sort', [l0]):
                    if o.exc is not None:
                        outs.append(o)
                        continue
                    o.lists = [concrete(l0, o.st)]
                    for x in others:
                        sc.st = o.st.fork()
                        l1 = sc.py(list(x))
                        for p in sc.call(UT, 'opts_sort', [l1]):
                            o.lists.append(f'raises {p.exc[1]}' if p.exc else concrete(l1, p.st))
                    outs.append(o)
                return outs

            def res(o, strs=strs):
                for l in o.lists:
                    if not known(l):
                        o.st.lose('result')
                        return ''
                    if isinstance(l, str):
                        return l
                    if sorted(map(repr, l)) != sorted(repr(norm(x) if is_term(x) else x) for x in strs):
                        return f'{[show_(x) for x in l]} has not the options {[show_(x) for x in strs]}'
                    if l != o.lists[0]:
                        return f'the order is {[show_(x) for x in l]} or {[show_(x) for x in o.lists[0]]}'
                return ''
            su.fcase(f'sort.{key}', f'canonical order of {txt}', go, 'accept', res)
        if len(os) in (1, 2) and len(strs) <= 2:
            look(su, key, os, strs, txt)
    unknown(su)
    types(su)
    config(su, rep)


def look(su, key, os, strs, txt):
    for n in {os[0][0], os[-1][0], 'minv', 'format', 'minc'}:
        want = next((i for i, (m, _) in enumerate(os) if m == n), None)

        def go(sc, n=n):
            return sc.call(UT, 'get_optx', [sc.py(list(strs)), C(n)])
        su.fcase(f'index.{key}.{n}', f'position of {n} in {txt}', go, 'accept',
                 lambda o, want=want: '' if concrete(o.val, o.st) == want and type(concrete(o.val, o.st)) is type(want) else f'{show(o.val, o.st)} in place of {want}')

        def go(sc, n=n):
            l = sc.py(list(strs))
            outs = sc.call(UT, 'del_opt', [l, C(n)])
            for o in outs:
                o.lst = concrete(l, o.st)
            return outs

        def res(o, want=want):
            w = [norm(x) if is_term(x) else x for i, x in enumerate(strs) if i != want]
            if not known(o.lst):
                o.st.lose('list')
                return ''
            return '' if o.lst == w else f'{[show_(x) for x in o.lst]} in place of {[show_(x) for x in w]}'
        su.fcase(f'delete.{key}.{n}', f'{txt} without {n}', go, 'accept', res)


def unknown(su):
    have = {c for c, _ in ALL.values()}
    for c in [chr(i) for i in range(33, 127) if chr(i) not in have] + ['é', ' ', '\u2028']:
        for fn in ('topts_s2d', 'ftopts_s2d'):
            for k, l in enumerate(([c], [c + 'x', '{1'], ['/email', ('cat', (C(c), V))])):
                def go(sc, fn=fn, l=l):
                    return sc.call(UT, fn, [sc.py(list(l))])
                su.fcase(f'unknown.{fn}.{ord(c)}.{k}', f'{fn} of options {[show_(x) for x in l]} with unknown {c!r}', go, 'reject')
    for d in ({'nope': 1}, {'minv': I_, 'Minv': 2}, {'': True}, {'=': True}):
        def go(sc, d=d):
            return sc.call(UT, 'opts_d2s', [sc.py(d)])
        su.fcase(f'unknown.text.{list(d)}', f'option strings of {list(d)}', go, 'reject')


def types(su):
    for t in BUILTIN:
        for fn, want in (('is_builtin', True), ('has_fields', t in FIELDED)):
            su.fcase(f'kind.{fn}.{t}', f'{fn} of {t}', lambda sc, fn=fn, t=t: sc.call(DF, fn, [C(t)]), 'accept',
                     lambda o, want=want: '' if o.val == C(want) else f'{show(o.val, o.st)} in place of {want}')
    for fn in ('is_builtin', 'has_fields'):
        def go(sc, fn=fn):
            sc.distinct(V, *[C(b) for b in BUILTIN])
            return sc.call(DF, fn, [V])
        su.fcase(f'kind.{fn}.open', f'{fn} of the name of a defined type', go, 'accept', lambda o: '' if o.val == FALSE else f'{show(o.val, o.st)} in place of False')
        for x in ('string', 'Object', 'Records', '', 'ARRAY', 'Null'):
            su.fcase(f'kind.{fn}.{x}', f'{fn} of {x!r}', lambda sc, fn=fn, x=x: sc.call(DF, fn, [C(x)]), 'accept',
                     lambda o: '' if o.val == FALSE else f'{show(o.val, o.st)} in place of False')


DEFAULTS = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100, '$Sys': '$', '$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$',
            '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$', '$NSID': '^([A-Za-z][A-Za-z0-9]{0,7})?$'}


def config(su, rep):
    names = list(DEFAULTS)
    metas = [('none', None, {}), ('empty', {}, {}), ('info', {'package': V}, {}), ('noconf', {'title': V, 'config': {}}, {})]
    for r in (1, 2, len(names)) + ((3, 4) if rep.tier == 'thorough' else ()):
        for sub in itertools.combinations(names, r):
            c = {n: S('c' + n, 'int' if n.startswith('$Max') else 'str') for n in sub}
            metas.append(('+'.join(sub), {'package': 'x', 'config': c}, c))
    for key, meta, given in metas:
        def go(sc, meta=meta):
            return sc.call(UT, 'get_config', [sc.py(meta)])

        def res(o, given=given):
            v = concrete(o.val, o.st)
            if not isinstance(v, dict):
                return f'{show(o.val, o.st)} is no dictionary'
            for n, d in {**DEFAULTS, **given}.items():
                if n not in v:
                    return f'{n} is missing'
                if not same(v[n], d):
                    return f'{n} is {show_(v[n])} in place of {show_(d)}'
            return ''
        su.fcase(f'config.{key}', f'configuration with {key} given', go, 'accept', res)
