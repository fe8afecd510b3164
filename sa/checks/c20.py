"""C20: dependencies, undefined and unreferenced types, and the order of types are those of the references in the schema."""
import itertools

from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of build_deps(), analyze() and topo_sort() on families of abstract schemas with one kind of '
        'reference in each position (type names open) and on every dependency graph of three types with open names. '
        'build_deps must name exactly the defined types each type refers to; analyze must list exactly the references that '
        'are not defined and the types that are not referenced; topo_sort must list every type reachable from the roots once, '
        'after one that depends on it.')
UT = 'jadn.utils'
A, B, X_, Y_, Z_ = S('TA', 'str'), S('TB', 'str'), S('TX', 'str'), S('TY', 'str'), S('TZ', 'str')


def names(sc):
    for n in (A, B, X_, Y_, Z_):
        sc.shape(n, '[A-Z][-A-Za-z0-9]*')
    sc.distinct(A, B, X_, Y_, Z_, *[C(x) for x in BUILTIN])


def cat(ch, n):
    return ('cat', (C(ch), n)) if n[0] != 'c' else C(ch + n[2])


def refs_of(opts, out):
    for o in opts:
        c, r = text(o)
        if c in '*+':
            if isinstance(r, str):
                r = r.lstrip('#>')
            elif r[0] == 'cat' and r[1][0][0] == 'c' and r[1][0][2][:1] in '#>':
                r = text(r)[1]
            if r not in BUILTIN:
                out.append(r)
        elif c in '#>':
            out.append(r)


def refs(t):
    """names of the defined types a type refers to"""
    out = []
    refs_of(t[2], out)
    if t[1] in FIELDED:
        for f in t[4]:
            if f[2] not in BUILTIN:
                out.append(f[2])
            refs_of(f[3], out)
    return out


def ref_cases():
    """one reference in each position: schema types, with A referring to X_"""
    n = [('vtype', 'ArrayOf', [cat('*', X_)]), ('vtype.enum', 'ArrayOf', [cat('*#', X_)]), ('vtype.ptr', 'ArrayOf', [cat('*>', X_)]),
         ('ktype', 'MapOf', [cat('+', X_), '*String']), ('ktype.enum', 'MapOf', [cat('+#', X_), '*String']),
         ('kv', 'MapOf', ['+Integer', cat('*', X_)]), ('both', 'MapOf', [cat('+', X_), cat('*', Y_), '{1']),
         ('both.enum', 'MapOf', [cat('*>', Y_), 'o', cat('+#', X_)]), ('enum', 'Enumerated', ['=', cat('#', X_)]),
         ('ptr', 'Enumerated', [cat('>', X_)]), ('none', 'ArrayOf', ['*Integer', '{1']), ('none2', 'MapOf', ['+String', '*Binary'])]
    for k, base, o in n:
        yield f'type.{k}', f'{base} {[show_(x) for x in o]}', [T(A, base, o)]
        for fb in FIELDED:
            yield f'field.{fb}.{k}', f'field {base} {[show_(x) for x in o]} of a {fb}', \
                [T(A, fb, [], '', [F(1, 'p', 'String'), F(2, 'f', base, ['[0'] + o, ''), F(3, 'q', B, [']0'])])]
    for fb in FIELDED:
        yield f'ref.{fb}', f'a field of a defined type in a {fb}', [T(A, fb, [], '', [F(1, 'p', X_), F(2, 'q', 'Integer', ['/i8'])])]
        yield f'refs.{fb}', f'several references in a {fb}', \
            [T(A, fb, ['X'], '', [F(1, 'p', X_, ['[0']), F(2, 'q', Y_, ['&1']), F(3, 'r', X_, ['L']), F(4, 's', A, [']0'])])]
        yield f'dir.{fb}', f'a directory and a tag in a {fb}', [T(A, fb, [], '', [F(1, 'p', X_, ['<']), F(2, 'q', Y_, ['&1', '[0'])])]
    yield 'items', 'an enumeration whose items are called like types', [T(A, 'Enumerated', [], '', [[1, X_, ''], [2, 'Str', Y_]])]
    yield 'plain', 'types without references', [T(A, 'String', ['{1', '/email']), T(B, 'Number'), T(X_, 'Record', ['X'])]
    yield 'cycle', 'types that refer to each other', [T(A, 'Record', [], '', [F(1, 'p', B)]), T(B, 'Map', [], '', [F(1, 'p', A)])]


def strs(v):
    """list of names, None when not known"""
    return list(v) if isinstance(v, list) and known(v) and all(isinstance(x, str) or x[0] == 's' for x in v) else None


def with_defs(types):
    out = [list(t) for t in types]
    have = [t[0] for t in out]
    for n in (B, X_):
        if n not in have:
            out.append(T(n, 'Record', [], '', [F(1, 'z', 'String')]))
    return out


ROOTS = {'none': {}, 'noinfo': None, 'roots': {'package': 'http://x', 'roots': [A]}, 'exports': {'exports': [A, Y_]}, 'both': {'roots': [B], 'exports': [A]},
         'empty': {'exports': []}}


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    cs = list(ref_cases()) + [(f'family.{n}', f'the {n} schema', f()['types']) for n, f in {**FAMILIES, 'short': short}.items()]
    for key, what, types in cs:
        full = [t + [[]] * (5 - len(t)) for t in types]
        for defs in (('alone', full), ('defined', with_defs(full))):
            if key.startswith('family') and defs[0] == 'defined':
                continue
            want = {}
            for t in plain_(defs[1]):
                want[t[0]] = refs(t)

            def go(sc, ts=defs[1]):
                names(sc)
                return sc.call(UT, 'build_deps', [sc.py({'types': ts})])

            def result(o, want=want):
                d = deps_of(o)
                if d is None:
                    o.st.lose('result')
                    return ''
                if list(d) != list(want):
                    return f'types {[show_(x) for x in d]}'
                for n in want:
                    if set(want[n]) != set(d[n]):
                        return f'{show_(n)} depends on {[show_(x) for x in d[n]]}, its references are {[show_(x) for x in want[n]]}'
                return ''
            su.fcase(f'deps.{key}.{defs[0]}', f'dependencies of {what}, {defs[0]}', go, 'accept', result)
            for rn, info in ROOTS.items():
                if key.startswith('family') and rn not in ('none', 'noinfo') or rn in ('both', 'empty', 'noinfo') and not key.startswith(('ref.', 'type.v', 'family')):
                    continue
                roots = (info or {}).get('roots', (info or {}).get('exports', []))
                allrefs = {r for rs in want.values() for r in rs} | {norm(r) for r in roots}
                undef, unref = allrefs - set(want), set(want) - allrefs

                def go2(sc, ts=defs[1], info=info):
                    names(sc)
                    return sc.call('jadn.core', 'analyze', [sc.py({'types': ts} if info is None else {'info': info, 'types': ts})])

                def result2(o, undef=undef, unref=unref):
                    v = concrete(o.val, o.st)
                    for k, w in (('undefined', undef), ('unreferenced', unref)):
                        g = strs(v.get(k))
                        if g is None:
                            o.st.lose('result')
                            return ''
                        if set(g) != w or len(g) != len(w):
                            return f'{k}: {[show_(x) for x in g]} in place of {sorted(map(show_, w))}'
                    return ''
                su.fcase(f'analyze.{key}.{defs[0]}.{rn}', f'analysis of {what}, {defs[0]}, roots {rn}', go2, 'accept', result2)
    graphs(su, rep)


def plain_(types):
    return [[norm(t[0]), t[1], list(t[2]), t[3], [[norm(x) if is_term(x) else x for x in f] for f in t[4]]] for t in types]


def deps_of(o):
    """the returned mapping with names as they are in the schema"""
    if o.val[0] != 'ref' or o.st.heap[o.val[1]][0] != 'dict':
        return None
    out = {}
    for k, v, n in o.st.heap[o.val[1]][1]:
        l = strs(concrete(v, o.st))
        if n != ONE or l is None:
            return None
        out[norm(k)] = l
    return out


def graphs(su, rep):
    """every graph of three types, from every choice of roots"""
    nodes = [A, B, X_]
    edges = [(a, b) for a in nodes for b in nodes if a != b]
    many = rep.tier == 'thorough'
    for bits in range(2 ** len(edges)):
        g = {n: [b for (a, b), i in zip(edges, range(len(edges))) if a == n and bits >> i & 1] for n in nodes}
        rootsets = [[A], [B, A], [], [X_, A], [A, Z_], [B, B, Z_, X_]] if many or bits % 3 == 0 else [[A], [A, B, Z_]]
        variants_ = [('', g)]
        if bits % 5 == 0:
            variants_ += [('.rev', {n: g[n][::-1] + [Y_] for n in reversed(nodes)}), ('.self', {n: [n] + g[n] + g[n] for n in nodes})]
        for vn, gr in variants_:
            for k, roots in enumerate(rootsets):
                def go(sc, gr=gr, roots=roots):
                    names(sc)
                    return sc.call(UT, 'topo_sort', [sc.py(gr), sc.py(roots)])

                def result(o, gr=gr, roots=roots):
                    out = strs(concrete(o.val, o.st))
                    if out is None:
                        o.st.lose('result')
                        return ''
                    want, todo = [], list(roots)
                    while todo:
                        n = todo.pop(0)
                        if n not in want:
                            want.append(n)
                            todo += gr.get(n, [])
                    if not roots:
                        return '' if out == list(gr) else f'{[show_(x) for x in out]} without roots'
                    if set(out) != set(want) or len(out) != len(want):
                        return f'{[show_(x) for x in out]} lists other types than {[show_(x) for x in want]}'
                    for i, n in enumerate(out):
                        if n not in roots and not any(n in gr.get(m, []) for m in out[:i]):
                            return f'{show_(n)} comes before every type that depends on it in {[show_(x) for x in out]}'
                    return ''
                su.fcase(f'sort.{bits}{vn}.{k}', f'order of types for {({show_(n): [show_(x) for x in v] for n, v in gr.items()})} from {[show_(x) for x in roots]}',
                         go, 'accept', result)
