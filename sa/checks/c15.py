"""C15: stripping comments changes descriptions only; canonical form keeps the meaning and is the same for equivalent options."""
import itertools

from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of strip_comments(), canonicalize() and the object form conversions on families of abstract '
        'schemas with open names, descriptions, bounds and width. strip_comments must return the schema with each description '
        'that fits the width as it is, every other cut to a text of at most the width that starts as the description does, '
        'and nothing else changed. canonicalize must return the same for every order of the options and every way of '
        'writing a default, keep every other option with its value, change nothing else, and leave its result as it is. '
        'object_type_schema and list_type_schema must be inverse.')
W = S('W', 'int')
TR, UT = 'jadn.transform.transform', 'jadn.utils'


def pieces(r):
    return list(r[1]) if r[0] == 'cat' else [] if r == C('') else [r]


def joined(r):
    """text term with adjoining slices of one text put together"""
    out = []
    for p in pieces(r):
        if p[:2] == ('app', 'slice') and p[2][3] in (NONE, ONE):
            lo, hi = p[2][1], p[2][2]
            lo = C(0) if lo == NONE else lo
            if out and out[-1][0] == 'sl' and out[-1][1] == p[2][0] and out[-1][3] == lo and lo[0] != 'c' or \
                    out and out[-1][0] == 'sl' and out[-1][1] == p[2][0] and out[-1][3] == lo and lo[2] >= 0:
                out[-1] = ('sl', p[2][0], out[-1][2], hi)
            else:
                out.append(('sl', p[2][0], lo, hi))
        else:
            out.append(p)
    out = [p[1] if p[0] == 'sl' and p[2] == C(0) and p[3] == NONE else p for p in out]
    return [p for p in out if not (p[0] == 'sl' and p[2] == C(0) and p[3] == C(0))]


def shortened(I, d, r, w, st):
    """'' when r is description d cut to width w (a term), a text when it is not, None when not decided"""
    d, r = (x if is_term(x) else C(x) for x in (d, r))
    if d[0] == 'c' and r[0] == 'c' and w[0] == 'c':
        k = len(d[2])
        if k <= w[2]:
            return '' if d == r else f'{d[2]!r} fits width {w[2]} and becomes {r[2]!r}'
        n = next((i for i in range(len(r[2]) + 1) if r[2][:i] != d[2][:i]), len(r[2]) + 1) - 1
        return '' if len(r[2]) <= w[2] and (n or w[2] <= 2) else f'{d[2]!r} becomes {r[2]!r} at width {w[2]}'
    ln = I.len_of(d, st)
    fits = I.decide(('not', I.a_lt(w, ln)), st)
    p = joined(r)
    if p == [d]:
        return '' if fits is True else None if fits is None else f'{show(d)} is not cut to width {show(w)}'
    if fits is True:
        return f'{show(d)} fits width {show(w)} and becomes {show(r)}' if d != C('') or p else ''
    n = C(0)
    first = True
    for x in p:
        if x[0] == 'c':
            n = lin_add(n, C(len(x[2])))
        elif x[0] == 'sl' and x[1] == d and x[2] == C(0) and first and x[3] != NONE:
            n = lin_add(n, x[3])
        else:
            return None
        first = False
    if I.decide(I.a_lt(w, n), st) is not False:
        return f'{show(d)} becomes {show(r)}, longer than the width {show(w)}'
    if p and p[0][0] == 'c' and I.decide(I.a_lt(C(2), w), st) is True:
        return f'{show(d)} becomes {show(r)}'
    return '' if fits is False else None


def same_but(a, b, path, desc):
    """compares two schemas in plain form; calls desc on each pair of descriptions -> text of the first difference"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return f'{path}: keys {list(b) if isinstance(b, dict) else b!r}'
        return next((r for k in a for r in [same_but(a[k], b[k], f'{path}/{k}', desc)] if r), '')
    if isinstance(a, list) and path.endswith('/types') and isinstance(b, list):
        if len(a) != len(b):
            return f'{len(b)} types in place of {len(a)}'
        for t, u in zip(a, b):
            w = f'type {show_(t[0])}'
            if not isinstance(u, (list, tuple)) or len(t) != len(u):
                return f'{w} has other columns'
            if list(t[:3]) != list(u[:3]):
                return f'{w} becomes {u[:3]!r}'
            if len(t) > 3:
                r = desc(t[3], u[3])
                if r:
                    return f'{w}: {r}'
            if len(t) > 4:
                if len(t[4]) != len(u[4]):
                    return f'{w} has {len(u[4])} fields in place of {len(t[4])}'
                for f, g in zip(t[4], u[4]):
                    if list(f[:-1]) != list(g[:-1]) or len(f) != len(g):
                        return f'{w}: field {f!r} becomes {g!r}'
                    r = desc(f[-1], g[-1])
                    if r:
                        return f'{w}: {r}'
        return ''
    return '' if a == b else f'{path}: {b!r} in place of {a!r}'


class Undecided(Exception):
    pass


def plain(x):
    """family literal -> comparable form"""
    return norm(x) if is_term(x) else {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else \
        [plain(e) for e in x] if isinstance(x, list) else x


def described():
    """descriptions of every kind everywhere"""
    long = 'a description of the type'
    return {'info': {'package': 'http://x', 'description': long, 'comments': [long]}, 'types': [
        T('S', 'String', ['{1'], D('D1')), T('I', 'Integer', [], long), T('E', 'Enumerated', ['='], D('D2'), [[1, 'a', D('D3')], [2, long, long]]),
        T('R', 'Record', [], D('D4'), [F(1, 'a', 'S', ['[0'], D('D5')), F(2, 'longname', 'Integer', ['{1'], long)]),
        T('C', 'Choice', [], '', [F(1, 'a', 'S', [], D('D6')), F(2, 'b', 'S', [], '')]),
        T('A', 'Array', [], long, [F(1, 'a', 'S', [], D('D7'))]), T('M', 'Map', ['='], D('D8'), [F(7, 'a', 'S', [], 'xy')]),
        T('L', 'ArrayOf', ['*S'], 'xyz'), T('K', 'MapOf', ['+S', '*S'], D('D9')), T('B', 'Binary', [], 'abcdefg'), T('N', 'Number', [], 'a'),
        T('O', 'Boolean', [], 'ab')]}


def zero():
    """ids and bounds of zero, and negative ids"""
    return {'types': [T('R', 'Record', [], '', [F(0, 'z', 'String', ['{1'], D('D1')), F(-1, 'n', 'S', ['[0'], 'text')]),
                      T('M', 'Map', ['='], '', [F(0, 'z', 'Integer', ['}0'], D('D2'))]), T('S', 'String', ['}0'], ''),
                      T('E', 'Enumerated', ['='], '', [[0, 'zero', D('D3')], [-5, 'five', 'text']]),
                      T('C', 'Choice', [], '', [F(0, '0', 'S', [], D('D4'))])]}


def many():
    """types with many fields and items"""
    return {'info': {'package': 'x'}, 'types': [
        T('E', 'Enumerated', [], 'text', [[n, f'i{n}', 'text'] for n in range(1, 261)]),
        T('R', 'Record', [], 'text', [F(n, f'f{n}', 'S', ['[0'] if n % 2 else [']0', '[2'], 'text') for n in range(1, 131)])] +
        [T(f'S{n}', 'String', ['}9', '{1'], 'text') for n in range(80)]}


FAMS = {'zero': zero, 'many': many, **FAMILIES, 'described': described, 'short': short}


def strip_cases(su):
    widths = [('none', None, lambda sc: None), ('0', C(0), lambda sc: None)] + \
        [(str(n), C(n), lambda sc: None) for n in (1, 2, 3, 7, 25)] + \
        [('wide', W, lambda sc: sc.lt(C(2), W))]
    for fam, mk in FAMS.items():
        for wn, w, fact in widths:
            orig = plain(mk())

            def go(sc, mk=mk, w=w, fact=fact):
                fact(sc)
                return sc.call(TR, 'strip_comments', [sc.py(mk())] + ([w] if w is not None else []))

            def result(o, orig=orig, w=w):
                und = []

                def desc(d, r):
                    x = shortened(su.I, d, r, w if w is not None else C(0), o.st)
                    if x is None:
                        und.append(d)
                    return x
                v = concrete(o.val, o.st)
                bad = same_but(orig, v, '', desc)
                if not bad and und:
                    o.st.lose(f'descriptions {und[:3]}')
                if bad and not known(v):
                    o.st.lose('result')
                    return ''
                return bad
            su.fcase(f'strip.{fam}.{wn}', f'strip_comments of the {fam} schema to width {wn}', go, 'accept', result)


# options in which equivalent writings differ: base type, options, (default ones to add)
OPTS = {
    'String': [['{1', '}9', '/email'], ['/ipv4', '%^x$'], ['}9']], 'Binary': [['/x', '{2', '}4']],
    'Integer': [['{0', '}7'], ['{-3', '}9', '/i8']], 'Number': [['y1', 'z2.5'], ['y0.25', '/f32'], ['z7']],
    'ArrayOf': [['*S', '{1', '}3', 'q'], ['*S', 's'], ['*S', 'b', '}2']], 'MapOf': [['+S', '*S', '{1', 'o'], ['*S', '+S']],
    'Enumerated': [['=', '#R'], ['>R', 'X'], ['=', 'X']], 'Choice': [['=', 'CO'], ['CA', 'X']], 'Map': [['=', '{1', '}3', 'X', 'o']],
    'Record': [['X', '{1', '}4', 'o']], 'Array': [['/ipv4-net', '}2'], ['X', '{1']], 'Boolean': [[]],
}
FOPTS_ = [['[0'], ['[0', ']0'], [']3'], ['[2', ']5'], ['&1', '[0'], ['<'], ['K'], ['L', '[0'], []]
POOLS = {
    'Integer': [['{0', '{1', '{-3'], ['}0', '}1', '}9'], ['/i8', '/u16']], 'Number': [['y0', 'y1.5', 'y-2'], ['z0.0', 'z2.5', 'z9'], ['/f32']],
    'String': [['{1', '{2'], ['}1', '}9'], ['/email'], ['%^x$']], 'Binary': [['{1'], ['}1', '}9'], ['/x', '/eui']],
    'ArrayOf': [['*S'], ['{1', '{2'], ['}1', '}3'], ['q', 's', 'b']], 'MapOf': [['+S'], ['*S'], ['{1', '{2'], ['}1', '}3'], ['o']],
    'Map': [['='], ['{1'], ['}1', '}3'], ['X'], ['o']], 'Record': [['{1'], ['}1', '}3'], ['X'], ['o']], 'Array': [['{1'], ['}1', '}3'], ['/ipv4-net'], ['X']]}


def pool_sets(base):
    """every set of options of a base type, each option with each of its values"""
    need = {'ArrayOf': 1, 'MapOf': 2}.get(base, 0)
    p = POOLS[base]
    for c in itertools.product(*[x if i < need else [None] + x for i, x in enumerate(p)]):
        yield [x for x in c if x is not None]


OPENO = {'String': [opt_str('{', S('N', 'int')), opt_str('}', S('M', 'int')), opt_str('/', S('Fm', 'str'))],
         'Integer': [opt_str('{', S('N', 'int')), opt_str('}', S('M', 'int'))],
         'ArrayOf': ['*S', opt_str('{', S('N', 'int')), 'q']}


def variants(lst, k=6):
    """orders of a list"""
    ps = list(itertools.permutations(lst))
    return ps if len(ps) <= k else ps[::max(1, len(ps) // k)]


def canon_cases(su):
    def typ(base, o, where_):
        fields = [[1, 'x', D('D2')]] if base == 'Enumerated' and not any(isinstance(x, str) and x[0] in '#>' for x in o) else \
            [F(1, 'x', 'S', [], D('D2'))] if base in FIELDED else []
        s = [T('S', 'String'), T('R', 'Record', [], D('D3'), [F(1, 'p', 'S', [], '')])]
        if where_ == 'type':
            return [T('T', base, o, D('D1'), fields)] + s
        return [T('T', 'Record', [], D('D1'), [F(1, 'x', base, o, D('D2'))])] + s
    todo = []
    for base, sets in OPTS.items():
        sets = sets + ([OPENO[base]] if base in OPENO else [])
        for k, o in enumerate(sets):
            defaults = ['{0'] if base not in ('Integer', 'Boolean', 'Number', 'Enumerated', 'Choice') and not any(text(x)[0] == '{' for x in o) else []
            writings = [list(v) for v in variants(o)] + [list(v) for d in defaults for v in variants(o + [d], 3)]
            todo.append((f'type.{base}.{k}', f'{base} type with options {[show_(x) for x in o]}', [typ(base, w, 'type') for w in writings]))
            if base not in FIELDED:
                for j, f in enumerate(FOPTS_):
                    ws = [f + o, o + f, (o + f)[::-1]] + [d + f + o for d in ([['[1']] if not any(x[0] == '[' for x in f) else [])] + \
                        [o + f + d for d in ([[']1']] if not any(x[0] == ']' for x in f) else [])] + [defaults + o[::-1] + f]
                    todo.append((f'field.{base}.{k}.{j}', f'{base} field with options {[show_(x) for x in f + o]}', [typ(base, w, 'field') for w in ws]))
    for base in POOLS:
        for k, o in enumerate(pool_sets(base)):
            d = [['{0']] if base not in ('Integer', 'Number') and not any(x[0] == '{' for x in o) else []
            ws = [o, o[::-1]] + [x + o for x in d]
            todo.append((f'set.{base}.{k}', f'{base} type with options {o}', [typ(base, w, 'type') for w in ws]))
            if base not in FIELDED and k % 3 == 0:
                todo.append((f'set.field.{base}.{k}', f'{base} field with options {o}', [typ(base, w, 'field') for w in ([']3', '[0'] + o, o + ['[0', ']3'])]))
    # numbers written in different ways
    for k, ws in enumerate((['y2', 'y2.0', 'y2.000'], ['z1e5', 'z100000.0'], ['y-3', 'y-3.0'], ['z1e-7', 'z0.0000001'])):
        for where_ in ('type', 'field'):
            todo.append((f'number.{k}.{where_}', f'Number bound written {" or ".join(ws)}', [typ('Number', [w], where_) for w in ws]))
    for key, what, forms in todo:
        def go(sc, forms=forms):
            args = [sc.py({'info': {'package': 'http://x', 'title': D('Ti')}, 'types': f}) for f in forms]
            sc.lt(S('N', 'int'), ONE, False)
            sc.lt(S('M', 'int'), S('N', 'int'), False)
            res = sc.call(UT, 'canonicalize', args[:1])
            out = []
            for o in res:
                o.others = []
                for n, a in enumerate(args[1:], 1):
                    if o.exc is None:
                        o.others.append((n, sc.call(UT, 'canonicalize', [a], st=o.st.fork())))
                if o.exc is None:
                    o.others.append((0, sc.call(UT, 'canonicalize', [o.val], st=o.st.fork())))
                out.append(o)
            return out

        def result(o, forms=forms):
            v = concrete(o.val, o.st)
            if not known(v):
                o.st.lose('result')
                return ''
            bad = kept(forms[0], v['types'])
            if bad:
                return bad
            for n, outs in o.others:
                for p in outs:
                    if p.lost:
                        continue
                    how = f'for {forms[n][0][2:] if n else "the canonical form"}'
                    if p.exc is not None:
                        return f'raises {p.exc[1]} {how}'
                    w = concrete(p.val, p.st)
                    if known(w) and w != v:
                        return f'{w["types"][0]!r} {how}, {v["types"][0]!r} for {forms[0][0][2:]}'
            return ''
        su.fcase(f'canon.{key}', f'canonical form of a {what}', go, 'accept', result)
    for fam, mk in FAMS.items():
        if fam == 'short':
            continue

        def go(sc, mk=mk):
            sc.lt(S('N', 'int'), ONE, False)
            sc.lt(S('M', 'int'), ONE, False)
            outs = sc.call(UT, 'canonicalize', [sc.py(mk())])
            for o in outs:
                o.others = [] if o.exc else [(0, sc.call(UT, 'canonicalize', [o.val], st=o.st.fork()))]
            return outs

        def result(o, mk=mk):
            v = concrete(o.val, o.st)
            m = plain(mk())
            if not known(v):
                o.st.lose('result')
                return ''
            if list(v) != list(m) or {k: x for k, x in v.items() if k != 'types'} != {k: x for k, x in m.items() if k != 'types'}:
                return 'information changed'
            bad = kept(m['types'], v['types'])
            if bad:
                return bad
            for n, outs in o.others:
                for p in outs:
                    w = concrete(p.val, p.st) if p.exc is None else None
                    if not p.lost and p.exc is not None:
                        return f'the canonical form raises {p.exc[1]}'
                    if not p.lost and known(w) and w != v:
                        return 'the canonical form of the canonical form is another'
            return ''
        su.fcase(f'canon.family.{fam}', f'canonical form of the {fam} schema', go, 'accept', result)


def significant(opts, base):
    """options without those that say what holds anyway"""
    out = {}
    for o in opts:
        c, r = text(o)
        if c in out:
            return None
        x = number(c, r)
        if (c == '{' and x == 0 and base != 'Integer') or (c in '[]' and x == 1):
            continue
        out[c] = x
    return out


def kept(orig, got):
    """options keep their meaning and nothing else changes"""
    if len(orig) != len(got):
        return f'{len(got)} types in place of {len(orig)}'
    for t, u in zip(plain(orig), got):
        if list(t[:2]) + [t[3]] != list(u[:2]) + [u[3]]:
            return f'type {show_(t[0])} becomes {u!r}'
        if significant(t[2], t[1]) != significant(u[2], t[1]):
            return f'the options of {show_(t[0])}, {t[2]!r}, become {u[2]!r}'
        if len(t[4]) != len(u[4]):
            return f'{show_(t[0])} has {len(u[4])} fields'
        for f, g in zip(t[4], u[4]):
            if t[1] == 'Enumerated':
                if list(f) != list(g):
                    return f'item {f!r} becomes {g!r}'
            elif list(f[:3]) + [f[4]] != list(g[:3]) + [g[4]] or significant(f[3], f[2]) != significant(g[3], f[2]):
                return f'field {f!r} becomes {g!r}'
    return ''


def form_cases(su):
    for fam, mk in FAMS.items():
        def go(sc, mk=mk):
            outs = []
            for o in sc.call(UT, 'object_type_schema', [sc.py(mk())]):
                if o.exc is not None:
                    outs.append(o)
                else:
                    outs += sc.call(UT, 'list_type_schema', [o.val], st=o.st)
            return outs

        def result(o, mk=mk):
            v = concrete(o.val, o.st)
            if not known(v):
                o.st.lose('result')
                return ''
            m = plain(mk())
            m['types'] = [t + [[]] * (5 - len(t)) for t in m['types']]
            return '' if v == m else f'the schema becomes {next((b for a, b in zip(m["types"], v["types"]) if a != b), v)!r}'
        su.fcase(f'forms.{fam}', f'object form of the {fam} schema and back', go, 'accept', result)


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    strip_cases(su)
    canon_cases(su)
    form_cases(su)
