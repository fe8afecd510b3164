"""Container scenarios shared by C03 (shape) and C04 (contents)."""
from suite import *     # noqa

DICTLIKE, LISTLIKE = 'dict', 'list'
MODES = [(True, True), (False, False), (True, False), (False, True)]


def res(d, typ, val):
    return ('app', '!' + d, (typ, val), 'any')


class Fields:
    """declared fields P... F Q...: P are present in the value, F is the focus, Q are optional and absent"""

    def __init__(self, sc, many, focus_opts=(), q_opts=('[0',), p_opts=(), with_q=True):
        self.sc, self.many = sc, many
        self.pn, self.fn, self.qn = S('Pname', 'str'), S('Fname', 'str'), S('Qname', 'str')
        self.pt, self.ft, self.qt = S('Ptype', 'str'), S('Ftype', 'str'), S('Qtype', 'str')
        sc.distinct(self.pn, self.fn, self.qn)
        sc.distinct(self.pt, self.ft, self.qt)
        if many:
            self.n1, self.n2 = S('#N1', 'int'), S('#N2', 'int')
            self.fid = lin_add(self.n1, ONE)
            self.pid, self.qid = S('Pid', 'int'), S('Qid', 'int')
            sc.lt(C(0), self.pid)
            sc.lt(self.n1, self.pid, False)
            sc.lt(lin_add(self.n1, ONE), self.qid)
            sc.lt(lin_add(lin_add(self.n1, ONE), self.n2), self.qid, False)
            # P-fields exist when the loop visits one; the counts themselves stay symbolic
        else:
            self.n1, self.n2 = ONE, ONE
            self.pid, self.fid, self.qid = C(1), C(2), C(3)
        sc.distinct(self.pid, self.fid, self.qid)
        if not with_q:
            self.n2 = C(0)
        self.list = [sc.many(sc.field(self.pid, self.pn, self.pt, [C(o) for o in p_opts]), self.n1),
                     sc.field(self.fid, self.fn, self.ft, [o if isinstance(o, tuple) else C(o) for o in focus_opts])]
        if with_q:
            self.list.append(sc.many(sc.field(self.qid, self.qn, self.qt, [C(o) for o in q_opts]), self.n2))
        self.vp, self.vf, self.vq = S('VP'), S('VF'), S('VQ')
        for v in (self.vp, self.vf, self.vq):
            sc.truth['none', v] = False
            # values are of some kind that is neither list nor dict nor text: opaque

    def api(self, which):
        return {'P': self.pn, 'F': self.fn, 'Q': self.qn}[which]

    def ser(self, which, verbose, textkeys=False):
        if verbose:
            return self.api(which)
        k = {'P': self.pid, 'F': self.fid, 'Q': self.qid}[which]
        if textkeys:
            return C(str(k[2])) if k[0] == 'c' else ('app', 'str', (k,), 'str')
        return k


def with_config(sc, schema):
    """the schema with the configuration item the scenario asks for"""
    m = getattr(sc, 'max_elements', None)
    if m is None:
        return schema
    info = sc.dct((C('package'), S('PKG', 'str')), (C('config'), sc.dct((C('$MaxElements'), m))))
    ents = sc.st.heap[schema[1]][1]
    return sc.dct((C('info'), info), *[e[:2] for e in ents])


def nested_result_not_none(sc):
    old = sc.oracle

    def oracle(atom, st, I):
        if atom[0] == 'none' and atom[1][0] == 'app' and atom[1][1] in ('!encode', '!decode'):
            return False
        return old(atom, st, I)
    sc.oracle = oracle


def zero(n, o):
    return n == C(0) or (n[0] != 'c' and interp().prove_lt0(lin_add(n, ONE, -1), o.st) is True)


def map_entries(o):
    v = o.val
    if v is None or v[0] != 'ref' or o.st.heap[v[1]][0] != 'dict':
        return None
    return o.st.heap[v[1]][1]


def list_entries(o):
    v = o.val
    if v is None or v[0] != 'ref' or o.st.heap[v[1]][0] != 'list':
        return None
    return o.st.heap[v[1]][1]


def expect_map(*want):
    """the returned mapping has exactly these (key, value, count) entries, in any order"""
    def f(o):
        e = map_entries(o)
        if e is None:
            return f'returns {show(o.val, o.st)} instead of a mapping'
        got = [x for x in e if not zero(x[2], o)]
        w = [x for x in want if not zero(x[2], o)]
        for k, v, n in w:
            if (k, v, n) not in got:
                near = [x for x in got if x[0] == k]
                if near:
                    return f'field {show(k, o.st)} becomes {show(near[0][1], o.st)} instead of {show(v, o.st)}'
                return f'field {show(k, o.st)} is missing from the result'
        for x in got:
            if x not in w:
                return f'unexpected entry {show(x[0], o.st)} in the result'
        return None
    return f


def expect_list(*want):
    def f(o):
        e = list_entries(o)
        if e is None:
            return f'returns {show(o.val, o.st)} instead of a list'
        got = tuple((v, n) for v, n in e if not zero(n, o))
        w = tuple((v, n) for v, n in want if not zero(n, o))
        if got != w:
            return f'returns {show(o.val, o.st)} instead of [{", ".join(show(v, o.st) for v, n in w)}]'
        return None
    return f


def fails(typ, exc='ValueError'):
    def nested(d, t, v, st):
        return exc if t == typ else 'ok'
    return nested


def is_dictlike(base, d, vr):
    if base == 'Map':
        return True
    if base == 'Record':
        return d == 'encode' or vr
    return False


def struct_cases(su, shape=True, contents=True, idopt=True):
    """Record, Map and Array with declared fields"""
    variants = [('Map', m, ()) for m in MODES] + [('Record', m, ()) for m in MODES] + \
               [('Array', MODES[0], ()), ('Array', MODES[1], ())]
    if idopt:
        variants += [('Map', m, ('=',)) for m in MODES]
    for base, (vr, vs), topts in variants:
        verbose = vs and '=' not in topts
        opts = [C(o) for o in topts]
        lab0 = f"{base}{'.id' if topts else ''}"
        for d in ('encode', 'decode'):
            dl = is_dictlike(base, d, vr)
            out_dl = is_dictlike(base, 'decode' if d == 'encode' else 'encode', vr) if base != 'Array' else False
            for many in (False, True):
                mode = dict(verbose_rec=vr, verbose_str=vs)
                tag = f"{lab0}.{d}.{'rec' if vr else 'arr'}-{'str' if vs else 'id'}.{'any' if many else '3'}"
                how = f"{d} of a {lab0} ({'verbose' if vr else 'concise'} records, {'names' if vs else 'ids'})"

                def inkey(fs, w):
                    return fs.api(w) if d == 'encode' else fs.ser(w, verbose)

                def outkey(fs, w):
                    return fs.api(w) if d == 'decode' else fs.ser(w, verbose)

                def value(sc, fs, f='present', extra=None, pn=None):
                    if dl:
                        ent = [(inkey(fs, 'P'), fs.vp, fs.n1)]
                        if f == 'present':
                            ent.append((inkey(fs, 'F'), fs.vf))
                        elif f == 'none':
                            ent.append((inkey(fs, 'F'), NONE))
                        if extra is not None:
                            ent.append((extra, S('VX')))
                        return sc.dct(*ent)
                    ent = [sc.many(fs.vp, fs.n1)]
                    if f == 'present':
                        ent.append(fs.vf)
                    elif f == 'none':
                        ent.append(NONE)
                    if extra is not None:
                        ent.append(extra)
                    return sc.lst(*ent)

                def mk(sc_setup, **fk):
                    def build(sc):
                        nested_result_not_none(sc)
                        fs = Fields(sc, many, **fk)
                        sc.lt(fs.n1, C(90), True) if many else None
                        v = sc_setup(sc, fs)
                        o = opts + list(getattr(sc, 'topts', ()))
                        return with_config(sc, sc.schema(base, o, fs.list)), v
                    return build
                if shape:
                    su.case(tag + '.missing', f'{how} lacking a required field', d,
                            mk(lambda sc, fs: value(sc, fs, 'absent')), 'reject', **mode)
                    if d == 'decode' or base == 'Array':
                        su.case(tag + '.null', f'{how} with null in a required field', d,
                                mk(lambda sc, fs: value(sc, fs, 'none')), 'reject', **mode)

                    def unknown(sc, fs):
                        if dl:
                            k = S('X', 'str' if d == 'encode' or verbose else 'int')
                            sc.distinct(k, fs.pn, fs.fn, fs.qn)
                            sc.distinct(k, fs.pid, fs.fid, fs.qid)
                            return value(sc, fs, extra=k)
                        x = S('VX', 'int')
                        return sc.lst(sc.many(fs.vp, fs.n1), fs.vf, sc.many(fs.vq, fs.n2), x)
                    su.case(tag + '.unknown', f'{how} with an undeclared field', d, mk(unknown), 'reject', **mode)
                    if not dl and d == 'decode' and base == 'Record' or base == 'Array':
                        su.case(tag + '.unknown-null', f'{how} with an undeclared trailing null', d,
                                mk(lambda sc, fs: sc.lst(sc.many(fs.vp, fs.n1), fs.vf, sc.many(fs.vq, fs.n2), NONE)),
                                'reject', **mode)
                    su.case(tag + '.optional-absent', f'{how} lacking an optional field', d,
                            mk(lambda sc, fs: value(sc, fs, 'absent'), focus_opts=('[0',)), 'accept', **mode)
                    # number of fields against the declared bounds
                    LO, HI = S('LO', 'int'), S('HI', 'int')

                    def bound(kind):
                        def f(sc, fs):
                            cnt = lin_add(fs.n1, ONE)
                            sc.lt(LO, C(0), False)
                            sc.lt(C(0), HI)
                            if kind == 'low':
                                sc.topts = [opt_str('{', LO)]
                                sc.lt(cnt, LO)
                                sc.lt(C(100), LO, False)
                            elif kind == 'high':
                                sc.topts = [opt_str('}', HI)]
                                sc.lt(HI, cnt)
                            elif kind == 'default':
                                sc.fact(sc.I.a_lt(C(100), cnt))
                            elif kind in ('cfg-high', 'cfg-ok'):
                                sc.lt(HI, cnt, kind == 'cfg-high')
                                sc.max_elements = HI
                            else:
                                sc.topts = [opt_str('{', LO), opt_str('}', HI)]
                                sc.lt(cnt, LO, False)
                                sc.lt(HI, cnt, False)
                            return value(sc, fs)
                        return f
                    su.case(tag + '.toofew', f'{how} with fewer values than its minimum', d, mk(bound('low')), 'reject',
                            **mode)
                    su.case(tag + '.toomany', f'{how} with more values than its maximum', d, mk(bound('high')),
                            'reject', **mode)
                    su.case(tag + '.count-ok', f'{how} within its size bounds', d, mk(bound('ok')), 'accept', **mode)
                    if not many:
                        def nothing(sc, fs):
                            return sc.dct() if dl else sc.lst()
                        free = dict(focus_opts=('[0',), p_opts=('[0',))
                        su.case(tag + '.empty', f'{how} without values, with a minimum of one', d,
                                mk(lambda sc, fs: (setattr(sc, 'topts', [C('{1')]), nothing(sc, fs))[1], **free), 'reject',
                                **mode)
                        su.case(tag + '.empty-ok', f'{how} without values, all fields optional', d, mk(nothing, **free),
                                'accept', **mode)
                    su.case(tag + '.toomany-config', f'{how} with more values than the configured $MaxElements', d,
                            mk(bound('cfg-high')), 'reject', **mode)
                    su.case(tag + '.config-ok', f'{how} with at most the configured $MaxElements values', d,
                            mk(bound('cfg-ok')), 'accept', **mode)
                    if not many:
                        for k in ('int', 'str', 'bool', 'NoneType', 'list', 'dict', 'float'):
                            if k == ('dict' if dl else 'list'):
                                continue
                            su.case(f'{tag}.kind.{k}', f'{how} given a value of kind {k}', d,
                                    mk(lambda sc, fs, k=k: NONE if k == 'NoneType' else sc.dct((S('K', 'str'), S('VX')))
                                       if k == 'dict' else sc.lst(S('VX')) if k == 'list' else S('VK', k)), 'reject',
                                    **mode)
                if contents:
                    def want(fs, f=True):
                        rp, rf = res(d, fs.pt, fs.vp), res(d, fs.ft, fs.vf)
                        if out_dl:
                            return expect_map((outkey(fs, 'P'), rp, fs.n1), *([(outkey(fs, 'F'), rf, ONE)] if f else []))
                        return expect_list((rp, fs.n1), *([(rf, ONE)] if f else []))
                    hold = {}

                    def good(sc, fs, f='present'):
                        hold['w'] = want(fs, f == 'present')
                        return value(sc, fs, f)
                    su.case(tag + '.values', f'{how}: result holds the value of every field', d,
                            mk(good), 'accept', result=lambda o: hold['w'](o), **mode)
                    su.case(tag + '.values-optional', f'{how}: result omits only the absent optional field', d,
                            mk(lambda sc, fs: good(sc, fs, 'absent'), focus_opts=('[0',)), 'accept',
                            result=lambda o: hold['w'](o), **mode)
                    def gap(sc, fs):
                        rp, rq = res(d, fs.pt, fs.vp), res(d, fs.qt, fs.vq)
                        if out_dl:
                            hold['w'] = expect_map((outkey(fs, 'P'), rp, fs.n1), (outkey(fs, 'Q'), rq, fs.n2))
                        else:
                            hold['w'] = expect_list((rp, fs.n1), (NONE, ONE), (rq, fs.n2))
                        if many:
                            sc.lt(fs.n2, C(5))
                            sc.lt(C(0), fs.n2)
                        if dl:
                            return sc.dct((inkey(fs, 'P'), fs.vp, fs.n1), (inkey(fs, 'Q'), fs.vq, fs.n2))
                        return sc.lst(sc.many(fs.vp, fs.n1), NONE, sc.many(fs.vq, fs.n2))
                    su.case(tag + '.values-gap', f'{how}: an absent optional field in the middle keeps the others in place',
                            d, mk(gap, focus_opts=('[0',), q_opts=()), 'accept', result=lambda o: hold['w'](o), **mode)
                    for exc in ('ValueError', 'TypeError'):
                        def nfail(sc, fs, exc=exc):
                            sc.nested = fails(fs.ft, exc)
                            return value(sc, fs)
                        su.case(f'{tag}.invalid-field.{exc}', f'{how} with an invalid value in a field', d, mk(nfail),
                                'reject', **mode)
                        su.case(f'{tag}.invalid-optional.{exc}', f'{how} with an invalid value in an optional field', d,
                                mk(nfail, focus_opts=('[0',)), 'reject', **mode)
                    if dl and d == 'decode' and not verbose:
                        def textkeys(sc, fs):
                            hold['w'] = want(fs)
                            return sc.dct((fs.ser('P', False, True), fs.vp, fs.n1), (fs.ser('F', False, True), fs.vf))
                        su.case(tag + '.textkeys', f'{how}: ids given as text keys', d, mk(textkeys), 'accept',
                                result=lambda o: hold['w'](o), **mode)


def of_cases(su, shape=True, contents=True):
    KT, VT = C('KeyT'), S('VT', 'str')
    for d in ('encode', 'decode'):
        for base in ('ArrayOf', 'MapOf'):
            how = f'{d} of a {base}'
            tag = f'{base}.{d}'
            N = S('#N', 'int')
            E, K = S('E'), S('K', 'str')
            LO, HI = S('LO', 'int'), S('HI', 'int')
            tops = [('cat', (C('*'), VT))] + ([C('+KeyT')] if base == 'MapOf' else [])

            def prep(sc):
                nested_result_not_none(sc)
                sc.lt(C(0), ('app', 'len', (VT,), 'int'))
                sc.eq(('app', 'charat', (VT, C(0)), 'str'), C('$'), False)
                for t in ('KeyT', 'T'):
                    sc.eq(VT, C(t), False)

            def coll(sc, base=base):
                return sc.lst(sc.many(E, N)) if base == 'ArrayOf' else sc.dct((K, E, N))

            def mk(f, extra=lambda: (), base=base, tops=tops, kt='String'):
                def build(sc):
                    prep(sc)
                    v = f(sc)
                    keys = [sc.lst(KT, C(kt), sc.lst(), C(''), sc.lst())] if base == 'MapOf' else []
                    return with_config(sc, sc.schema(base, tops + list(extra()), extra_types=keys)), v
                return build
            if shape:
                for k in ('int', 'str', 'bool', 'NoneType', 'list', 'dict', 'float'):
                    if k == ('list' if base == 'ArrayOf' else 'dict'):
                        continue
                    su.case(f'{tag}.kind.{k}', f'{how} given a value of kind {k}', d,
                            mk(lambda sc, k=k: NONE if k == 'NoneType' else sc.dct((S('K', 'str'), S('VX')))
                               if k == 'dict' else sc.lst(S('VX')) if k == 'list' else S('VK', k)), 'reject')

                def bnd(kind, coll=coll):
                    def f(sc):
                        sc.lt(LO, C(0), False)
                        sc.lt(C(0), HI)
                        if kind == 'low':
                            sc.lt(N, LO)
                            sc.lt(C(100), LO, False)
                        elif kind == 'high':
                            sc.lt(HI, N)
                        elif kind == 'default':
                            sc.lt(C(100), N)
                        elif kind in ('cfg-high', 'cfg-ok'):
                            sc.lt(HI, N, kind == 'cfg-high')
                            sc.max_elements = HI
                        else:
                            sc.lt(N, LO, False)
                            sc.lt(HI, N, False)
                        return coll(sc)
                    return f
                lo, hi = (lambda: [opt_str('{', LO)]), (lambda: [opt_str('}', HI)])
                both = lambda: [opt_str('{', LO), opt_str('}', HI)]
                su.case(tag + '.toofew', f'{how} with fewer elements than its minimum', d, mk(bnd('low'), lo), 'reject')
                su.case(tag + '.toomany', f'{how} with more elements than its maximum', d, mk(bnd('high'), hi), 'reject')
                su.case(tag + '.toofew2', f'{how} with fewer elements than its minimum (both bounds)', d,
                        mk(lambda sc: (sc.lt(HI, LO, False), bnd('low')(sc))[1], both), 'reject')
                su.case(tag + '.toomany2', f'{how} with more elements than its maximum (both bounds)', d,
                        mk(lambda sc: (sc.lt(HI, LO, False), bnd('high')(sc))[1], both), 'reject')
                su.case(tag + '.default', f'{how} with more elements than the default maximum', d, mk(bnd('default')),
                        'reject')
                su.case(tag + '.count-ok', f'{how} within its size bounds', d, mk(bnd('ok'), both), 'accept')
                su.case(tag + '.empty', f'{how} without elements, with a minimum of one', d,
                        mk(lambda sc, base=base: sc.lst() if base == 'ArrayOf' else sc.dct(), lambda: [C('{1')]), 'reject')
                su.case(tag + '.empty-ok', f'{how} without elements, without a minimum', d,
                        mk(lambda sc, base=base: sc.lst() if base == 'ArrayOf' else sc.dct()), 'accept')
                su.case(tag + '.toomany-config', f'{how} with more elements than the configured $MaxElements', d,
                        mk(bnd('cfg-high')), 'reject')
                su.case(tag + '.config-ok', f'{how} with at most the configured $MaxElements elements', d,
                        mk(bnd('cfg-ok')), 'accept')
                if base == 'ArrayOf':
                    for o, on in (('q', 'unique'), ('s', 'set')):
                        for kind in ('int', 'str', 'bytes', 'float'):
                            def dup(sc, kind=kind):
                                sc.lt(N, C(80))
                                e, x = S('E', kind), S('D', kind)
                                return sc.lst(x, sc.many(e, N), x)
                            su.case(f'{tag}.duplicate.{on}.{kind}', f'{how} marked {on} holding equal {kind} elements',
                                    d, mk(dup, lambda o=o: [C(o)]), 'reject')

                            def uniq(sc, kind=kind):
                                a, b, c = S('A', kind), S('B', kind), S('Cc', kind)
                                sc.distinct(a, b, c)
                                return sc.lst(a, b, c)
                            su.case(f'{tag}.distinct.{on}.{kind}', f'{how} marked {on} holding distinct {kind} elements',
                                    d, mk(uniq, lambda o=o: [C(o)]), 'accept')
                        shapes = {
                            'map-values': (lambda sc, a, b: sc.dct((C('x'), a)), lambda sc, a, b: sc.dct((C('x'), b))),
                            'lists': (lambda sc, a, b: sc.lst(a), lambda sc, a, b: sc.lst(b)),
                            'list-order': (lambda sc, a, b: sc.lst(a, b), lambda sc, a, b: sc.lst(b, a)),
                            'maps-of-lists': (lambda sc, a, b: sc.dct((C('x'), sc.lst(a))),
                                              lambda sc, a, b: sc.dct((C('x'), sc.lst(b)))),
                            'lists-of-maps': (lambda sc, a, b: sc.lst(sc.dct((C('x'), a))),
                                              lambda sc, a, b: sc.lst(sc.dct((C('x'), b)))),
                            'lists-of-lists': (lambda sc, a, b: sc.lst(sc.lst(a)), lambda sc, a, b: sc.lst(sc.lst(b))),
                            'maps-of-maps': (lambda sc, a, b: sc.dct((C('x'), sc.dct((C('y'), a))), (C('z'), TRUE)),
                                             lambda sc, a, b: sc.dct((C('x'), sc.dct((C('y'), b))), (C('z'), TRUE))),
                        }
                        for nm, (f, g) in shapes.items():
                            def nest(sc, f=f, g=g, same=False):
                                a, b = S('A', 'str'), S('B', 'str')
                                sc.distinct(a, b)
                                return sc.lst(f(sc, a, b), f(sc, a, b) if same else g(sc, a, b))
                            su.case(f'{tag}.distinct.{on}.{nm}', f'{how} marked {on} holding distinct elements ({nm})',
                                    d, mk(nest, lambda o=o: [C(o)]), 'accept')
                            su.case(f'{tag}.duplicate.{on}.{nm}', f'{how} marked {on} holding equal elements ({nm})',
                                    d, mk(lambda sc, nest=nest: nest(sc, same=True), lambda o=o: [C(o)]), 'reject')
                    # without the options, duplicates are fine

                    def dup0(sc):
                        x = S('D', 'int')
                        return sc.lst(x, x)
                    su.case(f'{tag}.duplicate.plain', f'{how} not marked unique holding equal elements', d, mk(dup0),
                            'accept')
            if contents:
                def good(sc):
                    sc.lt(N, C(100))
                    return coll(sc)
                if base == 'ArrayOf':
                    w = expect_list((res(d, VT, E), N))
                else:
                    w = expect_map((res(d, KT, K), res(d, VT, E), N))
                su.case(tag + '.values', f'{how}: every {"key and value" if base == "MapOf" else "element"} is {d}d', d,
                        mk(good), 'accept', result=w)
                if base == 'ArrayOf':
                    for o, on in (('q', 'unique'), ('s', 'set'), ('b', 'unordered')):
                        def three(sc):
                            a, b = S('A', 'int'), S('B', 'int')
                            sc.distinct(a, b)
                            return sc.lst(a, b)
                        su.case(f'{tag}.values.{on}', f'{how} marked {on}: every element is {d}d, in order', d,
                                mk(three, lambda o=o: [C(o)]), 'accept',
                                result=expect_list((res(d, VT, S('A', 'int')), ONE), (res(d, VT, S('B', 'int')), ONE)))
                for which, t in (('element', VT),) + ((('key', KT),) if base == 'MapOf' else ()):
                    for exc in ('ValueError', 'TypeError'):
                        def bad(sc, t=t, which=which, exc=exc, base=base):
                            X = S('BAD', 'str') if which == 'key' else S('BAD')
                            sc.lt(N, C(80))
                            sc.eq(X, E, False)
                            sc.eq(X, K, False)
                            sc.nested = lambda dd, ty, v, st: exc if ty == t and v == X else 'ok'
                            if base == 'ArrayOf':
                                return sc.lst(sc.many(E, N), X, E)
                            if which == 'key':
                                return sc.dct((K, E, N), (X, S('E2')))
                            return sc.dct((K, E, N), (S('K2', 'str'), X))
                        su.case(f'{tag}.invalid-{which}.{exc}', f'{how} with an invalid {which}', d, mk(bad), 'reject')
                if base == 'MapOf':
                    def intkeys(sc):
                        sc.lt(N, C(80))
                        return sc.dct((S('KI', 'int'), E, N))
                    su.case(tag + '.integer-keys', f'{how} with integer keys: every key and value is {d}d', d,
                            mk(intkeys, kt='Integer'), 'accept',
                            result=expect_map((res(d, KT, S('KI', 'int')), res(d, VT, E), N)))
                if base == 'MapOf' and d == 'decode':
                    def textkeys(sc):
                        sc.nested = lambda dd, ty, v, st: 'TypeError' if ty == KT and su.I.kind(v, st) != 'int' else 'ok'
                        return sc.dct((C('7'), E), (C('12'), S('E2')))
                    su.case(tag + '.integer-keys-text', f'{how}: integer keys in their JSON text form are understood', d,
                            mk(textkeys, kt='Integer'), 'accept',
                            result=expect_map((res(d, KT, C(7)), res(d, VT, E), ONE),
                                              (res(d, KT, C(12)), res(d, VT, S('E2')), ONE)))

                    def numkeys(sc):
                        sc.nested = lambda dd, ty, v, st: 'TypeError' if ty == KT and su.I.kind(v, st) not in ('int', 'float') else 'ok'
                        return sc.dct((C('2.5'), E), (C('-1e3'), S('E2')))
                    su.case(tag + '.number-keys-text', f'{how}: number keys in their JSON text form are understood', d,
                            mk(numkeys, kt='Number'), 'accept',
                            result=expect_map((res(d, KT, C(2.5)), res(d, VT, E), ONE),
                                              (res(d, KT, C(-1e3)), res(d, VT, S('E2')), ONE)))

                    def badtext(sc):
                        sc.nested = lambda dd, ty, v, st: 'TypeError' if ty == KT and su.I.kind(v, st) != 'int' else 'ok'
                        return sc.dct((C('seven'), E))
                    su.case(tag + '.integer-keys-bad', f'{how} of integer keys with a key that is no integer', d,
                            mk(badtext, kt='Integer'), 'reject')


def tag_cases(su):
    """a field whose type is selected by the value of another field (tagid option)"""
    CT, KT = C('ChoiceT'), C('KindT')
    VK, VD, RES = S('VK', 'str'), S('VD'), S('RES')
    for base, topts in (('Record', ()), ('Map', ()), ('Map', ('=',)), ('Array', ())):
        for vr, vs in (MODES if base != 'Array' else MODES[:2]):
            verbose = vs and not topts
            for d in ('encode', 'decode'):
                dl = is_dictlike(base, d, vr)
                out_dl = is_dictlike(base, 'decode' if d == 'encode' else 'encode', vr) if base != 'Array' else False
                for pos in (1, 3):
                    tag = f"{base}{'.id' if topts else ''}.{d}.{'rec' if vr else 'arr'}-{'str' if vs else 'id'}.tag{pos}"
                    how = f"{d} of a {base}{' with ids' if topts else ''} whose data field is tagged by field {pos}"
                    names = {1: 'kind', 2: 'data', 3: 'other'} if pos == 1 else {1: 'other', 2: 'data', 3: 'kind'}
                    types = {'kind': KT, 'data': CT, 'other': S('OT', 'str')}
                    vals = {'kind': VK, 'data': VD, 'other': S('VO')}

                    def mk(absent=(), nested_fail=None, topts=topts, base=base, names=names, types=types, vals=vals,
                           dl=dl, d=d, pos=pos, verbose=verbose):
                        def build(sc):
                            nested_result_not_none(sc)
                            for v in vals.values():
                                sc.truth['none', v] = False
                            sc.truth['none', RES] = False
                            sc.distinct(*types.values())

                            def nested(dd, ty, v, st):
                                if ty != CT or nested_fail == 'any':
                                    return 'ok'
                                e = st.heap[v[1]][1] if v[0] == 'ref' and st.heap[v[1]][0] == 'dict' else ()
                                if e != ((VK, VD, ONE),) or nested_fail:
                                    return nested_fail or 'ValueError'
                                return st.alloc(('dict', ((S('RTAG'), RES, ONE),)))
                            sc.nested = nested
                            fl = []
                            for i in (1, 2, 3):
                                o = [C(f'&{pos}'), C('[0')] if names[i] == 'data' else [C('[0')] if names[i] in absent \
                                    else []
                                fl.append(sc.field(C(i), C(names[i]), types[names[i]], o))
                            if dl:
                                ent = [((C(names[i]) if d == 'encode' or verbose else C(i)), vals[names[i]])
                                       for i in (1, 2, 3) if names[i] not in absent]
                                v = sc.dct(*ent)
                            else:
                                seq = [NONE if names[i] in absent else vals[names[i]] for i in (1, 2, 3)]
                                while seq and seq[-1] == NONE:
                                    seq.pop()
                                v = sc.lst(*seq)
                            return sc.schema(base, [C(o) for o in topts], fl), v
                        return build

                    def want(absent=(), names=names, types=types, vals=vals, d=d, out_dl=out_dl, verbose=verbose):
                        r = {n: RES if n == 'data' else res(d, types[n], vals[n]) for n in types}
                        if out_dl:
                            return expect_map(*[((C(names[i]) if d == 'decode' or verbose else C(i)), r[names[i]], ONE)
                                                for i in (1, 2, 3) if names[i] not in absent])
                        seq = [NONE if names[i] in absent else r[names[i]] for i in (1, 2, 3)]
                        while seq and seq[-1] == NONE:
                            seq.pop()
                        return expect_list(*[(x, ONE) for x in seq])
                    mode = dict(verbose_rec=vr, verbose_str=vs)
                    su.case(tag + '.values', f'{how}: data uses the alternative the tag selects', d, mk(), 'accept',
                            result=want(), **mode)
                    su.case(tag + '.untagged', f'{how}: data is optional and absent', d, mk(absent=('data',)), 'accept',
                            result=want(('data',)), **mode)
                    su.case(tag + '.no-tag', f'{how}: data without its tag', d, mk(absent=('kind',)), 'reject', **mode)
                    su.case(tag + '.no-tag-choice', f'{how}: data that is itself a Choice value, without its tag', d,
                            mk(absent=('kind',), nested_fail='any'), 'reject', **mode)
                    for exc in ('ValueError', 'TypeError'):
                        su.case(f'{tag}.invalid.{exc}', f'{how}: data invalid for the tag', d, mk(nested_fail=exc),
                                'reject', **mode)
