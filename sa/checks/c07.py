"""C07: the outcome of a codec call depends on the schema, the mode and the value only."""
import re
import time

from codecops import *      # noqa

LEVEL = 'other'
FLOOR = 40
RULE = ('Effect analysis by abstract interpretation: a codec is built on an abstract schema and every type is encoded and '
        'decoded with open values. After each call, on every path, everything that existed before the call and is not part '
        'of the value is compared with what it was; a result may not give access to it. Where a call does leave a trace '
        '(also in module, class or function state), every call is analysed again from that state, and its outcomes must be '
        'those it has on a fresh codec. set_mode must leave the codec in the state construction in that mode gives, and a '
        'codec shares no mutable object with the schema it was built from.')


def outcome(o):
    return repr((o.exc[1] if o.exc else None, canon(o.val, o.st) if o.val is not None and not o.exc else None))


def outcomes(outs):
    return sorted(outcome(o) for o in outs)


def differs(a, b, outcome=outcome):
    """a path of b whose outcome none of the paths of a that go with it has"""
    for p in b:
        f = p.st.facts
        eq = equalities(f)
        if not any(subst(outcome(q), eq) == subst(outcome(p), eq) for q in a
                   if not any(f.get(k, v) != v for k, v in q.st.facts.items() if lasting(k))):
            return p
        for q in a:
            if subst(outcome(q), eq) != subst(outcome(p), eq) and overlap(f, q.st.facts):
                return p
    return None


def overlap(f, g):
    """g adds to f only bounds on numbers, and some number is within all of them"""
    extra = [(k, v) for k, v in g.items() if k not in f]
    if any(f.get(k, v) != v for k, v in g.items()) or not all(bound(k, v) for k, v in extra):
        return False
    for term in {bound(k, v)[0] for k, v in extra}:
        lo, hi = (0 if term[0] == 'app' and term[1] == 'len' else float('-inf')), float('inf')
        for k, v in list(f.items()) + extra:
            b = bound(k, v)
            if b and b[0] == term:
                lo, hi = max(lo, b[1]), min(hi, b[2])
            elif not b and any(x == (term if term[0] == 's' else term[2][0]) for x in subterms(k)):
                return False
        if lo > hi:
            return False
    return True


def bound(atom, val):
    """(term, least, greatest integer) for a bound on one term"""
    if atom[0] != 'lt0':
        return None
    d, c = lin_parts(atom[1])
    if len(d) != 1:
        return None
    (t, k), = d.items()
    base = t[2][0] if t[0] == 'app' and t[1] == 'len' else t
    if k not in (1, -1) or base[0] != 's' or base[1][0] in '#@':
        return None
    inf = float('inf')
    if val:         # k*t + c < 0
        return (t, -inf, -c - 1) if k == 1 else (t, c + 1, inf)
    return (t, -c, inf) if k == 1 else (t, -inf, c)


def equalities(facts):
    """texts of terms a path takes to be equal -> the text of one of them"""
    rep = {}

    def find(x):
        while rep.get(x, x) != x:
            x = rep[x]
        return x
    for a, v in facts.items():
        if v and a[0] == 'eq':
            x, y = sorted((find(repr(a[1])), find(repr(a[2]))), key=lambda z: (len(z), z))
            if x != y:
                rep[y] = x
    return {x: find(x) for x in sorted(rep, key=len, reverse=True)}


def subst(text, eq):
    for x, y in eq.items():
        text = text.replace(x, y)
    return text


def lasting(atom):
    """a fact about values, not about objects of one run"""
    return not any(x[0] == 'ref' or x[0] == 's' and re.match(r'[#@]i?\d', x[1]) for x in subterms(atom))


def compatible(a, b):
    return differs(a, b) is None


def setup(su, mode):
    sc = FnScenario(su.I, 'codec')
    schema = sc.py(codec_schema())
    built = sc.call('jadn.codec', 'Codec', [schema, C(mode[0]), C(mode[1])])
    ok = [o for o in built if o.exc is None]
    return sc, schema, built, ok


def probe(sc, codec, st, calls):
    out = {}
    for (d, t, label, val) in calls:
        s2 = st.fork()
        v = FnScenario.py(_at(sc, s2), val)
        out[d, t, label] = sc.method(codec, d, [C(t), v], s2)
    return out


class _at:
    """build literals in another state"""
    def __init__(self, sc, st):
        self.I, self.st = sc.I, st
        self.py = lambda x: FnScenario.py(self, x)

    def __getattr__(self, n):
        raise AttributeError(n)


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I
    modes = MODES
    calls = [('encode', t, l, v) for t in API for l, v in API[t]] + [('decode', t, l, v) for t in WIRE for l, v in WIRE[t]]
    ncalls = npaths = 0
    for mode in modes:
        name = ('rec' if mode[0] else 'norec') + '.' + ('str' if mode[1] else 'nostr')
        try:
            sc, schema, built, ok = setup(su, mode)
        except Exception as e:
            rep.undecided(f'build.{name}', 'building a codec', '', f'{type(e).__name__}: {e}')
            continue
        if not ok:
            rep.undecided(f'build.{name}', 'building a codec', '', repr(built[:1]))
            continue
        base = ok[0]
        rep.analysed |= I.analysed
        codec = base.val
        common = sorted(reach([codec], base.st.heap) & reach([schema], base.st.heap))
        mutable = [x for x in common if base.st.heap[x][0] in ('list', 'dict', 'set', 'obj')]
        if mutable:
            rep.bad(f'build.{name}', f'codec shares mutable objects with the schema it was given '
                    f'({who(I, base.st, mutable[0], [])}: {show(("ref", mutable[0]), base.st)[:80]})', where(I, base), describe(I, base))
        else:
            rep.holds(f'build.{name}', 'codec shares no mutable object with the schema it was given', where(I, base))
        fresh = {}
        for d, t, label, val in calls:
            key = f'{d}.{t}.{label.replace(" ", "-")}.{name}'
            what = f'{d} of {t} ({label}) in mode {name}'
            s0 = base.st.fork()
            try:
                v = _at(sc, s0).py(val)
                before = frozen_heap(s0)
                frames0 = shared_frames(s0)
                outs = sc.method(codec, d, [C(t), v], s0)
            except (Budget, RecursionError) as e:
                rep.undecided(key, what, '', type(e).__name__)
                continue
            except Exception as e:
                rep.undecided(key, what, '', f'{type(e).__name__}: {e}')
                continue
            ncalls += 1
            npaths += len(outs)
            rep.analysed |= I.analysed
            mine = reach([v], before[0])
            shared = set(before[0]) - mine
            trouble = None
            dirty = []
            for o in outs:
                if o.lost:
                    continue
                if o.exc is None and o.val is not None:
                    al = [x for x in reach([o.val], o.st.heap) & shared if before[0][x][0] in ('list', 'dict', 'set', 'obj')]
                    if al:
                        trouble = (o, 'the result gives access to an object of the codec: ' + who(I, o.st, al[0], [('codec', codec)]))
                        break
                ch = [x for x in changed(before, o) if x in shared]
                fr = {k: w for k, w in shared_frames(o.st).items() if frames0.get(k) != w}
                if ch or fr:
                    dirty.append((o, ch, fr))
            if trouble:
                rep.bad(key, f'{what}: {trouble[1]}', where(I, trouble[0]), describe(I, trouble[0]))
                continue
            if not dirty:
                if any(not o.lost for o in outs):
                    rep.holds(key, what + ': leaves nothing behind', where(I, outs[0]))
                else:
                    rep.undecided(key, what, '', str(sorted(outs[0].lost)))
                continue
            if time.time() - rep.t0 > 240:
                rep.undecided(key, what, '', 'leaves a trace; no time left to analyse later calls')
                continue
            # something stays behind: does any later call notice?
            verdict = None
            try:
                for o, ch, fr in dirty[:3]:
                    again = [c for c in calls if c[1] == t] + [c for c in calls if c[1] != t]
                    for c in again:
                        f0 = base.st.fork()
                        f0.facts.update({k: w for k, w in o.st.facts.items() if lasting(k)})
                        a = probe(sc, codec, f0, [c])[c[:3]]
                        b = probe(sc, codec, o.st, [c])[c[:3]]
                        if any(x.lost for x in a + b):
                            continue
                        if not compatible(a, b):
                            trace = '; '.join([who(I, o.st, x, [('codec', codec)]) + ': '
                                               + describe_change(before[0][x], o.st.heap.get(x)) for x in ch]
                                              + [str(k) for k in fr])
                            verdict = (o, f'changes the outcome of a later {c[0]} of {c[1]} ({c[2]}) [{trace}]: '
                                       f'{outcomes(a)[:1]} becomes {[x for x in outcomes(b) if x not in outcomes(a)][:1]}')
                            break
                        for x in b:
                            if x.exc is None and o.exc is None and o.val is not None and x.val is not None:
                                al = [h for h in reach([x.val], x.st.heap) & reach([o.val], o.st.heap)
                                      if o.st.heap.get(h, ('',))[0] in ('list', 'dict', 'set') and h not in mine]
                                if al:
                                    verdict = (o, f'a later {c[0]} of {c[1]} ({c[2]}) returns an object this call returned')
                                    break
                        if verdict:
                            break
                    if verdict:
                        break
            except (Budget, RecursionError):
                pass
            if verdict:
                rep.bad(key, f'{what}: {verdict[1][:400]}', where(I, verdict[0]), describe(I, verdict[0]))
            else:
                o, ch, fr = dirty[0]
                rep.undecided(key, what, where(I, o), 'leaves a trace that no analysed call notices: ' + '; '.join(
                    [who(I, o.st, x, [('codec', codec)]) + ': ' + describe_change(before[0][x], o.st.heap.get(x)) for x in ch]
                    + [str(k) for k in fr]))
        for other in modes:
            set_mode_case(rep, su, base, codec, name, other, calls)
    rep.extra['calls_analysed'] = ncalls
    rep.extra['paths'] = npaths


def set_mode_case(rep, su, base, codec, name, other, calls):
    I = su.I
    key = f'set_mode.{name}.to.{"rec" if other[0] else "norec"}.{"str" if other[1] else "nostr"}'
    try:
        _, _, _, ok2 = setup(su, other)
        new = ok2[0]
        sc, _, _, _ = setup(su, other)
        outs = sc.method(codec, 'set_mode', [C(other[0]), C(other[1])], base.st.fork())
        if not outs or any(o.lost for o in outs):
            rep.undecided(key, 'set_mode', '', str(outs[:1]))
            return
        for o in outs:
            if o.exc is not None:
                rep.bad(key, 'set_mode: fails with ' + o.exc[1], where(I, o), describe(I, o))
                return
        for o in outs:
            a, b = canon(codec, o.st, I=I), canon(new.val, new.st, I=I)
            if a == b:
                continue
            for c in calls:
                x = probe(sc, codec, o.st, [c])[c[:3]]
                y = probe(sc, new.val, new.st, [c])[c[:3]]
                if not any(z.lost for z in x + y) and not compatible(x, y):
                    rep.bad(key, f'set_mode: {c[0]} of {c[1]} ({c[2]}) afterwards is not what a codec built in that mode '
                            f'does: {outcomes(x)[:1]} instead of {outcomes(y)[:1]}'[:500], where(I, o), describe(I, o))
                    return
            rep.undecided(key, 'set_mode', '', 'state differs but no analysed call notices: ' + str(diff(a, b))[:200])
            return
        rep.holds(key, 'set_mode gives the codec that construction in that mode gives', where(I, outs[0]))
    except (Budget, RecursionError) as e:
        rep.undecided(key, 'set_mode', '', type(e).__name__)
