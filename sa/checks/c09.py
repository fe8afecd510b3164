"""C09: package tables and default arguments are the same before and after every operation."""
from effects import *      # noqa
from checks.c07 import differs, lasting

LEVEL = 'other'
FLOOR = 30
RULE = ('Effect analysis by abstract interpretation: each operation is analysed on abstract schemas and arguments. On every '
        'normal and exceptional exit, everything that existed before the call and is not part of the arguments (module '
        'tables, class attributes, default arguments, function attributes) must be what it was, and no result may give '
        'access to it. Where something that was empty has grown or a module variable has been rebound, the operation is '
        'analysed again from that state and must have the outcomes it has in a fresh process.')


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def judge(op, sc, before, outs):
        roots = mine(sc, before)
        dirty = []
        for o in outs:
            if o.lost:
                continue
            for x in changed(before, o):
                if x in roots:
                    continue
                b, a = before[0][x], o.st.heap.get(x)
                if b[0] in MUTABLE and not grows_only(b, a) and not (b[0] == 'obj'):
                    rep.bad(op.key, f'{op.what} changes {who(I, o.st, x, [])}: {describe_change(b, a)}', where(I, o), describe(I, o))
                    return
                if b[0] in MUTABLE:
                    dirty.append((o, who(I, o.st, x, [])))
            if shared_frames(o.st):
                dirty.append((o, ', '.join(k.lstrip('@') for k in shared_frames(o.st))))
            if o.exc is None and o.val is not None:
                al = [x for x in reach([o.val], o.st.heap) & (set(before[0]) - roots) if before[0][x][0] in MUTABLE
                      and before[0][x][0] != 'obj']
                if al and op.key.split('.')[0] != 'Codec':
                    rep.bad(op.key, f'{op.what}: the result gives access to {who(I, o.st, al[0], [])}', where(I, o), describe(I, o))
                    return
        if dirty:
            if time.time() - rep.t0 < 400:
                for o, name in dirty[:4]:
                    try:
                        v = again(su, op, o)
                    except (Budget, RecursionError):
                        v = None
                    if v:
                        rep.bad(op.key, f'{op.what} leaves {name} changed, and the same call then {v}', where(I, o), describe(I, o))
                        return
            rep.undecided(op.key, op.what, where(I, dirty[0][0]), f'leaves {dirty[0][1]} changed; no analysed call notices')
            return
        good = [o for o in outs if not o.lost]
        if len(good) < len(outs) or not good:
            rep.undecided(op.key, op.what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(op.key, f'{op.what}: tables and defaults unchanged on {len(good)} paths', where(I, good[0]))

    each(su, rep, operations(), judge)


def again(su, op, o):
    """the same call from a fresh state and from the state outcome o left"""
    from checks.c07 import _at, outcome
    res = []
    for st in (None, o.st.fork()):
        sc = FnScenario(su.I, op.key)
        s0 = sc.st if st is None else st
        if st is None:
            s0.facts.update({k: w for k, w in o.st.facts.items() if lasting(k)})
        sc.vals = [_at(sc, s0).py(a) for a in op.args]
        res.append(op.run(sc, s0))
    a, b = res
    if any(x.lost for x in a + b):
        return None
    p = differs(a, b)
    if p is not None:
        return f'has another outcome ({outcome(p)[:150]})'
    for x in b:
        if x.exc is None and o.exc is None and o.val is not None and x.val is not None:
            al = [h for h in reach([x.val], x.st.heap) & reach([o.val], o.st.heap) if o.st.heap.get(h, ('',))[0] in ('list', 'dict', 'set')]
            if al:
                return 'returns an object the first call returned'
    return None
