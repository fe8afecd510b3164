"""C08: operations leave the caller's schemas, values, option lists and styles as they were."""
from effects import *      # noqa

LEVEL = 'other'
FLOOR = 40
RULE = ('Effect analysis by abstract interpretation: each operation is analysed on abstract schemas covering every type, '
        'option and extension (bounds, names and descriptions left open). On every normal and exceptional exit, every '
        'object reachable from the arguments must be what it was at entry; copies an operation returns must share no '
        'mutable object with its arguments.')
COPIES = ('canonicalize', 'strip_comments', 'unfold_extensions', 'object_type_schema')


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def judge(op, sc, before, outs):
        roots = mine(sc, before)
        copy = op.key.split('.')[0] in COPIES
        for o in outs:
            ch = [x for x in changed(before, o) if x in roots]
            if ch and not o.lost:
                rep.bad(op.key, f'{op.what} changes its argument: {path_to(sc, before, ch[0])} '
                        f'{describe_change(before[0][ch[0]], o.st.heap.get(ch[0]))}', where(I, o), describe(I, o))
                return
            if copy and o.exc is None and not o.lost:
                al = [x for x in reach([o.val], o.st.heap) & roots if before[0][x][0] in MUTABLE]
                if al:
                    rep.bad(op.key, f'{op.what}: the result shares {path_to(sc, before, al[0])} with the argument',
                            where(I, o), describe(I, o))
                    return
        good = [o for o in outs if not o.lost]
        if len(good) < len(outs) or not good:
            rep.undecided(op.key, op.what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(op.key, f'{op.what}: arguments unchanged on {len(good)} paths', where(I, good[0]))

    each(su, rep, operations(), judge)
    codec_values(rep, su)


def codec_values(rep, su):
    """values given to encode and decode"""
    from checks.c07 import setup, _at
    I = su.I
    for mode in MODES:
        name = ('rec' if mode[0] else 'norec') + '.' + ('str' if mode[1] else 'nostr')
        try:
            sc, schema, built, ok = setup(su, mode)
        except Exception as e:
            rep.undecided(f'build.{name}', 'building a codec', '', f'{type(e).__name__}: {e}')
            continue
        for d, table in (('encode', API), ('decode', WIRE)):
            for t in table:
                for label, val in table[t]:
                    s0 = ok[0].st.fork()
                    v = _at(sc, s0).py(val)
                    if v[0] != 'ref':
                        continue
                    key = f'{d}.{t}.{label.replace(" ", "-")}.{name}'
                    what = f'{d} of {t} ({label})'
                    before = frozen_heap(s0)
                    try:
                        outs = sc.method(ok[0].val, d, [C(t), v], s0)
                    except Exception as e:
                        rep.undecided(key, what, '', f'{type(e).__name__}: {e}')
                        continue
                    roots = reach([v], before[0])
                    bad = [(o, x) for o in outs if not o.lost for x in changed(before, o) if x in roots]
                    if bad:
                        o, x = bad[0]
                        rep.bad(key, f'{what} changes the value it is given: {describe_change(before[0][x], o.st.heap.get(x))}',
                                where(I, o), describe(I, o))
                    elif any(o.lost for o in outs) or not outs:
                        rep.undecided(key, what, '', 'analysis incomplete')
                    else:
                        rep.holds(key, f'{what}: value unchanged on {len(outs)} paths', where(I, outs[0]))


def path_to(sc, before, i):
    """readable access path of object i from the arguments"""
    heap = before[0]
    todo = [(v, f'arg{n}') for n, v in enumerate(sc.vals)]
    seen = set()
    while todo:
        v, p = todo.pop(0)
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == 'ref':
            if v[1] == i:
                return p
            if v[1] in seen:
                continue
            seen.add(v[1])
            o = heap[v[1]]
            if o[0] == 'dict':
                todo += [(e, f'{p}[{show(k)}]') for k, e, n in o[1]]
            elif o[0] == 'obj':
                todo += [(e, f'{p}.{k}') for k, e in o[2]]
            else:
                todo += [(e, f'{p}[{j}]') for j, (e, n) in enumerate(o[1])]
        elif v[0] == 'tup':
            todo += [(e, f'{p}[{j}]') for j, e in enumerate(v[1])]
    return 'an argument'
