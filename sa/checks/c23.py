"""C23: flat command dictionaries and nested ones say the same."""
from textround import *     # noqa
from framework import Anchor
from suite import describe, where   # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of flatten, fluff and dlist on nested dictionaries and lists whose keys and values are open, for '
        'several separators: flatten gives every value under the path of keys and indices that leads to it and nothing else, fluff '
        'gives the nested dictionary back, dlist the lists, whatever the order of the flat keys; hdict nests one value.')
U = 'jadn.utils'
KEY = r'[A-Za-z_$][A-Za-z0-9_$]*'
V = object()
# K: open key, numbers: open values
CASES = {
    'one': {'a': 1}, 'two': {'a': 1, 'b': 2}, 'three': {'a': 1, 'b': 2, 'c': 3},
    'nest': {'a': {'b': 1}}, 'nest2': {'a': {'b': 1, 'c': 2}}, 'siblings': {'a': {'b': 1, 'c': 2}, 'd': 3}, 'cousins': {'a': {'b': 1}, 'c': {'b': 2, 'd': 3}},
    'deep': {'a': {'b': {'c': 1, 'd': 2}, 'e': 3}, 'f': {'b': {'c': 4}}}, 'deeper': {'a': {'b': {'c': {'d': 1, 'e': {'f': 2}}, 'g': 3}}}, 'same': {'a': {'a': {'a': 1, 'b': 2}}, 'b': {'a': 3}},
    'after': {'a': {'b': 1}, 'c': 2, 'd': {'e': 3}, 'f': {'g': {'h': 4}}},
    'list': {'a': [1]}, 'list2': {'a': [1, 2]}, 'list3': {'a': [1, 2, 3], 'b': 4}, 'list12': {'a': list(range(1, 13))}, 'list25': {'a': {'b': list(range(1, 26)), 'c': 30}},
    'lists': {'a': [1, 2], 'b': [3, 4]}, 'listnest': {'a': {'b': [1, 2], 'c': 3}}, 'listlist': {'a': [[1, 2], [3]]}, 'listdict': {'a': [{'b': 1, 'c': 2}, {'b': 3}]},
    'listmixed': {'a': [1, {'b': 2}, [3, {'c': 4}], 5]}, 'listdeep': {'a': {'b': [{'c': [1, 2], 'd': {'e': [3]}}, {'c': [4]}]}, 'f': 5}, 'listlistlist': {'a': [[[1, 2], [3]], [[4]]]},
    'digits': {'a': {'1': 1}}, 'digits2': {'a': {'1': 1, '2': 2}}, 'digitskey': {'a': {'0': 1, 'b': 2}}, 'digitsgap': {'a': {'0': 1, '2': 2}}, 'digits0': {'a': {'00': 1}}, 'digitsneg': {'a': {'-1': 1, '0': 2}},
    'digitstop': {'1': {'2': 1}, '3': 2},
}
VALUES = {'open text': lambda n: S(f'v{n}', 'str'), 'open number': lambda n: S(f'v{n}', 'int'), 'None': lambda n: NONE, 'False': lambda n: C(False), 'True': lambda n: C(True), '0': lambda n: C(0),
          "''": lambda n: C(''), '1.5': lambda n: C(1.5), 'text with separators': lambda n: C('a.b/c:d--e 0'), 'digits': lambda n: C('0')}
SEPS = ['.', '/', '--', '_._']


def build(x, key, val):
    if isinstance(x, dict):
        return {key(k): build(v, key, val) for k, v in x.items()}
    if isinstance(x, list):
        return [build(v, key, val) for v in x]
    return val(x)


def paths(x, path=()):
    for k, v in (x.items() if isinstance(x, dict) else ((C(str(i)), e) for i, e in enumerate(x))):
        if isinstance(v, (dict, list)):
            yield from paths(v, path + (k,))
        else:
            yield path + (k,), v


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def case(key, what, go):
        sc = FnScenario(I, key)
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = None
        sc.set_order = None
        try:
            outs, want = go(sc)
        except (Budget, RecursionError, NotFollowed) as e:
            rep.undecided(key, what, '', f'{type(e).__name__}: {e}')
            return
        rep.analysed |= I.analysed
        bad = None
        for o in outs:
            if o.lost:
                continue
            if o.exc is not None:
                p = f'fails with {show(o.exc)}'
            else:
                p = differs(o, want)
                if p and opaque(o.val, o.st):
                    rep.undecided(key, what, '', 'result not followed')
                    return
            if p:
                rep.bad(key, f'{what}: {p}', where(I, o), describe(I, o))
                return
        if not outs or any(o.lost for o in outs):
            rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(key, f'{what} on {len(outs)} paths', where(I, outs[0]))

    def differs(o, want):
        s = o.st.copy() if hasattr(o.st, 'copy') else o.st
        sc2 = FnScenario(I, 'want')
        sc2.st = s
        return same(sc2.py(want), o.val, s, s)

    def prep(sc, shape, val, keys):
        used = {}

        def key(k):
            if not k.isalpha():
                return C(k)
            if k not in used:
                used[k] = S('k_' + k, 'str') if keys == 'open' else C(keys + k)
                if keys == 'open':
                    sc.shape(used[k], KEY)
            return used[k]
        x = build(shape, key, val)
        if keys == 'open' and len(used) > 1:
            sc.distinct(*used.values())
        return x

    def flat(x, sep):
        return {mk_cat([t for i, k in enumerate(p) for t in ([C(sep)] if i else []) + [k]]): v for p, v in paths(x)}

    def chain(sc, steps, arg):
        outs = [Outcome(sc.st, arg, None)]
        for fn, args, kw in steps:
            nxt = []
            for o in outs:
                if o.exc is not None or o.lost:
                    nxt.append(o)
                else:
                    nxt += sc.call(U, fn, [o.val] + args, kw, o.st)
            outs = nxt
        return outs

    def combos():
        for name, shape in CASES.items():
            for sep in SEPS:
                yield name, shape, sep, 'open text', 'open'
            yield name, shape, '.', 'open number', ''
            yield name, shape, '.', 'open text', 'key-'
        for vn in VALUES:
            for name in ('siblings', 'listmixed', 'digitskey', 'deep'):
                yield name, CASES[name], '.', vn, 'open'

    done = set()
    for name, shape, sep, vn, keys in combos():
        if (name, sep, vn, keys) in done:
            continue
        done.add((name, sep, vn, keys))
        tag = f'{name}.{sep}.{vn}.{keys or "letters"}'
        what = f'{shape} with values {vn}, keys {keys or "as shown"}, separator {sep!r}'
        val = VALUES[vn]
        kw = {'sep': C(sep)} if sep != '.' else {}

        def f_flat(sc):
            x = prep(sc, shape, val, keys)
            return chain(sc, [('flatten', [], kw)], sc.py(x)), flat(x, sep)

        def f_round(sc):
            x = prep(sc, shape, val, keys)
            return chain(sc, [('flatten', [], kw), ('fluff', [], kw), ('dlist', [], {})], sc.py(x)), x

        def f_fluff(sc, rev=False):
            x = prep(sc, shape, val, keys)
            f = flat(x, sep)
            return chain(sc, [('fluff', [], kw)], sc.py(dict(reversed(f.items())) if rev else f)), nolist(x)

        def f_back(sc):
            x = prep(sc, shape, val, keys)
            f = flat(x, sep)
            return chain(sc, [('fluff', [], kw), ('dlist', [], {}), ('flatten', [], kw)], sc.py(dict(reversed(f.items())))), f

        case(f'flatten.{tag}', f'flatten of {what}', f_flat)
        case(f'round.{tag}', f'dlist(fluff(flatten())) of {what}', f_round)
        case(f'fluff.{tag}', f'fluff of the paths of {what}', f_fluff)
        case(f'fluff.rev.{tag}', f'fluff of the paths in reverse order of {what}', lambda sc: f_fluff(sc, True))
        case(f'back.{tag}', f'flatten(dlist(fluff())) of the paths in reverse order of {what}', f_back)

    for n in range(1, 5):
        for sep in SEPS:
            def f_h(sc):
                ks = [S(f'k{i}', 'str') for i in range(n)]
                for k in ks:
                    sc.shape(k, KEY)
                v = S('v', 'str')
                want = v
                for k in reversed(ks):
                    want = {k: want}
                return sc.call(U, 'hdict', [mk_cat([t for i, k in enumerate(ks) for t in ([C(sep)] if i else []) + [k]]), v], {'sep': C(sep)}), want
            case(f'hdict.{n}.{sep}', f'hdict of {n} keys with separator {sep!r}', f_h)


def nolist(x):
    if isinstance(x, list):
        return {C(str(i)): nolist(v) for i, v in enumerate(x)}
    if isinstance(x, dict):
        return {k: nolist(v) for k, v in x.items()}
    return x
