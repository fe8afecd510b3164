"""C13: results are the same in every process: they do not depend on hash order, time, chance or environment."""
from effects import *      # noqa
from checks.c07 import differs

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of each operation twice on the same abstract arguments, with two opposite iteration orders for '
        'every set whose order depends on hashing (sets of texts; dict views and sets of numbers keep theirs): every normal '
        'outcome under one order must be an outcome under the other, including the order of lists and keys. No result may '
        'contain the time, a random number, an object identity or hash, or the order of a directory.')
NONDET = ('datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'time.time',
          'time.ctime', 'time.monotonic', 'time.perf_counter', 'random.', 'secrets.', 'uuid.uuid1', 'uuid.uuid4', 'os.urandom',
          'os.getpid', 'os.listdir', 'os.scandir', 'glob.', 'id', 'hash', 'os.environ', 'os.getcwd', 'socket.', 'platform.',
          'locale.', 'tempfile.')


def infos():
    """more info keys than the package knows, and several types of every kind"""
    s = FAMILIES['rich']()
    s['info'] = {'zeta': D('Z'), 'package': 'http://x/y', 'alpha': D('A'), 'mid': [D('M'), 'x'], 'title': D('Title'),
                 'exports': ['Str', 'Rec'], 'namespaces': {'n': 'http://n', 'm': 'http://m'}, 'config': {'$MaxString': 99}, 'beta': D('B')}
    return s


def refs():
    """references that are not defined, and types that nothing refers to"""
    return {'info': {'package': 'http://x/r', 'exports': ['Gone', 'A', 'Lost']}, 'types': [
        T('A', 'Record', [], '', [F(1, 'x', 'Miss'), F(2, 'y', 'Away'), F(3, 'z', 'B')]), T('B', 'ArrayOf', ['*Far']),
        T('C', 'String'), T('D', 'String'), T('E', 'MapOf', ['+Key', '*Val'])]}


def many_options():
    return {'info': {'package': 'http://x/o'}, 'types': [
        T('S', 'String', ['{1', '}9', '/email']), T('N', 'Number', ['y1', 'z2']), T('I', 'Integer', ['{1', '}2', '/i8']),
        T('R', 'Record', ['{1', '}3', 'X'], '', [F(1, 'a', 'S', ['[0', ']3', 'L', 'q']), F(2, 'b', 'ArrayOf', ['*S', '{1', '}5', 'q', '[0'])]),
        T('Ch', 'Choice', ['=', 'CX'], '', [F(1, 'p', 'S'), F(2, 'q', 'I')]), T('M', 'MapOf', ['+S', '*I', '{1', '}4']),
        T('E', 'Enumerated', ['='], '', [[1, 'x', ''], [2, 'y', '']])]}


def norm(v, st, text=False, memo=None):
    """structure of a value; key order counts only where the value is turned into text"""
    memo = {} if memo is None else memo
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'ref':
        if (v[1], text) not in memo:
            memo[v[1], text] = ('cycle',)
            memo[v[1], text] = norm_object(st.heap.get(v[1]), st, text, memo)
        return memo[v[1], text]
    if v[0] in ('c', 's', 'fn'):
        return v
    return tuple(norm(x, st, text or v[0] in ('app', 'cat'), memo) if isinstance(x, tuple) else x for x in v)


def norm_object(o, st, text, memo):
    if o is None:
        return ('gone',)
    if o[0] == 'obj':
        return ('obj', o[1], tuple((k, norm(e, st, True, memo)) for k, e in sorted(o[2]) if k != 'parent'))
    if o[0] == 'dict':
        rows = [(norm(k, st, text, memo), norm(e, st, text, memo), c) for k, e, c in o[1]]
        return ('dict', tuple(rows if text else sorted(rows, key=repr)))
    rows = [(norm(e, st, text, memo), c) for e, c in o[1]]
    return (o[0], tuple(sorted(rows, key=repr) if o[0] == 'set' else rows))


def result(o):
    return repr(norm(o.val, o.st)) if o.exc is None else repr(('exc',) + o.exc[1:2])


def tainted(o):
    if o.exc is not None or o.val is None:
        return None
    todo, seen = [o.val], set()
    while todo:
        v = todo.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == 'ref':
            if v[1] not in seen and v[1] in o.st.heap:
                seen.add(v[1])
                ob = o.st.heap[v[1]]
                for x in ob[-1]:
                    todo.extend(y for y in x if isinstance(y, tuple))
            continue
        if v[0] in ('app', 'attr') and isinstance(v[1], str):
            if any(v[1] == n or n.endswith('.') and v[1].startswith(n) for n in NONDET):
                return v[1]
        if v[0] == 'app' and v[1] in ('str', 'repr') and v[2] and v[2][0][0] == 'ref' and o.st.heap.get(v[2][0][1], ('',))[0] == 'set':
            return 'text of a set'
        if v[0] == 'bi' and any(v[1] == n for n in NONDET):
            return v[1]
        todo.extend(x for x in v if isinstance(x, tuple))
    return None


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I
    ops = [op for op in operations() if not op.key.startswith('Codec')]
    for fam in (infos, refs, many_options):
        for n, (mod, fn, extra, fams) in SCHEMA_OPS.items():
            if n == 'Codec':
                continue
            ops.append(Op(f'{n}.{fam.__name__}', f'{fn} of the {fam.__name__} schema', mod, fn, [fam()] + list(extra)))
    n = paths = 0
    for op in ops:
        runs = []
        try:
            for order in ('a', 'b'):
                sc = op.prepare(I)
                sc.set_order = order
                runs.append(op.run(sc))
        except (Budget, RecursionError) as e:
            rep.undecided(op.key, op.what, '', type(e).__name__)
            continue
        except Anchor:
            raise
        except Exception as e:
            rep.undecided(op.key, op.what, '', f'analysis gave up: {type(e).__name__}: {e}')
            continue
        n += 1
        rep.analysed |= I.analysed
        a, b = ([o for o in r if not o.lost] for r in runs)
        paths += len(a) + len(b)
        t = next((t for o in a for t in [tainted(o)] if t), None)
        if t:
            o = next(o for o in a if tainted(o))
            rep.bad(op.key, f'{op.what}: the result depends on {t}', where(I, o), describe(I, o))
            continue
        if len(a) < len(runs[0]) or len(b) < len(runs[1]) or not a:
            rep.undecided(op.key, op.what, '', str(sorted({x for r in runs for o in r for x in o.lost})[:3]))
            continue
        a, b = ([o for o in r if o.exc is None] for r in (a, b))
        p = differs(a, b, result) or differs(b, a, result)
        if p is not None:
            q = next((q for q in (b if p in a else a)), None)
            rep.bad(op.key, f'{op.what}: the result depends on the order of a set: {mismatch(p, q)}', where(I, p), describe(I, p))
        else:
            rep.holds(op.key, f'{op.what}: same result for either order of every set, {len(a)} paths', where(I, (a or b or runs[0])[0]))
    rep.extra['operations_analysed'] = n
    rep.extra['paths'] = paths


def mismatch(p, q):
    x, y = result(p), result(q) if q else ''
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), 0)
    return f'...{x[max(0, i - 40):i + 60]}... or ...{y[max(0, i - 40):i + 60]}...'
