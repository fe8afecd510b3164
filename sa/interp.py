"""Expression, statement, loop and call semantics of the abstract interpreter (see absint.py for the domain)."""
import ast
import builtins

from absint import *    # noqa
from absint import Interp as _Base, Ctx

DEBUG = False
from terms import *     # noqa
from models import Models
import extmodels
import strtok

CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne',
       ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}


class Interp(Models, _Base):
    # ================================================================ expressions
    # ev(node, st, ctx) -> list of (state, value, exc) ; exc is None for a value
    def ev(self, node, st, ctx):
        self.tick()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            st.lose(f'expression {type(node).__name__}')
            return [(st, ('unk', f'{type(node).__name__}@{node.lineno}'), None)]
        return m(node, st, ctx)

    def evs(self, nodes, st, ctx):
        """evaluate a list of expressions -> [(state, [values], exc)]"""
        res = [(st, [], None)]
        for n in nodes:
            out = []
            for s, vals, ex in res:
                if ex is not None:
                    out.append((s, vals, ex))
                    continue
                for s2, v, e in self.ev(n, s, ctx):
                    out.append((s2, vals + [v], e))
            res = out
        return res

    def bind(self, results, fn):
        """monadic bind over [(st, v, exc)]"""
        out = []
        for s, v, e in results:
            if e is not None:
                out.append((s, v, e))
            else:
                out.extend(fn(s, v))
        return out

    def cond(self, node, st, ctx):
        """evaluate as a condition -> [(state, bool, exc)] with short-circuit refinement"""
        if isinstance(node, ast.BoolOp):
            res = [(st, isinstance(node.op, ast.And), None)]
            for sub in node.values:
                out = []
                for s, b, e in res:
                    if e is not None or b != isinstance(node.op, ast.And):
                        out.append((s, b, e))
                    else:
                        out.extend(self.cond(sub, s, ctx))
                res = out
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, (not b) if e is None else b, e) for s, b, e in self.cond(node.operand, st, ctx)]
        if isinstance(node, ast.Compare):
            return self.compare(node, st, ctx)
        out = []
        for s, v, e in self.ev(node, st, ctx):
            if e is not None:
                out.append((s, None, e))
            else:
                out.extend((s2, b, None) for s2, b in self.truthy(v, s))
        return out

    def compare(self, node, st, ctx):
        res = []
        for s, left, e in self.ev(node.left, st, ctx):
            if e is not None:
                res.append((s, None, e))
                continue
            live = [(s, left)]
            for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
                nxt = []
                for s1, l in live:
                    for s2, r, e2 in self.ev(rn, s1, ctx):
                        if e2 is not None:
                            res.append((s2, None, e2))
                            continue
                        for s3, b, e3 in self.cmp(CMP[type(op)], l, r, s2):
                            if e3 is not None:
                                res.append((s3, None, e3))
                            elif not b:
                                res.append((s3, False, None))
                            elif i == len(node.ops) - 1:
                                res.append((s3, True, None))
                            else:
                                nxt.append((s3, r))
                live = nxt
        return res

    def cmp(self, op, a, b, st):
        """-> [(st, bool, exc)]"""
        if op in ('ne', 'isnot', 'notin'):
            return [(s, (not v) if e is None else v, e)
                    for s, v, e in self.cmp({'ne': 'eq', 'isnot': 'is', 'notin': 'in'}[op], a, b, st)]
        if op in ('gt', 'ge'):
            # a > b == b < a ; a >= b == b <= a
            return self.cmp({'gt': 'lt', 'ge': 'le'}[op], b, a, st)
        if op == 'is':
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                return [(s, r, None) for s, r in self.is_none(x, st)]
            if a[0] == 'ref' and b[0] == 'ref':
                return [(st, a == b, None)]
            ka, kb = self.kind(a, st), self.kind(b, st)
            if 'any' not in (ka, kb) and 'num' not in (ka, kb) and ka[0] != '@' and kb[0] != '@' and ka != kb:
                return [(st, False, None)]          # identity implies the same type: True is not 1
            return self.cmp('eq', a, b, st)
        if op == 'eq':
            if a == NONE or b == NONE:
                x = a if b == NONE else b
                return [(s, r, None) for s, r in self.is_none(x, st)]
            return [(s, r, None) for s, r in self.eq(a, b, st)]
        if op in ('lt', 'le'):
            ka, kb = self.kind(a, st), self.kind(b, st)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    r = a[2] < b[2] if op == 'lt' else a[2] <= b[2]
                except TypeError:
                    return [(st, None, self.exc('TypeError'))]
                return [(st, r, None)]
            if ka in ('set', 'frozenset') and kb in ('set', 'frozenset', 'dict'):
                return self.subset(a, b, st, op)
            if a[0] == 'tup' and b[0] == 'tup':
                return self.cmp_tuples(op, a[1], b[1], st)
            num = ('int', 'float', 'num', 'bool')
            if (ka in num and kb in ('str', 'bytes', 'list', 'dict', 'NoneType')) or \
               (kb in num and ka in ('str', 'bytes', 'list', 'dict', 'NoneType')):
                return [(st, None, self.exc('TypeError'))]
            if 'set' in (ka, kb) and self.kind(b, st) == 'any':
                st.lose('set comparison')
            atom = self.a_lt(a, b) if op == 'lt' else ('not', self.a_lt(b, a))
            return [(s, r, None) for s, r in self.split(st, atom)]
        if op == 'in':
            k = self.kind(b, st)
            if k in ('int', 'float', 'bool', 'NoneType', 'function'):
                return [(st, None, self.exc('TypeError'))]
            if b[0] == 'ref' and st.heap[b[1]][0] == 'obj':
                r = self.call_method(b, '__contains__', [a], st)
                if r is not None:
                    return self.bind(r, lambda s, v: [(s2, t, None) for s2, t in self.truthy(v, s)])
                st.lose('membership in object')
            if k in ('dict', 'set', 'frozenset') and self.kind(a, st) in ('list', 'dict', 'set'):
                return [(st, None, self.exc('TypeError'))]
            return [(s, r, None) for s, r in self.member(a, b, st)]
        raise AssertionError(op)

    def cmp_tuples(self, op, a, b, st):
        if not a or not b:
            return [(st, bool(b) if op == 'lt' else not a, None)]
        out = []
        for s, same in self.eq(a[0], b[0], st):
            out.extend(self.cmp_tuples(op, a[1:], b[1:], s) if same else self.cmp('lt', a[0], b[0], s))
        return out

    def eq(self, a, b, st):
        if a[0] == 'ref' and b[0] == 'ref' and a != b:
            oa, ob = st.heap[a[1]], st.heap[b[1]]
            if oa[0] == ob[0] and oa[0] in ('list', 'set', 'dict'):
                if self.struct_eq(a, b, st):
                    return [(st, True)]
                la, lb = self.len_of(a, st), self.len_of(b, st)
                if self.decide(self.a_eq(la, lb), st) is False:
                    return [(st, False)]
                r = self.decide(self.a_eq(a, b), st)
                if r is None and oa[0] == 'set':
                    out = []
                    for s, x, e in self.subset(a, b, st, 'le'):
                        if not x:
                            out.append((s, False))
                        else:
                            out.extend((s2, y) for s2, y, _ in self.subset(b, a, s, 'le'))
                    return out
                if self.pairwise(a, b, st) is None:
                    return self.split(st, self.a_eq(a, b))
            if oa[0] == 'obj' and self.dataclass_eq(oa, ob):
                pass
            elif oa[0] != ob[0]:
                return [(st, False)]
        pw = self.pairwise(a, b, st)
        if pw is not None:
            out, live = [], [st]
            for x, y in pw:
                nxt = []
                for s in live:
                    for s2, r in self.eq(x, y, s):
                        if r:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                live = nxt
            return out + [(s, True) for s in live]
        if self.empty_literal(b, st) or self.empty_literal(a, st):
            x = a if self.empty_literal(b, st) else b
            y = b if x is a else a
            kx, ky = self.kind(x, st), self.kind(y, st)
            if kx == ky:
                return self.split(st, self.a_eq(self.len_of(x, st), C(0)))
        return self.split(st, self.a_eq(a, b))

    def dataclass_eq(self, oa, ob):
        """equality of these objects is that of their fields"""
        ci = self.classes.get(oa[1])
        return oa[1] == ob[1] and ci is not None and ci.is_data and '__eq__' not in ci.methods and \
            [n for n, _ in oa[2]] == [n for n, _ in ob[2]]

    def pairwise(self, a, b, st):
        """elements to compare for the equality of two sequences (or mappings with constant keys) of the same length"""
        def items(v):
            if v[0] == 'tup':
                return 'tup', v[1]
            if v[0] == 'ref':
                o = st.heap[v[1]]
                if o[0] == 'list' and all(n == ONE for _, n in o[1]):
                    return 'list', tuple(e for e, _ in o[1])
                if o[0] == 'dict' and all(n == ONE and k[0] == 'c' for k, _, n in o[1]):
                    return 'dict', {k: e for k, e, _ in o[1]}
                if o[0] == 'obj' and self.dataclass_eq(o, o):
                    return 'obj', tuple(e for _, e in o[2])
            return None
        if a[0] not in ('ref', 'tup') or b[0] not in ('ref', 'tup') or a == b:
            return None
        x, y = items(a), items(b)
        if x is None or y is None or x[0] != y[0] or len(x[1]) != len(y[1]) or len(x[1]) > 8:
            return None
        if x[0] == 'dict':
            return [(e, y[1][k]) for k, e in x[1].items()] if set(x[1]) == set(y[1]) else None
        return list(zip(x[1], y[1]))

    def empty_literal(self, v, st):
        if v == ('tup', ()):
            return True
        if v[0] == 'ref':
            o = st.heap[v[1]]
            return o[0] in ('list', 'set', 'dict') and not o[1]
        return v[0] == 'c' and v[1] in ('str', 'bytes') and not v[2] and False

    def struct_eq(self, a, b, st, depth=0):
        if a == b:
            return True
        if a[0] == 'ref' and b[0] == 'ref' and depth < 6:
            oa, ob = st.heap[a[1]], st.heap[b[1]]
            if oa[0] != ob[0]:
                return False
            if oa[0] in ('list', 'set', 'iter'):
                return len(oa[1]) == len(ob[1]) and all(
                    n == m and self.struct_eq(x, y, st, depth + 1) for (x, n), (y, m) in zip(oa[1], ob[1]))
            if oa[0] == 'dict':
                return len(oa[1]) == len(ob[1]) and all(
                    n == m and self.struct_eq(k, k2, st, depth + 1) and self.struct_eq(x, y, st, depth + 1)
                    for (k, x, n), (k2, y, m) in zip(oa[1], ob[1]))
            if oa[0] == 'obj':
                return oa[1] == ob[1] and len(oa[2]) == len(ob[2]) and all(
                    n == m and self.struct_eq(x, y, st, depth + 1) for (n, x), (m, y) in zip(oa[2], ob[2]))
        return False

    def subset(self, a, b, st, op):
        """a <= b for containers with known parts"""
        pa = self.parts_of(a, st)
        live = [st]
        out = []
        for e, n in pa or ():
            nxt = []
            for s in live:
                if n != ONE:
                    r = self.decide(self.a_lt(C(0), n), s)
                    if r is False:
                        nxt.append(s)
                        continue
                    if r is None:
                        s0 = s.fork()
                        self.assume(s0, self.a_lt(C(0), n), False)
                        nxt.append(s0)
                        self.assume(s, self.a_lt(C(0), n), True)
                for s2, r in self.member(e, b, s):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False, None))
            live = nxt
        for s in live:
            if op == 'lt':
                for s2, r in self.split(s, self.a_lt(self.len_of(a, s), self.len_of(b, s))):
                    out.append((s2, r, None))
            else:
                out.append((s, True, None))
        return out

    def is_none(self, v, st):
        if v == NONE:
            return [(st, True)]
        if v[0] == 'app' and v[1] in ('re.match', 're.fullmatch', 're.search'):
            return [(s, not r) for s, r in self.split(st, ('truthy', v))]
        k = self.kind(v, st)
        if k not in ('any',) and not k.startswith('@'):
            return [(st, k == 'NoneType')]
        return self.split(st, ('none', v))

    # ---- leaf expressions
    def ev_Constant(self, node, st, ctx):
        return [(st, C(node.value), None)]

    def ev_Name(self, node, st, ctx):
        v = self.lookup(node.id, st, ctx)
        if v is None:
            if ctx.locals and node.id in ctx.locals:
                return [(st, None, self.exc('UnboundLocalError'))]
            st.lose(f'name {node.id}')
            return [(st, ('unk', node.id), None)]
        return [(st, v, None)]

    def lookup(self, name, st, ctx):
        fr = st.frames.get(ctx.frame)
        if fr is not None and name in fr:
            return fr[name]
        if ctx.locals and name in ctx.locals:
            return None
        for p in ctx.parents:
            f = st.frames.get(p)
            if f is not None and name in f:
                return f[name]
        f = st.frames.get('@' + ctx.mod.name)       # module names rebound since import
        if f is not None and name in f:
            return f[name]
        return self.lookup_global(ctx.mod.name, name)

    def ev_JoinedStr(self, node, st, ctx):
        subs = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                subs.append(v.value)
                if v.format_spec is not None:
                    subs.append(v.format_spec)
        out = []
        for s, vals, e in self.evs(subs, st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            parts, i = [], 0
            for v in node.values:
                if isinstance(v, ast.FormattedValue):
                    x = vals[i]
                    i += 1
                    spec = C('')
                    if v.format_spec is not None:
                        spec = vals[i]
                        i += 1
                    t = strtok.fmt(self, x, spec, s) if v.conversion in (-1, 115) else None
                    if t is not None and (self.tok or '!pad' not in repr(t)):
                        parts.append(t)
                    elif v.format_spec is not None or v.conversion not in (-1, 115):
                        parts.append(('app', 'format', (x,) if spec == C('') else (x, spec), 'str'))
                    else:
                        parts.append(self.to_str(x, s))
                else:
                    parts.append(C(v.value))
            out.append((s, mk_cat(parts), None))
        return out

    def to_str(self, x, st):
        k = self.kind(x, st)
        if k == 'str':
            return x
        if x[0] == 'c':
            return C(str(x[2]))
        if x[0] == 's' and k == 'any':
            return x
        if self.tok and x[0] == 'ref':
            try:
                return C(str(self.literal(x, st)))
            except ValueError:
                pass
        return ('app', 'str', (x,), 'str')

    def literal(self, x, st):
        """the Python value of a list or dictionary of constants"""
        if x[0] == 'c':
            return x[2]
        o = st.heap[x[1]] if x[0] == 'ref' else ('',)
        if o[0] == 'list' and all(n == ONE for _, n in o[1]):
            return [self.literal(e, st) for e, _ in o[1]]
        if o[0] == 'dict' and all(n == ONE for _, _, n in o[1]):
            return {self.literal(k, st): self.literal(e, st) for k, e, _ in o[1]}
        raise ValueError

    def ev_Tuple(self, node, st, ctx):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.bind(self.ev_List(node, st, ctx), self._to_tuple)
        return [(s, ('tup', tuple(vs)) if e is None else None, e) for s, vs, e in self.evs(node.elts, st, ctx)]

    def _to_tuple(self, s, v):
        parts = self.parts_of(v, s)
        if parts is not None and all(n == ONE for _, n in parts):
            return [(s, ('tup', tuple(e for e, _ in parts)), None)]
        return [(s, v, None)]

    def ev_List(self, node, st, ctx):
        plain = [e.value if isinstance(e, ast.Starred) else e for e in node.elts]
        out = []
        for s, vs, e in self.evs(plain, st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            parts = []
            for n, v in zip(node.elts, vs):
                if isinstance(n, ast.Starred):
                    p = self.parts_of(v, s)
                    if p is None:
                        s.lose('star expansion')
                        p = ((('unk', 'star'), S(f'#{s.fresh()}', 'int')),)
                    parts.extend(p)
                else:
                    parts.append((v, ONE))
            out.append((s, self.new_list(s, parts), None))
        return out

    def ev_Set(self, node, st, ctx):
        out = []
        for s, v, e in self.ev_List(node, st, ctx):
            if e is not None:
                out.append((s, v, e))
            else:
                out.append((s, self.new_set(s, s.heap[v[1]][1]), None))
        return out

    def ev_Dict(self, node, st, ctx):
        nodes = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs, e in self.evs(nodes, st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            it = iter(vs)
            ref = s.alloc(('dict', ()))
            live = [s]
            for k, v in zip(node.keys, node.values):
                if k is not None:
                    kv, vv = next(it), next(it)
                    live = [x for s1 in live for x in self.dict_set(s1, ref, kv, vv)]
                else:
                    vv = next(it)
                    live = [x for s1 in live for x in self.dict_update(s1, ref, vv)]
            out.extend((s1, ref, None) for s1 in live)
        return out

    def dict_set(self, st, ref, k, v, n=ONE):
        """-> [states]"""
        o = st.heap[ref[1]]
        if n == ONE:
            for i, (ek, ev, m) in enumerate(o[1]):
                if m == ONE and self.decide(self.a_eq(ek, k, st), st) is True:
                    st.heap[ref[1]] = ('dict', o[1][:i] + ((ek, v, m),) + o[1][i + 1:])
                    return [st]
                if m != ONE and ek == k:
                    # weak: representative of the same class
                    st.heap[ref[1]] = ('dict', o[1][:i] + ((ek, v, m),) + o[1][i + 1:])
                    return [st]
        else:
            for i, (ek, ev, m) in enumerate(o[1]):
                if ek == k:
                    st.heap[ref[1]] = ('dict', o[1][:i] + ((ek, v, n),) + o[1][i + 1:])
                    return [st]
        st.heap[ref[1]] = ('dict', o[1] + ((k, v, n),))
        return [st]

    def dict_update(self, st, ref, other):
        ko = self.kind(other, st)
        if other[0] == 'ref' and st.heap[other[1]][0] == 'dict':
            live = [st]
            for k, v, n in st.heap[other[1]][1]:
                live = [x for s in live for x in self.dict_set(s, ref, k, v, n)]
            return live
        if other[0] == 'ref' and st.heap[other[1]][0] in ('list', 'iter') or other[0] == 'tup':
            live = [st]
            for e, n in self.parts_of(other, st):
                if e[0] == 'ref' and st.heap[e[1]][0] == 'list' and len(st.heap[e[1]][1]) == 2 and all(m == ONE for _, m in st.heap[e[1]][1]):
                    e = ('tup', tuple(x for x, _ in st.heap[e[1]][1]))
                if e[0] == 'tup' and len(e[1]) == 2:
                    live = [x for s in live for x in self.dict_set(s, ref, e[1][0], e[1][1], n)]
                else:
                    for s in live:
                        s.lose('dict update')
            return live
        o = st.heap[ref[1]]
        st.heap[ref[1]] = ('dict', o[1] + ((('app', 'keysof', (other,), 'any'), ('app', 'valsof', (other,), 'any'),
                                            S(f'#{st.fresh()}', 'int')),))
        if ko != 'dict':
            st.lose('dict update from unknown value')
        return [st]

    def ev_Lambda(self, node, st, ctx):
        return self.make_fn(node, st, ctx, f'{ctx.qual}.<lambda>')

    def make_fn(self, node, st, ctx, qual):
        a = node.args
        out = []
        dnodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        for s, vs, e in self.evs(dnodes, st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            nd = len(a.defaults)
            kwd, i = {}, nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[arg.arg] = vs[i]
                    i += 1
            frames = () if ctx.frame.startswith('@') else (ctx.frame,) + tuple(ctx.parents)
            fid = len(self.fns)
            self.fns[fid] = FnInfo(node, ctx.mod, frames, vs[:nd], kwd, qual, ctx.cls)
            out.append((s, ('fn', fid), None))
        return out

    def ev_IfExp(self, node, st, ctx):
        out = []
        for s, b, e in self.cond(node.test, st, ctx):
            if e is not None:
                out.append((s, None, e))
            else:
                out.extend(self.ev(node.body if b else node.orelse, s, ctx))
        return out

    def ev_BoolOp(self, node, st, ctx):
        is_and = isinstance(node.op, ast.And)
        res = [(st, None, None, False)]
        for i, sub in enumerate(node.values):
            out = []
            for s, v, e, done in res:
                if done or e is not None:
                    out.append((s, v, e, done))
                    continue
                if isinstance(sub, (ast.Compare,)) or (isinstance(sub, ast.UnaryOp) and isinstance(sub.op, ast.Not)):
                    for s2, b, e2 in self.cond(sub, s, ctx):
                        out.append((s2, C(b) if e2 is None else None, e2, e2 is not None or b != is_and))
                    continue
                for s2, v2, e2 in self.ev(sub, s, ctx):
                    if e2 is not None:
                        out.append((s2, None, e2, True))
                    elif i == len(node.values) - 1:
                        out.append((s2, v2, None, True))
                    else:
                        for s3, b in self.truthy(v2, s2):
                            out.append((s3, v2, None, b != is_and))
            res = out
        return [(s, v, e) for s, v, e, _ in res]

    def ev_UnaryOp(self, node, st, ctx):
        if isinstance(node.op, ast.Not):
            return [(s, C(b) if e is None else None, e) for s, b, e in self.cond(node, st, ctx)]

        def f(s, v):
            if isinstance(node.op, ast.USub):
                if is_num_const(v):
                    return [(s, C(-v[2]), None)]
                if self.is_num(v, s):
                    return [(s, lin_scale(v, -1), None)]
            if v[0] == 'c' and isinstance(node.op, ast.Invert):
                return [(s, C(~v[2]), None)]
            return [(s, ('app', type(node.op).__name__, (v,), self.kind(v, s)), None)]
        return self.bind(self.ev(node.operand, st, ctx), f)

    def ev_Compare(self, node, st, ctx):
        return [(s, C(b) if e is None else None, e) for s, b, e in self.compare(node, st, ctx)]

    def ev_BinOp(self, node, st, ctx):
        out = []
        for s, vs, e in self.evs([node.left, node.right], st, ctx):
            if e is not None:
                out.append((s, None, e))
            else:
                out.extend(self.binop(type(node.op).__name__, vs[0], vs[1], s))
        return out

    def binop(self, op, a, b, st, inplace=False):
        ka, kb = self.kind(a, st), self.kind(b, st)
        num = ('int', 'float', 'num', 'bool')
        if a[0] == 'c' and b[0] == 'c' and not (op == 'Pow' and isinstance(b[2], int) and b[2] > 512):
            try:
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
                     'Div': lambda x, y: x / y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y,
                     'Pow': lambda x, y: x ** y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y,
                     'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y, 'BitXor': lambda x, y: x ^ y}[op]
                r = f(a[2], b[2])
                if isinstance(r, (bool, int, float, str, bytes)) or r is None:
                    return [(st, C(r), None)]
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        if op in ('Add', 'Sub') and ka in num and kb in num:
            return [(st, lin_add(a, b, 1 if op == 'Add' else -1), None)]
        if op in ('Add', 'Sub') and (ka in num and kb == 'any' or kb in num and ka == 'any') and \
                a[0] != 'unk' and b[0] != 'unk':
            return [(st, lin_add(a, b, 1 if op == 'Add' else -1), None)]
        if op == 'Mult' and ka in num and kb in num:
            if is_num_const(a):
                return [(st, lin_scale(b, a[2]), None)]
            if is_num_const(b):
                return [(st, lin_scale(a, b[2]), None)]
        if op == 'Add' and (ka == 'str' or kb == 'str') and {ka, kb} <= {'str', 'any'}:
            return [(st, mk_cat([a, b]), None)]
        if op == 'Mod' and ka == 'str' and self.tok:
            r = strtok.percent(self, a, b, st)
            if r is not None:
                return r
        if op == 'Mod' and ka == 'str':
            return [(st, ('app', 'format', (a, b), 'str'), None)]
        if op == 'Add' and ka == 'tuple' and kb == 'tuple' and a[0] == b[0] == 'tup':
            return [(st, ('tup', a[1] + b[1]), None)]
        if op == 'Add' and ka == 'list' and a[0] == 'ref':
            p = self.parts_of(b, st)
            if kb not in ('list', 'any') and not inplace:
                return [(st, None, self.exc('TypeError'))]
            if p is None:
                st.lose('list concatenation')
                p = ((('unk', 'concat'), S(f'#{st.fresh()}', 'int')),)
            if inplace:
                st.heap[a[1]] = ('list', st.heap[a[1]][1] + tuple(p))
                return [(st, a, None)]
            return [(st, self.new_list(st, st.heap[a[1]][1] + tuple(p)), None)]
        setk = ('set', 'frozenset')
        if op in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and (ka in setk or kb in setk or
                                                           a[0] == 'app' and a[1] == 'keysof'):
            return self.set_op(op, a, b, st, inplace)
        if op == 'Sub' and (ka == 'dict' or kb == 'dict' or ka == 'list' or kb == 'list'):
            if ka == 'list' or kb == 'list' and ka not in ('any',):
                return [(st, None, self.exc('TypeError'))]
        if op == 'BitOr' and ka == 'dict' and a[0] == 'ref':
            ref = a if inplace else st.alloc(st.heap[a[1]])
            return [(s, ref, None) for s in self.dict_update(st, ref, b)]
        if op == 'Mult' and ka == 'list' and a[0] == 'ref':
            o = st.heap[a[1]]
            if len(o[1]) == 1 and o[1][0][1] == ONE and self.is_num(b, st):
                return [(st, self.new_list(st, ((o[1][0][0], b),)), None)]
        if op in ('BitOr',) and (ka == 'type' or kb == 'type'):
            return [(st, ('tup', (a, b)), None)]
        kind = 'int' if ka == kb == 'int' and op in ('FloorDiv', 'Mod', 'Pow', 'LShift', 'RShift', 'Mult', 'BitAnd',
                                                     'BitOr', 'BitXor') else \
            'num' if ka in num and kb in num else 'str' if ka == 'str' and op == 'Mult' else 'any'
        return [(st, ('app', op, (a, b), kind), None)]

    def set_op(self, op, a, b, st, inplace=False):
        pa, pb = self.parts_of(a, st), self.parts_of(b, st)
        if pa is None or pb is None:
            st.lose('set operation')
            return [(st, ('unk', 'set op'), None)]
        live = [(st, [])]
        if op == 'BitOr':
            ref = a if inplace and a[0] == 'ref' else self.new_set(st, pa)
            for e, n in pb:
                self.set_add(st, ref, e, n)
            return [(st, ref, None)]
        for e, n in pa:
            nxt = []
            for s, acc in live:
                if n == ONE:
                    for s2, r in self.member(e, b, s):
                        keep = (not r) if op in ('Sub', 'BitXor') else r
                        nxt.append((s2, acc + [(e, n)] if keep else acc))
                else:
                    r = self.member_peek(e, b, s)
                    if r is None:
                        cnt = S(f'#{s.fresh()}', 'int')
                        s.facts[self.a_lt(n, cnt)] = False
                        nxt.append((s, acc + [(e, cnt)]))
                    else:
                        keep = (not r) if op in ('Sub', 'BitXor') else r
                        nxt.append((s, acc + [(e, n)] if keep else acc))
            live = nxt
        out = []
        for s, acc in live:
            if op == 'BitXor':
                for e, n in pb:
                    r = self.member_peek(e, a, s)
                    if r is None:
                        cnt = S(f'#{s.fresh()}', 'int')
                        acc = acc + [(e, cnt)]
                    elif not r:
                        acc = acc + [(e, n)]
            if inplace and a[0] == 'ref':
                s.heap[a[1]] = ('set', tuple(acc))
                out.append((s, a, None))
            else:
                out.append((s, s.alloc(('set', tuple(acc))), None))
        return out

    def member_peek(self, e, cont, st):
        rs = self.member(e, cont, st.fork())
        vals = {r for _, r in rs}
        return vals.pop() if len(vals) == 1 else None

    def ev_NamedExpr(self, node, st, ctx):
        def f(s, v):
            # a walrus inside a comprehension binds in the enclosing function frame
            fr = ctx.frame
            s.frames[fr][node.target.id] = v
            return [(s, v, None)]
        return self.bind(self.ev(node.value, st, ctx), f)

    def ev_Starred(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def ev_Await(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def ev_Slice(self, node, st, ctx):
        nodes = [n for n in (node.lower, node.upper, node.step)]
        out = []
        for s, vs, e in self.evs([n for n in nodes if n is not None], st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            it = iter(vs)
            out.append((s, ('slice', tuple(next(it) if n is not None else NONE for n in nodes)), None))
        return out

    # ---- attribute / subscript
    def ev_Attribute(self, node, st, ctx):
        return self.bind(self.ev(node.value, st, ctx), lambda s, v: self.getattr(v, node.attr, s))

    def getattr(self, v, name, st):
        """-> [(st, val, exc)]"""
        t = v[0]
        if t == 'mod':
            f = st.frames.get('@' + v[1])
            if f is not None and name in f:
                return [(st, f[name], None)]
            r = self.modattr(v[1], name)
            return [(st, r, None)]
        if t == 'ref':
            o = st.heap[v[1]]
            if o[0] == 'obj':
                d = dict(o[2])
                if name in d:
                    return [(st, d[name], None)]
                r = self.class_attr(o[1], name, v, st)
                if r is not None:
                    return r
                if name in extmodels.METHODS.get(o[1], ()):
                    return [(st, ('extm', v, name), None)]
                if name == '__dict__':
                    return [(st, st.alloc(('dict', tuple((C(k), x, ONE) for k, x in o[2]))), None)]
                if name == '__class__':
                    return [(st, ('cls', o[1]), None)]
                return [(st, None, self.exc('AttributeError', name))]
            return [(st, ('bim', v, name), None)]
        if t == 'cls':
            r = self.class_attr(v[1], name, None, st)
            if r is not None:
                return r
            if name in ('__name__', '__qualname__'):
                return [(st, C(v[1].split(':')[-1]), None)]
            return [(st, ('attr', v, name), None)]
        if t == 'super':
            for b in self.classes[v[1]].bases:
                if b[0] == 'cls':
                    r = self.class_attr(b[1], name, v[2], st)
                    if r is not None:
                        return r
            return [(st, ('bi', 'object.' + name), None)]
        if t == 'bi':
            if v[1] in ('string', 'sys', 'math') and name in EXT_CONST[v[1]]:
                return [(st, C(EXT_CONST[v[1]][name]), None)]
            return [(st, ('bi', f'{v[1]}.{name}'), None)]
        if t == 'exc':
            if name == 'args':
                return [(st, ('tup', v[2]), None)]
            return [(st, ('app', f'!exc.{name}', (), 'any'), None)]
        if t in ('fn', 'bm'):
            f = st.frames.get(f'@fn:{v[1] if t == "fn" else v[2]}')
            if f is not None and name in f:
                return [(st, f[name], None)]
            if name == '__name__':
                f = self.fns[v[1] if t == 'fn' else v[2]]
                return [(st, C(getattr(f.node, 'name', '<lambda>')), None)]
            return [(st, ('attr', v, name), None)]
        key = ('attr', v, name)
        if key in self.rewrite:
            return [(st, self.rewrite[key], None)]
        if key in self.attr_models:
            return [(st, key, None)]
        k = self.kind(v, st)
        if k.startswith('@obj:'):
            r = self.class_attr(k[5:], name, v, st)
            if r is not None:
                return r
            return [(st, key, None)]
        if k in ('str', 'bytes', 'list', 'dict', 'set', 'tuple', 'int', 'float', 'frozenset', 'num', 'bool'):
            if k in ('int', 'bool') and name in ('real', 'imag', 'numerator', 'denominator'):
                return [(st, v, None)]
            kk = {'num': 'float', 'bool': 'int'}.get(k, k)
            if not hasattr(getattr(builtins, kk), name):
                return [(st, None, self.exc('AttributeError', name))]
            return [(st, ('bim', v, name), None)]
        if k == 'NoneType':
            return [(st, None, self.exc('AttributeError', name))]
        if k == 'match':
            return [(st, ('bim', v, name), None)]
        return [(st, key, None)]

    def class_attr(self, key, name, self_v, st):
        ci = self.classes.get(key)
        if ci is None:
            return None
        over = st.frames.get('@cls:' + key)
        if over is not None and name in over:
            return [(st, over[name], None)]
        if name in ci.methods:
            fn, kindm = ci.methods[name]
            if kindm == 'static':
                return [(st, fn, None)]
            if kindm == 'class':
                return [(st, ('bm', ('cls', key), fn[1]), None)]
            if kindm == 'property' and self_v is not None:
                return self.call(('bm', self_v, fn[1]), [], {}, st, None, None)
            if self_v is None:
                return [(st, fn, None)]
            return [(st, ('bm', self_v, fn[1]), None)]
        if name in ci.attrs:
            return [(st, ci.attrs[name], None)]
        for b in ci.bases:
            if b[0] == 'cls':
                r = self.class_attr(b[1], name, self_v, st)
                if r is not None:
                    return r
        return None

    def call_method(self, ref, name, args, st):
        o = st.heap[ref[1]]
        r = self.class_attr(o[1], name, ref, st)
        if r is None:
            return None
        (s, m, e), = r
        return self.call(m, args, {}, s, None, None)

    def ev_Subscript(self, node, st, ctx):
        out = []
        for s, vs, e in self.evs([node.value, node.slice], st, ctx):
            if e is not None:
                out.append((s, None, e))
            else:
                out.extend(self.getitem(vs[0], vs[1], s))
        return out

    def data_index(self, clskey, k):
        ci = self.classes.get(clskey)
        if ci and ci.is_data:
            if k[0] == 'c' and k[1] == 'int':
                try:
                    return ci.fields[k[2]]
                except IndexError:
                    return None
            if k[0] == 'c' and k[1] == 'str':
                return k[2]
        return None

    def getitem(self, c, k, st):
        """-> [(st, val, exc)]"""
        key = ('item', c, k)
        if key in self.rewrite:
            return [(st, self.rewrite[key], None)]
        if c[0] == 'bi' or c[0] == 'cls':        # typing subscripts
            return [(st, c, None)]
        if k[0] == 'slice':
            return self.getslice(c, k, st)
        if c[0] == 'c' and k[0] == 'c':
            try:
                r = c[2][k[2]]
                return [(st, C(r), None)]
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        if self.tok and c[0] == 'cat' and k[0] == 'c' and type(k[2]) is int:
            r = strtok.char_at(self, c, k[2], st)
            if r is not None:
                return [(st, r, None)]
        if c[0] == 'cat' and k == C(0):
            h = c[1][0]
            if h[0] == 'c':
                return [(st, C(h[2][0]), None)]
        if c[0] == 'cat' and k[0] == 'c' and isinstance(k[2], int) and k[2] > 0 and c[1][0][0] == 'c':
            h = c[1][0][2]
            if k[2] < len(h):
                return [(st, C(h[k[2]]), None)]
            if k[2] == len(h):
                p = c[1][1]
                if self.num_text(p, st):
                    return [(st, ('app', 'numchar', (p,), 'str'), None)]
                if len(c[1]) == 2:
                    return self.getitem(p, C(0), st)
        if c[0] == 'ref':
            o = st.heap[c[1]]
            if o[0] == 'dict':
                if self.kind(k, st) in ('list', 'dict', 'set'):
                    return [(st, None, self.exc('TypeError'))]
                out = []
                for s, i in self.dict_find(c, k, st):
                    if i is None and c[1] in s.missing:
                        for s2, v, e in self.call(s.missing[c[1]], [], {}, s, None, None):
                            out += [(s3, v, None) for s3 in self.dict_set(s2, c, k, v)] if e is None else [(s2, None, e)]
                    elif i is None:
                        out.append((s, None, self.exc('KeyError', k)))
                    else:
                        out.append((s, s.heap[c[1]][1][i][1], None))
                return out
            if o[0] == 'obj':
                f = self.data_index(o[1], k)
                if f is not None:
                    return self.getattr(c, f, st)
                r = self.call_method(c, '__getitem__', [k], st)
                if r is not None:
                    return r
                st.lose('subscript of object')
                return [(st, ('unk', 'subscript'), None)]
            if o[0] == 'list' or o[0] == 'iter':
                return self.list_get(o[1], k, st)
            return [(st, None, self.exc('TypeError'))]
        if c[0] == 'tup':
            return self.list_get(tuple((e, ONE) for e in c[1]), k, st)
        kc = self.kind(c, st)
        if kc in ('int', 'float', 'bool', 'NoneType', 'num', 'set'):
            return [(st, None, self.exc('TypeError'))]
        if kc == 'dict':
            out = []
            for s, r in self.split(st, ('in', k, c)):
                out.append((s, key, None) if r else (s, None, self.exc('KeyError', k)))
            return out
        if kc in ('str', 'bytes'):
            out = []
            if k[0] == 'c' and isinstance(k[2], int):
                need = C(k[2] if k[2] >= 0 else -k[2] - 1)
                for s, r in self.split(st, self.a_lt(need, self.len_of(c, st))):
                    out.append((s, ('app', 'charat', (c, k), 'str' if kc == 'str' else 'int'), None) if r else
                               (s, None, self.exc('IndexError')))
                return out
            return [(st, ('app', 'charat', (c, k), 'str' if kc == 'str' else 'int'), None)]
        return [(st, key, None)]

    def list_get(self, parts, k, st):
        if self.kind(k, st) in ('str', 'NoneType', 'list', 'dict', 'float'):
            return [(st, None, self.exc('TypeError'))]
        out = []
        neg = k[0] == 'c' and isinstance(k[2], int) and k[2] < 0
        seq = list(parts)
        if neg:
            seq = list(reversed(seq))
            k = C(-k[2] - 1)
        live = [(st, C(0))]
        for e, n in seq:
            nxt = []
            for s, pre in live:
                # pre <= k here;  k < pre+n -> element e
                for s2, r in self.split(s, self.a_lt(k, lin_add(pre, n))):
                    if r:
                        out.append((s2, e, None))
                    else:
                        nxt.append((s2, lin_add(pre, n)))
            live = nxt
        for s, pre in live:
            out.append((s, None, self.exc('IndexError')))
        return out

    def getslice(self, c, k, st):
        lo, hi, step = k[1]
        if c[0] == 'c' and all(x[0] == 'c' for x in k[1]):
            try:
                return [(st, C(c[2][lo[2]:hi[2]:step[2]]), None)]
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        if self.tok and self.kind(c, st) == 'str' and step in (NONE, ONE):
            r = strtok.slice_(self, c, lo, hi, st)
            if r is not None:
                return [(st, r, None)]
        if c[0] == 'cat':
            if lo[0] == 'c' and isinstance(lo[2], int) and lo[2] >= 0 and hi == NONE and step == NONE:
                h = c[1][0]
                if h[0] == 'c' and len(h[2]) >= lo[2]:
                    return [(st, mk_cat([C(h[2][lo[2]:])] + list(c[1][1:])), None)]
            if hi[0] == 'c' and isinstance(hi[2], int) and hi[2] < 0 and step == NONE and lo in (NONE, C(0)):
                h = c[1][-1]
                if h[0] == 'c' and len(h[2]) >= -hi[2]:
                    return [(st, mk_cat(list(c[1][:-1]) + [C(h[2][:hi[2]])]), None)]
            if hi[0] == 'c' and isinstance(hi[2], int) and hi[2] > 0 and step == NONE:
                lov = lo[2] if lo[0] == 'c' and isinstance(lo[2], int) else 0 if lo == NONE else None
                h = c[1][0]
                if lov is not None and h[0] == 'c' and len(h[2]) >= hi[2]:
                    return [(st, C(h[2][lov:hi[2]]), None)]
                if lov is not None and h[0] == 'c' and lov >= len(h[2]) and step in (NONE, ONE):
                    rest = mk_cat(list(c[1][1:]))
                    if lov == len(h[2]) and hi[2] == lov + 1 and self.num_text(c[1][1], st):
                        return [(st, ('app', 'numchar', (c[1][1],), 'str'), None)]
                    return self.getslice(rest, ('slice', (C(lov - len(h[2])), C(hi[2] - len(h[2])), NONE)), st)
        if c[0] == 'ref' and st.heap[c[1]][0] == 'obj':
            o = st.heap[c[1]]
            ci = self.classes.get(o[1])
            if ci and ci.is_data and all(x[0] == 'c' for x in k[1]):
                names = ci.fields[lo[2]:hi[2]:step[2]]
                d = dict(o[2])
                return [(st, self.new_list(st, tuple((d.get(f, NONE), ONE) for f in names)), None)]
        parts = self.parts_of(c, st) if c[0] in ('ref', 'tup') else None
        if parts is not None and c[0] == 'tup' and all(x[0] == 'c' for x in k[1]):
            return [(st, ('tup', c[1][lo[2]:hi[2]:step[2]]), None)]
        if parts is not None and all(n == ONE for _, n in parts) and all(x[0] == 'c' for x in k[1]):
            return [(st, self.new_list(st, parts[lo[2]:hi[2]:step[2]]), None)]
        if parts is not None and step in (NONE, ONE):
            if hi == NONE and lo == NONE:
                return [(st, self.new_list(st, parts), None)]
            # a prefix / suffix delimited by a linear index
            if hi == NONE:
                return self.drop_prefix(parts, lo, st)
            if hi == C(-1) and lo in (NONE, C(0)) and parts and parts[-1][1] == ONE:
                return [(st, self.new_list(st, parts[:-1]), None)]
            if lo in (NONE, C(0)):
                r = self.take_prefix(parts, hi, st)
                if r is not None:
                    return r
        k0 = self.kind(c, st)
        if k0 in ('str', 'bytes'):
            if c[0] == 'c' and not c[2] or lo in (NONE, C(0)) and hi == NONE and step in (NONE, ONE):
                return [(st, c, None)]
            return [(st, ('app', 'slice', (c, lo, hi, step), k0), None)]
        if k0 in ('list', 'tuple'):
            n = S(f'#{st.fresh()}', 'int')
            if parts:
                return [(st, self.new_list(st, tuple((e, S(f'#{st.fresh()}', 'int')) for e, _ in parts)), None)]
            return [(st, self.new_list(st, ((('unk', 'slice'), n),)), None)]
        if k0 in ('int', 'float', 'NoneType', 'dict', 'set', 'bool'):
            return [(st, None, self.exc('TypeError'))]
        return [(st, ('app', 'slice', (c, lo, hi, step), k0), None)]

    def drop_prefix(self, parts, lo, st):
        out = []
        live = [(st, C(0), False, [])]
        if lo[0] == 'c' and isinstance(lo[2], int) and lo[2] < 0:
            return [(st, self.new_list(st, tuple((e, S(f'#{st.fresh()}', 'int')) for e, _ in parts)), None)]
        for e, n in parts:
            nxt = []
            for s, pre, started, acc in live:
                if started:
                    nxt.append((s, pre, True, acc + [(e, n)]))
                    continue
                end = lin_add(pre, n)
                # end <= lo : dropped ; pre >= lo : kept whole ; otherwise split
                for s2, r in self.split(s, self.a_lt(lo, end)):
                    if not r:
                        nxt.append((s2, end, False, acc))
                    else:
                        for s3, r3 in self.split(s2, self.a_lt(pre, lo)):
                            if not r3:
                                nxt.append((s3, end, True, acc + [(e, n)]))
                            else:
                                rest = lin_add(end, lo, -1)
                                nxt.append((s3, end, True, acc + [(e, rest)]))
            live = nxt
        for s, pre, started, acc in live:
            out.append((s, self.new_list(s, acc), None))
        return out

    def take_prefix(self, parts, hi, st):
        if hi[0] == 'c' and isinstance(hi[2], int) and hi[2] < 0:
            return None
        out = []
        live = [(st, C(0), False, [])]
        for e, n in parts:
            nxt = []
            for s, pre, done, acc in live:
                if done:
                    nxt.append((s, pre, True, acc))
                    continue
                end = lin_add(pre, n)
                for s2, r in self.split(s, self.a_lt(hi, end)):
                    if not r:
                        nxt.append((s2, end, False, acc + [(e, n)]))
                    else:
                        for s3, r3 in self.split(s2, self.a_lt(pre, hi)):
                            nxt.append((s3, end, True, acc + ([(e, lin_add(hi, pre, -1))] if r3 else [])))
            live = nxt
        for s, pre, done, acc in live:
            out.append((s, self.new_list(s, acc), None))
        return out

    # ---- comprehensions
    def ev_ListComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'list')

    def ev_GeneratorExp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'iter')

    def ev_SetComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'set')

    def ev_DictComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'dict')

    def sub_ctx(self, st, ctx, qual=None):
        fid = f'f{st.fresh()}'
        st.frames[fid] = {}
        parents = (() if ctx.frame.startswith('@') and ctx.frame not in st.frames else (ctx.frame,)) + tuple(ctx.parents)
        return Ctx(ctx.mod, fid, parents, qual or ctx.qual, ctx.cls), fid

    def comp(self, node, st, ctx, kind):
        ref = st.alloc(('dict', ()) if kind == 'dict' else ('list' if kind == 'iter' else kind, ()))
        sub, fid = self.sub_ctx(st, ctx)

        def leaf(s):
            if kind == 'dict':
                out = []
                for s2, vs, e in self.evs([node.key, node.value], s, sub):
                    if e is not None:
                        out.append(('exc', s2, e))
                    else:
                        out.extend(('next', s3, None) for s3 in self.dict_set(s2, ref, vs[0], vs[1]))
                return out
            out = []
            for s2, v, e in self.ev(node.elt, s, sub):
                if e is not None:
                    out.append(('exc', s2, e))
                elif kind == 'set':
                    self.set_add(s2, ref, v)
                    out.append(('next', s2, None))
                else:
                    o = s2.heap[ref[1]]
                    s2.heap[ref[1]] = (o[0], o[1] + ((v, ONE),))
                    out.append(('next', s2, None))
            return out

        outs = self.comp_loop(node.generators, 0, st, sub, leaf)
        res = []
        for k, s, v in outs:
            s.frames.pop(fid, None) if not self.captures(node) else None
            if k == 'exc':
                res.append((s, None, v))
            else:
                if kind == 'iter':
                    o = s.heap[ref[1]]
                    s.heap[ref[1]] = ('iter', o[1])
                res.append((s, ref, None))
        return res

    def captures(self, node):
        r = getattr(node, '_captures', None)
        if r is None:
            r = any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in ast.walk(node))
            node._captures = r
        return r

    def comp_loop(self, gens, i, st, ctx, leaf):
        if i == len(gens):
            return leaf(st)
        g = gens[i]

        def body(s, elem):
            out = []
            for s2, e in self.assign(g.target, elem, s, ctx):
                if e is not None:
                    out.append(('exc', s2, e))
                    continue
                live = [s2]
                for cnd in g.ifs:
                    nxt = []
                    for s3 in live:
                        for s4, b, e4 in self.cond(cnd, s3, ctx):
                            if e4 is not None:
                                out.append(('exc', s4, e4))
                            elif b:
                                nxt.append(s4)
                            else:
                                out.append(('next', s4, None))
                    live = nxt
                for s3 in live:
                    out.extend(self.comp_loop(gens, i + 1, s3, ctx, leaf))
            return out

        res = []
        for s, it, e in self.ev(g.iter, st, ctx):
            if e is not None:
                res.append(('exc', s, e))
            else:
                res.extend(self.loop_over(it, s, body, None))
        return res

    # ================================================================ assignment
    def assign(self, target, v, st, ctx):
        """-> [(state, exc)]"""
        if isinstance(target, ast.Name):
            fr = ctx.frame
            if ctx.locals is not None and target.id not in ctx.locals:
                for p in ctx.parents:
                    if p in st.frames and target.id in st.frames[p]:
                        fr = p
                        break
                else:
                    fr = '@' + ctx.mod.name         # declared global
            if fr not in st.frames:
                st.frames[fr] = {}
            st.frames[fr][target.id] = v
            return [(st, None)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, ctx)
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.assign_seq(target.elts, v, st, ctx)
        if isinstance(target, ast.Attribute):
            out = []
            for s, o, e in self.ev(target.value, st, ctx):
                if e is not None:
                    out.append((s, e))
                else:
                    self.setattr(o, target.attr, v, s)
                    out.append((s, None))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, vs, e in self.evs([target.value, target.slice], st, ctx):
                if e is not None:
                    out.append((s, e))
                else:
                    out.extend(self.setitem(vs[0], vs[1], v, s))
            return out
        st.lose('assignment target')
        return [(st, None)]

    def assign_seq(self, elts, v, st, ctx):
        parts = self.parts_of(v, st)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if parts is not None and all(m == ONE for _, m in parts):
            vals = [e for e, _ in parts]
            if star:
                i = star[0]
                if len(vals) < n - 1:
                    return [(st, self.exc('ValueError'))]
                tail = n - i - 1
                mid = vals[i:len(vals) - tail]
                vals = vals[:i] + [self.new_list(st, tuple((x, ONE) for x in mid))] + (vals[len(vals) - tail:] if tail else [])
            elif len(vals) != n:
                return [(st, self.exc('ValueError'))]
        elif v[0] in ('ref',):
            st.lose('unpacking')
            vals = [('unk', 'unpack')] * n
        else:
            k = self.kind(v, st)
            if k in ('int', 'float', 'NoneType', 'bool'):
                return [(st, self.exc('TypeError'))]
            vals = [('item', v, C(i)) for i in range(n)]
        live = [(st, None)]
        for t, x in zip(elts, vals):
            nxt = []
            for s, e in live:
                if e is not None:
                    nxt.append((s, e))
                else:
                    nxt.extend(self.assign(t, x, s, ctx))
            live = nxt
        return live

    def setattr(self, o, name, v, st):
        if o[0] == 'ref' and st.heap[o[1]][0] == 'obj':
            h = st.heap[o[1]]
            d = dict(h[2])
            d[name] = v
            st.heap[o[1]] = ('obj', h[1], tuple(d.items()))
            return
        if o[0] in ('s', 'attr', 'item', 'app'):
            st.event('setattr', o, name, v)
            st.lose(f'attribute {name} of opaque value assigned')
            return
        if o[0] in ('fn', 'cls', 'mod'):
            st.event('setattr', o, name, v)
            k = f'@fn:{o[1]}' if o[0] == 'fn' else f'@cls:{o[1]}' if o[0] == 'cls' else '@' + o[1]
            st.frames[k] = dict(st.frames.get(k, {}), **{name: v})
            return
        st.lose('attribute assignment')

    def setitem(self, c, k, v, st):
        """-> [(st, exc)]"""
        if c[0] == 'ref':
            o = st.heap[c[1]]
            if o[0] == 'dict':
                return [(s, None) for s in self.dict_set(st, c, k, v)]
            if o[0] == 'obj':
                f = self.data_index(o[1], k)
                if f is not None:
                    self.setattr(c, f, v, st)
                    return [(st, None)]
            if o[0] == 'list':
                if k[0] == 'c' and isinstance(k[2], int) and all(n == ONE for _, n in o[1]):
                    p = list(o[1])
                    try:
                        p[k[2]] = (v, ONE)
                    except IndexError:
                        return [(st, self.exc('IndexError'))]
                    st.heap[c[1]] = ('list', tuple(p))
                    return [(st, None)]
                # weak update
                out = []
                pre = C(0)
                idx = None
                for i, (e, n) in enumerate(o[1]):
                    if n == ONE and self.decide(self.a_eq(pre, k), st) is True:
                        idx = i
                        break
                    pre = lin_add(pre, n)
                if idx is not None:
                    p = list(o[1])
                    p[idx] = (v, ONE)
                    st.heap[c[1]] = ('list', tuple(p))
                    return [(st, None)]
                st.heap[c[1]] = ('list', tuple(
                    x for e, n in o[1] for x in (((e, n), (v, S(f'#{st.fresh()}', 'int'))) if n != ONE
                                                 else ((e, n),))))
                return [(st, None)]
        st.event('setitem', c, k, v)
        if c[0] not in ('s', 'item', 'attr', 'app'):
            st.lose('item assignment')
        else:
            st.lose('item of opaque value assigned')
        return [(st, None)]

    # ================================================================ statements
    # -> list of (kind, state, value): kind in next / ret / exc / break / continue
    def block(self, stmts, st, ctx):
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.stmt(s, x, ctx):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = self.dedupe(nxt)
            if not live:
                break
        out.extend(('next', s, None) for s in live)
        return out

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = (repr(sorted(s.facts.items(), key=repr)), repr(sorted(s.frames.items(), key=repr)),
                 repr(sorted(s.heap.items(), key=repr)) if len(states) < 200 else id(s), repr(s.events), s.lost) \
                if len(states) > 12 else id(s)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def stmt(self, node, st, ctx):
        self.tick()
        m = getattr(self, 'st_' + type(node).__name__, None)
        if m is None:
            st.lose(f'statement {type(node).__name__}')
            return [('next', st, None)]
        outs = m(node, st, ctx)
        for o in outs:
            if o[0] == 'exc':
                if o[1].xloc is None:
                    o[1].xloc = (ctx.qual, node.lineno)
                    o[1].step(ctx.qual, node.lineno, 'raises ' + str(o[2][1]))
            elif o[0] == 'ret' and isinstance(node, ast.Return):
                o[1].step(ctx.qual, node.lineno, 'returns')
        return outs

    def st_Pass(self, node, st, ctx):
        return [('next', st, None)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, node, st, ctx):
        g = {}
        self._import(ctx.mod, node, g)
        st.frames.setdefault(ctx.frame, {}).update(g)
        return [('next', st, None)]

    st_ImportFrom = st_Import

    def st_Expr(self, node, st, ctx):
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(node.value, st, ctx)
        return [('exc', s, e) if e is not None else ('next', s, None) for s, v, e in self.ev(node.value, st, ctx)]

    def do_yield(self, node, st, ctx):
        out = []
        ref = st.frames[ctx.frame].get('$yield')
        if ref is None:
            st.lose('yield')
            return [('next', st, None)]
        if node.value is None:
            o = st.heap[ref[1]]
            st.heap[ref[1]] = ('list', o[1] + ((NONE, ONE),))
            return [('next', st, None)]
        for s, v, e in self.ev(node.value, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            o = s.heap[ref[1]]
            if isinstance(node, ast.YieldFrom):
                p = self.parts_of(v, s) or ((('unk', 'yield from'), S(f'#{s.fresh()}', 'int')),)
                s.heap[ref[1]] = ('list', o[1] + tuple(p))
            else:
                s.heap[ref[1]] = ('list', o[1] + ((v, ONE),))
            out.append(('next', s, None))
        return out

    def st_Assign(self, node, st, ctx):
        out = []
        for s, v, e in self.ev(node.value, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            live = [(s, None)]
            for t in node.targets:
                nxt = []
                for s1, e1 in live:
                    if e1 is None:
                        nxt.extend(self.assign(t, v, s1, ctx))
                    else:
                        nxt.append((s1, e1))
                live = nxt
            out.extend(('next', s1, None) if e1 is None else ('exc', s1, e1) for s1, e1 in live)
        return out

    def st_AnnAssign(self, node, st, ctx):
        if node.value is None:
            return [('next', st, None)]
        out = []
        for s, v, e in self.ev(node.value, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
            else:
                out.extend(('next', s1, None) if e1 is None else ('exc', s1, e1)
                           for s1, e1 in self.assign(node.target, v, s, ctx))
        return out

    def st_AugAssign(self, node, st, ctx):
        load = ast.copy_location({ast.Name: lambda t: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}
                                 [type(node.target)](node.target), node)
        ast.fix_missing_locations(load)
        out = []
        for s, vs, e in self.evs([load, node.value], st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            for s2, r, e2 in self.binop(type(node.op).__name__, vs[0], vs[1], s, inplace=True):
                if e2 is not None:
                    out.append(('exc', s2, e2))
                    continue
                out.extend(('next', s3, None) if e3 is None else ('exc', s3, e3)
                           for s3, e3 in self.assign(node.target, r, s2, ctx))
        return out

    def st_Return(self, node, st, ctx):
        if node.value is None:
            return [('ret', st, NONE)]
        return [('exc', s, e) if e is not None else ('ret', s, v) for s, v, e in self.ev(node.value, st, ctx)]

    def st_If(self, node, st, ctx):
        out = []
        for s, b, e in self.cond(node.test, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
            else:
                s.step(ctx.qual, node.lineno, 'condition ' + ('true' if b else 'false'))
                out.extend(self.block(node.body if b else node.orelse, s, ctx))
        return out

    def st_Assert(self, node, st, ctx):
        out = []
        for s, b, e in self.cond(node.test, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
            elif b:
                out.append(('next', s, None))
            else:
                out.append(('exc', s, self.exc('AssertionError')))
        return out

    def st_Raise(self, node, st, ctx):
        if node.exc is None:
            cur = st.frames.get(ctx.frame, {}).get('$exc')
            return [('exc', st, cur or self.exc('Exception'))]
        out = []
        for s, v, e in self.ev(node.exc, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
            elif v[0] == 'exc':
                out.append(('exc', s, v))
            elif v[0] == 'bi':
                out.append(('exc', s, self.exc(v[1])))
            elif v[0] == 'cls':
                out.append(('exc', s, self.exc(v[1])))
            else:
                out.append(('exc', s, self.exc('Exception')))
        return out

    def handler_names(self, node, st, ctx):
        if node is None:
            return ['BaseException']
        names = []
        for s, v, e in self.ev(node, st.fork(), ctx):
            vs = v[1] if v and v[0] == 'tup' else (v,)
            for x in vs:
                if x and x[0] in ('bi', 'cls'):
                    names.append(x[1])
                elif x and x[0] == 'attr':
                    names.append(x[2])
        return names

    def st_Try(self, node, st, ctx):
        out = []
        first = self.block(node.body, st, ctx)
        after = []
        for k, s, v in first:
            if k == 'exc':
                handled = False
                for h in node.handlers:
                    if any(self.exc_matches(v[1], n) for n in self.handler_names(h.type, s, ctx)):
                        handled = True
                        s.xloc = None
                        fr = s.frames.setdefault(ctx.frame, {})
                        prev = fr.get('$exc')
                        fr['$exc'] = v
                        if h.name:
                            fr[h.name] = v
                        for o in self.block(h.body, s, ctx):
                            f2 = o[1].frames.get(ctx.frame)
                            if f2 is not None:
                                if prev is None:
                                    f2.pop('$exc', None)
                                else:
                                    f2['$exc'] = prev
                                if h.name and o[0] != 'exc':
                                    f2.pop(h.name, None)
                            after.append(o)
                        break
                if not handled:
                    after.append((k, s, v))
            elif k == 'next' and node.orelse:
                after.extend(self.block(node.orelse, s, ctx))
            else:
                after.append((k, s, v))
        if not node.finalbody:
            return after
        for k, s, v in after:
            for o in self.block(node.finalbody, s, ctx):
                out.append((k, o[1], v) if o[0] == 'next' else o)
        return out

    st_TryStar = st_Try

    def st_With(self, node, st, ctx):
        return self.with_items(node.items, 0, node.body, st, ctx)

    st_AsyncWith = st_With

    def with_items(self, items, i, body, st, ctx):
        if i == len(items):
            return self.block(body, st, ctx)
        item = items[i]
        out = []
        for s, v, e in self.ev(item.context_expr, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            if v[0] == 'app' and v[1] == '!suppress':
                s.lose('contextlib.suppress')
            managed = v[0] == 'ref' and s.heap[v[1]][0] == 'obj'
            entered = self.dunder(v, '__enter__', [], s) if managed else [(s, v, None)]
            if entered is None:
                out.append(('exc', s, self.exc('TypeError')))
                continue
            for s2, cm, e2 in entered:
                if e2 is not None:
                    out.append(('exc', s2, e2))
                    continue
                live = [(s2, None)]
                if item.optional_vars is not None:
                    live = self.assign(item.optional_vars, cm, s2, ctx)
                for s3, e3 in live:
                    if e3 is not None:
                        out.append(('exc', s3, e3))
                        continue
                    for k, s4, x in self.with_items(items, i + 1, body, s3, ctx):
                        if not managed:
                            out.append((k, s4, x))
                            continue
                        a = [NONE] * 3 if k != 'exc' else [('app', 'type', (x,), 'type'), x, S('traceback')]
                        for s5, r, e5 in self.dunder(v, '__exit__', a, s4) or [(s4, NONE, None)]:
                            if e5 is not None:
                                out.append(('exc', s5, e5))
                            elif k == 'exc':
                                for s6, t in self.truthy(r, s5):
                                    out.append(('next', s6, None) if t else ('exc', s6, x))
                            else:
                                out.append((k, s5, x))
        return out

    def dunder(self, v, name, args, st):
        """call of a special method of an object, None when its class has none"""
        o = st.heap[v[1]]
        if name in extmodels.METHODS.get(o[1], ()):
            return extmodels.METHODS[o[1]][name](self, st, v, list(args), {})
        return self.call_method(v, name, list(args), st)

    def st_Delete(self, node, st, ctx):
        live = [(st, None)]
        for t in node.targets:
            nxt = []
            for s, e in live:
                if e is not None:
                    nxt.append((s, e))
                elif isinstance(t, ast.Name):
                    s.frames.get(ctx.frame, {}).pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s2, vs, e2 in self.evs([t.value, t.slice], s, ctx):
                        if e2 is not None:
                            nxt.append((s2, e2))
                        else:
                            nxt.extend((s3, e3) for s3, v3, e3 in self.container_pop(vs[0], vs[1], None, s2))
                else:
                    s.lose('del')
                    nxt.append((s, None))
            live = nxt
        return [('next', s, None) if e is None else ('exc', s, e) for s, e in live]

    def st_FunctionDef(self, node, st, ctx):
        out = []
        for s, f, e in self.make_fn(node, st, ctx, f'{ctx.qual}.{node.name}'):
            if e is not None:
                out.append(('exc', s, e))
                continue
            s.frames.setdefault(ctx.frame, {})[node.name] = f
            out.append(('next', s, None))
        return out

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, node, st, ctx, outer=None):
        key = f'{outer.key}.{node.name}' if outer else f'{ctx.mod.name}:{node.name}'
        bases = []
        for b in node.bases:
            for s, v, e in self.ev(b, st, ctx):
                st = s
                if v is not None:
                    bases.append(v)
        ci = ClsInfo(key, node, ctx.mod, bases)
        self.classes[key] = ci
        sub = Ctx(ctx.mod, ctx.frame, ctx.parents, key, key)
        for b in bases:
            if b[0] == 'cls' and b[1] in self.classes:
                ci.fields.extend(f for f in self.classes[b[1]].fields if self.classes[b[1]].is_data)
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.id if isinstance(n, ast.Name) else getattr(n, 'attr', '')
            if nm == 'dataclass':
                ci.is_data = True
        for stt in node.body:
            if isinstance(stt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kindm = 'inst'
                for d in stt.decorator_list:
                    nm = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')
                    kindm = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property',
                             'cached_property': 'property'}.get(nm, kindm)
                for s, f, e in self.make_fn(stt, st, sub, f'{key}.{stt.name}'):
                    ci.methods[stt.name] = (f, kindm)
                    st = s
            elif isinstance(stt, ast.ClassDef):
                for k, s, v in self.st_ClassDef(stt, st, ctx, ci):
                    st = s
                ci.attrs[stt.name] = ('cls', f'{key}.{stt.name}')
            elif isinstance(stt, ast.AnnAssign) and isinstance(stt.target, ast.Name):
                if ci.is_data and stt.target.id not in ci.fields:
                    ci.fields.append(stt.target.id)
                if stt.value is not None:
                    for s, v, e in self.ev(stt.value, st, ctx):
                        st = s
                        if e is None:
                            ci.attrs[stt.target.id] = v
            elif isinstance(stt, ast.Assign):
                for t in stt.targets:
                    if isinstance(t, ast.Name):
                        for s, v, e in self.ev(stt.value, st, ctx):
                            st = s
                            if e is None:
                                ci.attrs[t.id] = v
        if outer is None:
            st.frames.setdefault(ctx.frame, {})[node.name] = ('cls', key)
        return [('next', st, None)]

    def st_Break(self, node, st, ctx):
        return [('break', st, None)]

    def st_Continue(self, node, st, ctx):
        return [('continue', st, None)]

    def st_Match(self, node, st, ctx):
        out = []
        for s, subj, e in self.ev(node.subject, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            live = [s]
            for case in node.cases:
                nxt = []
                for s1 in live:
                    for s2, ok, e2 in self.pattern(case.pattern, subj, s1, ctx):
                        if e2 is not None:
                            out.append(('exc', s2, e2))
                        elif not ok:
                            nxt.append(s2)
                        elif case.guard is not None:
                            for s3, b, e3 in self.cond(case.guard, s2, ctx):
                                if e3 is not None:
                                    out.append(('exc', s3, e3))
                                elif b:
                                    out.extend(self.block(case.body, s3, ctx))
                                else:
                                    nxt.append(s3)
                        else:
                            out.extend(self.block(case.body, s2, ctx))
                live = nxt
            out.extend(('next', s1, None) for s1 in live)
        return out

    def pattern(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c, e in self.ev(p.value, st, ctx):
                out.extend((s2, r, None) for s2, r, _ in self.cmp('eq', v, c, s))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.cmp('is', v, C(p.value), st)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.frames[ctx.frame][p.name] = v
                return [(st, True, None)]
            out = []
            for s, r, e in self.pattern(p.pattern, v, st, ctx):
                if r and p.name:
                    s.frames[ctx.frame][p.name] = v
                out.append((s, r, e))
            return out
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for sub in p.patterns:
                nxt = []
                for s in live:
                    for s2, r, e in self.pattern(sub, v, s, ctx):
                        (out if r or e is not None else nxt).append((s2, r, e) if r or e is not None else s2)
                live = nxt
            return out + [(s, False, None) for s in live]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for s, c, e in self.ev(p.cls, st, ctx):
                out.extend((s2, r, None) for s2, r in self.isinstance(v, c, s))
            return out
        st.lose('match pattern')
        s2 = st.fork()
        return [(st, True, None), (s2, False, None)]

    # ---- loops
    def st_For(self, node, st, ctx):
        def body(s, elem):
            out = []
            for s2, e in self.assign(node.target, elem, s, ctx):
                if e is not None:
                    out.append(('exc', s2, e))
                else:
                    out.extend(self.block(node.body, s2, ctx))
            return out

        out = []
        for s, it, e in self.ev(node.iter, st, ctx):
            if e is not None:
                out.append(('exc', s, e))
                continue
            for k, s2, v in self.loop_over(it, s, body, node):
                if k == 'next':
                    if node.orelse:
                        out.extend(self.block(node.orelse, s2, ctx))
                    else:
                        out.append(('next', s2, None))
                elif k == 'break':
                    out.append(('next', s2, None))
                else:
                    out.append((k, s2, v))
        return out

    st_AsyncFor = st_For

    def st_While(self, node, st, ctx):
        out = []
        live = [st]
        for rnd in range(6):
            nxt = []
            for s in live:
                for s2, b, e in self.cond(node.test, s, ctx):
                    if e is not None:
                        out.append(('exc', s2, e))
                    elif not b:
                        out.extend(self.block(node.orelse, s2, ctx) if node.orelse else [('next', s2, None)])
                    else:
                        before = s2.fork()
                        for k, s3, v in self.block(node.body, s2, ctx):
                            if k in ('next', 'continue'):
                                nxt.append(self.drain(before, s3))
                            elif k == 'break':
                                out.append(('next', s3, None))
                            else:
                                out.append((k, s3, v))
            live = nxt
            if not live:
                return out
        # widen what the loop assigns or mutates, then leave
        for s in live[:1]:
            s.lose('while loop not summarised')
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.frames[ctx.frame][n.id] = ('unk', f'{n.id} after while')
            mut = {n.func.value.id for n in ast.walk(node) if isinstance(n, ast.Call)
                   and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
            for name in mut:
                v = self.lookup(name, s, ctx)
                if v is not None and v[0] == 'ref' and s.heap[v[1]][0] == 'list':
                    o = s.heap[v[1]]
                    s.heap[v[1]] = ('list', tuple((e, S(f'#{s.fresh()}', 'int')) for e, _ in o[1]))
            out.append(('next', s, None))
        return out

    def drain(self, s0, s1):
        """a while iteration that only consumed one of the last n like elements of a list: it consumes all of them"""
        ef = self.effects(s0, s1)
        if len(ef) != 1:
            return s1
        (loc, x), = ef.items()
        if loc[0] != 'heap' or x[0] != 'set' or x[1][0] != 'list':
            return s1
        p0, p1 = s0.heap[loc[1]][1], x[1][1]
        if p0 and len(p0) == len(p1) and p0[:-1] == p1[:-1] and p0[-1][0] == p1[-1][0] and \
                p0[-1][1] != ONE and lin_add(p0[-1][1], p1[-1][1], -1) == ONE:
            s1.heap[loc[1]] = ('list', p0[:-1])
        return s1

    def loop_over(self, it, st, body, node):
        """-> [(kind, state, val)] ; 'next' means the iterable was exhausted"""
        k = self.kind(it, st)
        if it[0] == 'ref' and st.heap[it[1]][0] == 'obj':
            r = self.call_method(it, '__iter__', [], st)
            if r is not None:
                out = []
                for s, v, e in r:
                    out.extend([('exc', s, e)] if e is not None else self.loop_over(v, s, body, node))
                return out
        parts = self.parts_of(it, st)
        if parts is None:
            if k in ('int', 'float', 'bool', 'NoneType', 'function', 'num'):
                return [('exc', st, self.exc('TypeError'))]
            st.lose('iteration over unknown value')
            parts = ((('unk', 'element'), S(f'#{st.fresh()}', 'int')),)
        if it[0] == 'ref' and st.heap[it[1]][0] == 'iter':
            st.heap[it[1]] = ('iter', ())
        out = []
        live = [st]
        for e, n in parts:
            nxt = []
            for s in live:
                outs = body(s, e) if n == ONE else self.many(s, e, n, body)
                for kk, s2, v in outs:
                    if kk in ('next', 'continue'):
                        nxt.append(s2)
                    else:
                        out.append((kk, s2, v))
            live = self.dedupe(nxt)
        out.extend(('next', s, None) for s in live)
        return out

    def many(self, st, e, n, body, depth=0):
        pos = self.decide(self.a_lt(C(0), n), st)
        out = []
        if pos is not True:
            s0 = st.fork()
            if pos is None:
                self.assume(s0, self.a_lt(C(0), n), False)
            out.append(('next', s0, None))
            if pos is False:
                return out
        base = st
        if pos is None:
            self.assume(base, self.a_lt(C(0), n), True)
        outs = body(base.fork(), e)
        nexts = [s for k, s, v in outs if k in ('next', 'continue')]
        early = [(k, s, v) for k, s, v in outs if k not in ('next', 'continue')]
        out.extend(early)
        if not nexts:
            return out
        effs, classes = [], []
        for s in nexts:
            ef = self.effects(base, s)
            for i, c in enumerate(effs):
                if self.same_eff(c, ef, base, s):
                    classes[i].append(s)
                    break
            else:
                effs.append(ef)
                classes.append([s])
        accs = self.accelerate(base, classes, effs, n)
        # later iterations: collect exits, check the effects are the ones already summarised
        known = list(effs)
        for a in accs[:6]:
            probe = a.fork()
            if n[0] == 's':
                pass
            outs2 = body(probe, e)
            for k, s, v in outs2:
                if k in ('next', 'continue'):
                    ef = self.effects(a, s)
                    if not any(self.same_later(c, ef, a, s) for c in known):
                        if DEBUG:
                            print('LOOPCARRIED', [(c, x) for c, x in ef.items()], 'KNOWN', known)
                        for x in accs:
                            x.lose('loop-carried state not summarised')
                        known.append(ef)
                else:
                    # an exit on a later iteration is only possible with at least two elements
                    r = self.decide(self.a_lt(C(1), n), s)
                    if r is False:
                        continue
                    if r is None:
                        self.assume(s, self.a_lt(C(1), n), True)
                    out.append((k, s, v))
        out.extend(('next', a, None) for a in accs)
        return out

    def same_later(self, known, ef, a, s):
        """the effect of a later iteration is the known one, up to assignments that change nothing any more"""
        for locn, x in ef.items():
            y = known.get(locn)
            if y is not None and self.same_eff({locn: y}, {locn: x}, a, s):
                continue
            if y is not None and y[0] == 'asg' and x[0] == 'inc' and self.struct_eq2(y[1], a, s.frames[locn[1]].get(locn[2]), s):
                continue            # assigned the same in every iteration
            if not self.no_change(locn, x, a, s):
                return False
        for locn, y in known.items():
            if locn not in ef and y[0] in ('inc', 'app'):
                return False
        return True

    def no_change(self, locn, x, a, s):
        if x[0] == 'asg':
            old = a.frames.get(locn[1], {}).get(locn[2])
            return old is not None and self.struct_eq2(old, a, x[1], s)
        if x[0] == 'set':
            o0 = a.heap.get(locn[1])
            t0, t1 = a.fork(), s.fork()
            t0.heap[-1], t1.heap[-1] = o0, x[1]
            return self.struct_eq2(('ref', -1), t0, ('ref', -1), t1)
        return False

    def struct_eq2(self, a, sa, b, sb, depth=0):
        if a == b and a[0] != 'ref':
            return True
        if a[0] == 'ref' and b[0] == 'ref' and depth < 6:
            oa, ob = sa.heap.get(a[1]), sb.heap.get(b[1])
            if oa is None or ob is None:
                return a == b
            if oa == ob and a == b and a[1] != -1:
                return True
            if oa[0] != ob[0]:
                return False
            if oa[0] in ('list', 'set', 'iter'):
                return len(oa[1]) == len(ob[1]) and all(
                    self.struct_eq2(x, sa, y, sb, depth + 1) for (x, n), (y, m) in zip(oa[1], ob[1]))
            if oa[0] == 'dict':
                return len(oa[1]) == len(ob[1]) and all(
                    self.struct_eq2(k, sa, k2, sb, depth + 1) and self.struct_eq2(x, sa, y, sb, depth + 1)
                    for (k, x, n), (k2, y, m) in zip(oa[1], ob[1]))
            if oa[0] == 'obj':
                return oa[1] == ob[1] and len(oa[2]) == len(ob[2]) and all(
                    n == m and self.struct_eq2(x, sa, y, sb, depth + 1) for (n, x), (m, y) in zip(oa[2], ob[2]))
        if a[0] == 'fn' and b[0] == 'fn':
            return self.fns[a[1]].node is self.fns[b[1]].node
        if a[0] == 'unk' and b[0] == 'unk':
            return True
        if a[0] == b[0] and a[0] in ('app', 'tup', 'cat', 'item', 'attr', 'exc'):
            xs = [x for x in a if isinstance(x, tuple)]
            ys = [y for y in b if isinstance(y, tuple)]
            fa = [x for t in xs for x in (t if t and isinstance(t[0], tuple) else (t,))]
            fb = [x for t in ys for x in (t if t and isinstance(t[0], tuple) else (t,))]
            return len(fa) == len(fb) and [x for x in a if not isinstance(x, tuple)] == \
                [x for x in b if not isinstance(x, tuple)] and all(
                    isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str)
                    and isinstance(y[0], str) and self.struct_eq2(x, sa, y, sb, depth + 1) for x, y in zip(fa, fb))
        return False

    def effects(self, s0, s1):
        """What one iteration changed: {location: ('inc', c) | ('app', parts) | ('ins', entries) | ('asg', value)}"""
        ef = {}
        for fid, fr in s1.frames.items():
            f0 = s0.frames.get(fid)
            if f0 is None:
                continue
            for k, v in fr.items():
                v0 = f0.get(k)
                if v0 == v:
                    continue
                if v0 is not None and self.is_num(v0, s0) and self.is_num(v, s1) and 'bool' not in (self.kind(v0, s0), self.kind(v, s1)):
                    d = lin_add(v, v0, -1)
                    if is_const(d):
                        ef[('var', fid, k)] = ('inc', d)
                        continue
                ef[('var', fid, k)] = ('asg', v)
        for i, o in s1.heap.items():
            o0 = s0.heap.get(i)
            if o0 is None or o0 == o:
                continue
            if o0[0] == o[0] and o[0] in ('list', 'set', 'iter') and o[1][:len(o0[1])] == o0[1]:
                ef[('heap', i)] = ('app', o[1][len(o0[1]):])
            elif o0[0] == o[0] == 'dict' and o[1][:len(o0[1])] == o0[1]:
                ef[('heap', i)] = ('ins', o[1][len(o0[1]):])
            else:
                ef[('heap', i)] = ('set', o)
        return ef

    def same_eff(self, a, b, sa, sb):
        if set(a) != set(b):
            return False
        for k in a:
            x, y = a[k], b[k]
            if x[0] != y[0]:
                return False
            if x[0] == 'inc' and x[1] != y[1]:
                return False
            if x[0] == 'asg' and not self.struct_eq2(x[1], sa, y[1], sb):
                return False
            if x[0] in ('app', 'ins') and not (len(x[1]) == len(y[1]) and all(
                    all(self.struct_eq2(p, sa, q, sb) for p, q in zip(u[:-1], w[:-1])) for u, w in zip(x[1], y[1]))):
                return False
            if x[0] == 'set' and x[1] != y[1]:
                return False
        return True

    def accelerate(self, base, classes, effs, n):
        """Summarise any number (n >= 1) of iterations, each of one of the given classes."""
        k = len(classes)
        if k == 1:
            reps = classes[0]
            out = []
            for rep in (reps if len(reps) <= 4 else reps[:1]):
                s = rep.fork()
                # facts learned about the representative hold for every element when there is one class and one path
                if len(reps) > 1:
                    self.drop_facts(base, s)
                self.apply_eff(s, base, effs[0], n, rep)
                out.append(s)
                if len(reps) > 1:
                    break
            return out
        out = []
        cnts = []
        sfx = base.fresh()
        for i in range(k):
            cnts.append(S(f'#{sfx}.{i}', 'int'))
        tot = C(0)
        for c in cnts:
            tot = lin_add(tot, c)
        # variables assigned (not accumulated) by several classes: split on which class ran last
        asg = {}
        for i, ef in enumerate(effs):
            for loc, x in ef.items():
                if x[0] in ('asg', 'set'):
                    asg.setdefault(loc, []).append(i)
        base_facts = dict(base.facts)
        order = range(k)
        if k > 4:
            s = classes[0][0].fork()
            s.facts = dict(base_facts)
            for ef in effs:
                for loc, x in ef.items():
                    self.havoc_loc(s, loc)
            s.lose('too many loop classes')
            return [s]
        for last in order:
            others = [i for i in range(k) if i != last]
            relevant = [i for i in others if any(i in v and last not in v for v in asg.values())]
            for mask in range(1 << len(relevant)):
                present = {last} | {r for b, r in enumerate(relevant) if mask >> b & 1}
                absent = {r for b, r in enumerate(relevant) if not mask >> b & 1}
                s = base.fork()
                s.facts = dict(base_facts)
                # heap objects created inside the iterations
                for i in sorted(present) + [i for i in others if i not in relevant]:
                    rep = classes[i][0]
                    for hid, o in rep.heap.items():
                        if hid not in s.heap:
                            s.heap[hid] = o
                    for fid, fr in rep.frames.items():
                        if fid not in s.frames:
                            s.frames[fid] = dict(fr)
                    s.nid = max(s.nid, rep.nid)
                    s.lost = s.lost | rep.lost
                    for ev in rep.events[len(base.events):]:
                        s.events = s.events + (ev,)
                s.facts[('eq',) + tuple(sorted((tot, n), key=repr))] = True
                for i in range(k):
                    if i in absent:
                        s.facts[self.a_lt(C(0), cnts[i])] = False
                    elif i in present:
                        s.facts[self.a_lt(C(0), cnts[i])] = True
                for i in range(k):
                    if i in absent:
                        continue
                    self.apply_eff(s, base, effs[i], cnts[i], classes[i][0], only=('inc', 'app', 'ins'))
                for i in [x for x in sorted(present) if x != last] + [last]:
                    self.apply_eff(s, base, effs[i], cnts[i], classes[i][0], only=('asg', 'set'))
                out.append(s)
        return out

    def drop_facts(self, base, s):
        for a in list(s.facts):
            if a not in base.facts:
                del s.facts[a]
        s.kinds = dict(base.kinds)

    def havoc_loc(self, s, loc):
        if loc[0] == 'var':
            if loc[1] in s.frames:
                s.frames[loc[1]][loc[2]] = ('unk', f'{loc[2]} after loop')
        else:
            o = s.heap.get(loc[1])
            if o and o[0] in ('list', 'set', 'iter'):
                s.heap[loc[1]] = (o[0], o[1] + ((('unk', 'element'), S(f'#{s.fresh()}', 'int')),))

    def scale_count(self, m, n, s):
        if m == ONE:
            return n
        if m[0] == 'c':
            return lin_scale(n, m[2])
        return S(f'#{s.fresh()}', 'int')

    def apply_eff(self, s, base, ef, n, rep, only=None):
        for loc, x in ef.items():
            if only and x[0] not in only:
                continue
            if x[0] == 'inc':
                cur = s.frames[loc[1]].get(loc[2])
                b0 = base.frames[loc[1]].get(loc[2])
                if only is None:
                    cur = b0
                s.frames[loc[1]][loc[2]] = lin_add(cur, lin_scale(n, x[1][2]))
            elif x[0] == 'asg':
                if loc[1] in s.frames:
                    s.frames[loc[1]][loc[2]] = x[1]
            elif x[0] == 'set':
                s.heap[loc[1]] = x[1]
            elif x[0] == 'app':
                o0 = base.heap[loc[1]] if only is None else s.heap[loc[1]]
                s.heap[loc[1]] = (o0[0], o0[1] + tuple((e, self.scale_count(m, n, s)) for e, m in x[1]))
            elif x[0] == 'ins':
                o0 = base.heap[loc[1]] if only is None else s.heap[loc[1]]
                s.heap[loc[1]] = ('dict', o0[1] + tuple((kk, e, self.scale_count(m, n, s)) for kk, e, m in x[1]))

    # ================================================================ calls
    def ev_Call(self, node, st, ctx):
        # any()/all() over a generator expression: short-circuit loops
        if isinstance(node.func, ast.Name) and node.func.id in ('any', 'all') and len(node.args) == 1 and \
                isinstance(node.args[0], ast.GeneratorExp) and self.lookup(node.func.id, st, ctx) == ('bi', node.func.id):
            return self.any_all(node.func.id, node.args[0], st, ctx)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            fr = st.frames.get(ctx.frame, {})
            a = next((x.arg for x in self.call_stack[-1].args.args[:1]), None) if self.call_stack else None
            if ctx.cls in self.classes and a in fr:
                return [(st, ('super', ctx.cls, fr[a]), None)]
            st.lose('super()')
            return [(st, ('unk', 'super'), None)]
        out = []
        for s, f, e in self.ev(node.func, st, ctx):
            if e is not None:
                out.append((s, None, e))
                continue
            argn = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
            kwn = [k.value for k in node.keywords]
            for s2, vs, e2 in self.evs(argn + kwn, s, ctx):
                if e2 is not None:
                    out.append((s2, None, e2))
                    continue
                args, bad = [], False
                for a, v in zip(node.args, vs):
                    if isinstance(a, ast.Starred):
                        p = self.parts_of(v, s2)
                        if p is None or any(m != ONE for _, m in p):
                            bad = True
                            k = self.kind(v, s2)
                            args.append(('star', v))
                        else:
                            args.extend(x for x, _ in p)
                    else:
                        args.append(v)
                kwargs = {}
                for kx, v in zip(node.keywords, vs[len(argn):]):
                    if kx.arg is None:
                        o = s2.obj(v)
                        if o is not None and o[0] == 'dict' and all(k[0] == 'c' and m == ONE for k, _, m in o[1]):
                            for k, x, m in o[1]:
                                kwargs[k[2]] = x
                        else:
                            s2.lose('** call')
                    else:
                        kwargs[kx.arg] = v
                out.extend(self.call(f, args, kwargs, s2, node, ctx))
        return out

    def any_all(self, which, gen, st, ctx):
        sub, fid = self.sub_ctx(st, ctx)
        target = which == 'any'

        def leaf(s):
            out = []
            for s2, b, e in self.cond(gen.elt, s, sub):
                if e is not None:
                    out.append(('exc', s2, e))
                elif b == target:
                    out.append(('ret', s2, C(target)))
                else:
                    out.append(('next', s2, None))
            return out
        res = []
        for k, s, v in self.comp_loop(gen.generators, 0, st, sub, leaf):
            s.frames.pop(fid, None) if not self.captures(gen) else None
            if k == 'exc':
                res.append((s, None, v))
            elif k == 'ret':
                res.append((s, v, None))
            else:
                res.append((s, C(not target), None))
        return res

    def call(self, f, args, kwargs, st, node, ctx):
        """-> [(st, val, exc)]"""
        self.tick()
        t = f[0]
        if f in self.attr_models:
            return self.attr_models[f](self, st, args, kwargs, node)
        if t == 'fn':
            info = self.fns[f[1]]
            if info.qual in self.models:
                return self.models[info.qual](self, st, args, kwargs, node)
            return self.call_fn(info, args, kwargs, st, node)
        if t == 'bm':
            info = self.fns[f[2]]
            if info.qual in self.models:
                return self.models[info.qual](self, st, [f[1]] + args, kwargs, node)
            return self.call_fn(info, [f[1]] + args, kwargs, st, node)
        if t == 'cls':
            if f[1] in self.models:
                return self.models[f[1]](self, st, args, kwargs, node)
            return self.instantiate(f[1], args, kwargs, st, node)
        if t == 'bi':
            if f[1] in self.models:
                return self.models[f[1]](self, st, args, kwargs, node)
            r = extmodels.external(self, f[1], st, args, kwargs, node)
            if r is not None:
                return r
            return self.call_builtin(f[1], args, kwargs, st, node, ctx)
        if t == 'extm':
            return extmodels.METHODS[st.heap[f[1][1]][1]][f[2]](self, st, f[1], list(args), kwargs)
        if t == 'bim':
            return self.call_bim(f[1], f[2], args, kwargs, st, node, ctx)
        if t == 'ref':
            o = st.heap[f[1]]
            if o[0] == 'obj':
                r = self.call_method(f, '__call__', args, st)
                if r is not None:
                    return r
        if t == 'app' and f[1] == '!partial':
            return self.call(f[2][0], list(f[2][1:]) + args, kwargs, st, node, ctx)
        if t == 'c' or t == 'tup' or t == 'cat' or t == 'lin':
            return [(st, None, self.exc('TypeError'))]
        if t == 'attr' and f[1][0] in ('s', 'item', 'attr', 'app') and f[2] in ('get', 'items', 'keys', 'values', 'copy',
                                                                         'setdefault', 'pop', 'update'):
            return self.opaque_method(f[1], f[2], args, kwargs, st)
        if t == 'attr' and f[1][0] == 'app' and f[1][1] == 're.compile' and f[2] in (
                'match', 'fullmatch', 'search', 'sub', 'findall', 'split'):
            return self.call(('bi', 're.' + f[2]), [f[1][2][0]] + list(args) + list(f[1][2][1:]), kwargs, st, node, ctx)
        if t == 'attr' and self.kind(f[1], st) == '@datetime':
            kind = {'replace': '@datetime', 'astimezone': '@datetime', 'isoformat': 'str', 'strftime': 'str',
                    'timestamp': 'float'}.get(f[2], 'any')
            sub = ('app', 'datetime.' + f[2], (f[1],) + tuple(args) + tuple(kwargs[x] for x in sorted(kwargs)), kind)
            return [(st, self.rewrite.get(sub, sub), None)]
        if t == 'attr' and f[2] in STR_METHODS and f[1][0] != 'unk':
            return self.str_method(f[1], f[2], args, st, kwargs)
        st.lose(f'call of {show(f)}')
        return [(st, ('unk', f'result of {show(f)}'), None)]

    def call_fn(self, info, args, kwargs, st, node):
        if self.depth > MAX_DEPTH or sum(1 for x in self.call_stack if x is info.node) >= (
                3 if not args or self.kind(args[0], st) == 'any' else 9):
            st.lose(f'recursion in {info.qual}')
            return [(st, ('unk', f'result of {info.qual}'), None)]
        if info.cached:
            if self._in_cached != (info, len(self.call_stack)):
                return self.call_cached(info, args, kwargs, st, node)
            self._in_cached = None
        self.analysed.add(info.qual)
        a = info.node.args
        fid = f'f{st.fresh()}'
        fr = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if any(isinstance(x, tuple) and x and x[0] == 'star' for x in args):
            st.lose('star call')
            args = [('unk', 'star') if x[0] == 'star' else x for x in args]
        if len(args) > len(pos) and a.vararg is None:
            return [(st, None, self.exc('TypeError'))]
        for name, v in zip(pos, args):
            fr[name] = v
        if a.vararg is not None:
            fr[a.vararg.arg] = ('tup', tuple(args[len(pos):]))
        for k in list(kwargs):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                fr[k] = kwargs.pop(k)
        nd = len(info.defaults)
        for i, name in enumerate(pos):
            if name not in fr:
                j = i - (len(pos) - nd)
                if j < 0:
                    return [(st, None, self.exc('TypeError'))]
                fr[name] = info.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in fr:
                if x.arg not in info.kwdefaults:
                    return [(st, None, self.exc('TypeError'))]
                fr[x.arg] = info.kwdefaults[x.arg]
        if a.kwarg is not None:
            fr[a.kwarg.arg] = st.alloc(('dict', tuple((C(k), v, ONE) for k, v in kwargs.items())))
        elif kwargs:
            return [(st, None, self.exc('TypeError'))]
        st.frames[fid] = fr
        loc = self.fn_locals(info.node)
        ctx = Ctx(info.mod, fid, info.frame, info.qual, info.cls, loc[0])
        self.depth += 1
        self.call_stack.append(info.node)
        try:
            if isinstance(info.node, ast.Lambda):
                res = self.ev(info.node.body, st, ctx)
            else:
                gen = loc[1]
                if gen:
                    fr['$yield'] = self.new_list(st)
                res = []
                for k, s, v in self.block(info.node.body, st, ctx):
                    if k == 'exc':
                        res.append((s, None, v))
                    elif gen:
                        y = s.frames[fid]['$yield']
                        s.heap[y[1]] = ('iter', s.heap[y[1]][1])
                        res.append((s, y, None))
                    elif k == 'ret':
                        res.append((s, v, None))
                    else:
                        res.append((s, NONE, None))
        finally:
            self.depth -= 1
            self.call_stack.pop()
        if not loc[2]:
            for s, v, e in res:
                s.frames.pop(fid, None)
        return res

    def call_cached(self, info, args, kwargs, st, node):
        """functools.cache / lru_cache: one result object per argument tuple, kept for later calls"""
        key = (tuple(args), tuple(sorted(kwargs.items())))
        if any(self.kind(x, st) in ('list', 'dict', 'set') for x in list(args) + list(kwargs.values())):
            return [(st, None, self.exc('TypeError'))]
        slot = f'@cache:{info.qual}'
        memo = st.frames.get(slot, {})
        if key in memo:
            return [(st, memo[key], None)]
        if memo and not all(x[0] == 'c' for x in args):
            st.lose('cached function with unknown arguments')
        self._in_cached = (info, len(self.call_stack))
        res = self.call_fn(info, args, kwargs, st, node)
        for s, v, e in res:
            if e is None:
                s.frames[slot] = dict(s.frames.get(slot, {}), **{})
                s.frames[slot][key] = v
        return res

    def fn_locals(self, node):
        r = getattr(node, '_locals', None)
        if r is None:
            names, gen, cap = set(), False, False
            outer = set()

            def walk(n, top):
                nonlocal gen, cap
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        cap = True
                        continue
                    if isinstance(c, ast.Lambda):
                        cap = True
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for x in ast.walk(c):
                            if isinstance(x, ast.NamedExpr):
                                names.add(x.target.id)
                            if isinstance(x, (ast.Lambda,)):
                                cap = True
                        continue
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        outer.update(c.names)
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        gen = True
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        names.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        names.update((al.asname or al.name).split('.')[0] for al in c.names)
                    if isinstance(c, (ast.MatchAs,)) and c.name:
                        names.add(c.name)
                    walk(c, False)
            if not isinstance(node, ast.Lambda):
                for b in node.body:
                    walk(ast.Module([b], []), True)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                names.add(x.arg)
            r = (frozenset(names - outer), gen, cap)
            node._locals = r
        return r

    def instantiate(self, key, args, kwargs, st, node):
        ci = self.classes[key]
        if self.is_exc_class(ci):
            return [(st, self.exc(key, *args), None)]
        if '__init__' in ci.methods:
            ref = st.alloc(('obj', key, ()))
            fn = ci.methods['__init__'][0]
            return [(s, ref if e is None else None, e)
                    for s, v, e in self.call(('bm', ref, fn[1]), args, kwargs, st, node, None)]
        if ci.is_data:
            if any(isinstance(x, tuple) and x[0] == 'star' for x in args):
                st.lose('star construction')
                args = [('unk', 'star') if x[0] == 'star' else x for x in args]
            if len(args) > len(ci.fields):
                return [(st, None, self.exc('TypeError'))]
            d = dict(zip(ci.fields, args))
            for k, v in kwargs.items():
                if k not in ci.fields:
                    return [(st, None, self.exc('TypeError'))]
                d[k] = v
            live = [(st, d, None)]
            for f in ci.fields:
                nxt = []
                for s, dd, e in live:
                    if e is not None or f in dd:
                        nxt.append((s, dd, e))
                        continue
                    if f not in ci.attrs:
                        nxt.append((s, dd, self.exc('TypeError')))
                        continue
                    dv = ci.attrs[f]
                    if dv[0] == 'app' and dv[1] == '!field':
                        for s2, v, e2 in self.call(dv[2][0], [], {}, s, node, None):
                            nxt.append((s2, {**dd, f: v}, e2))
                    else:
                        nxt.append((s, {**dd, f: dv}, None))
                live = nxt
            out = []
            for s, dd, e in live:
                if e is not None:
                    out.append((s, None, e))
                else:
                    out.append((s, s.alloc(('obj', key, tuple((f, dd[f]) for f in ci.fields))), None))
            return out
        if not ci.bases:
            return [(st, st.alloc(('obj', key, ())), None)]
        for b in ci.bases:
            if b[0] == 'cls' and b[1] in self.classes and '__init__' in self.classes[b[1]].methods:
                ref = st.alloc(('obj', key, ()))
                fn = self.classes[b[1]].methods['__init__'][0]
                return [(s, ref if e is None else None, e)
                        for s, v, e in self.call(('bm', ref, fn[1]), args, kwargs, st, node, None)]
        st.lose(f'instance of {key}')
        return [(st, st.alloc(('obj', key, ())), None)]

    def is_exc_class(self, ci, depth=0):
        for b in ci.bases:
            if b[0] == 'bi':
                c = getattr(builtins, b[1], None)
                if isinstance(c, type) and issubclass(c, BaseException):
                    return True
            elif b[0] == 'cls' and b[1] in self.classes and depth < 5:
                if self.is_exc_class(self.classes[b[1]], depth + 1):
                    return True
        return False
