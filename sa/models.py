"""Declared behaviour of Python builtins and of methods of builtin containers, on abstract values."""
import ast
import builtins
import posixpath
import re

import rx
import strtok
from terms import *     # noqa
from absint import PURE_EXT, SILENT_EXT, TYPE_PARENTS, KNOWN_TYPES, STR_METHODS, BOOL_STR, INT_STR, FREE_APPS


def ok(st, v):
    return [(st, v, None)]


class Models:
    # ---------------------------------------------------------------- isinstance
    def type_name(self, c):
        if c[0] == 'bi':
            return c[1]
        if c[0] == 'cls':
            return c[1]
        if c[0] == 'app' and c[1] == 'type':
            return None
        return None

    def isinstance(self, v, c, st):
        """-> [(state, bool)]"""
        if c[0] == 'tup':
            live, out = [st], []
            for x in c[1]:
                nxt = []
                for s in live:
                    for s2, r in self.isinstance(v, x, s):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(s, False) for s in live]
        if c[0] == 'app' and c[1] == 'type':
            # isinstance(x, type(y)): by the kind of y
            ky = self.kind(c[2][0], st)
            if ky in TYPE_PARENTS:
                return self.isinstance(v, ('bi', ky), st)
            return self.split(st, ('isinst', v, (show(c),)))
        name = self.type_name(c)
        if name is None:
            if c == NONE or c[0] == 'c':
                return [(st, False)]
            return self.split(st, ('isinst', v, (show(c),)))
        if v[0] == 'ref' and st.heap[v[1]][0] == 'obj':
            key = st.heap[v[1]][1]
            return [(st, self.subclass(key, name))]
        if v[0] == 'exc':
            return [(st, self.exc_matches(v[1], name))]
        k = self.kind(v, st)
        if k == 'iter':
            return [(st, name in ('object', 'collections.abc.Iterable', 'collections.abc.Iterator'))]
        if k == 'num':
            k = 'float'
        if k in TYPE_PARENTS and (name in KNOWN_TYPES or name in self.classes or name.startswith('numbers.')):
            return [(st, name in TYPE_PARENTS[k])]
        if k in TYPE_PARENTS:
            return [(st, name in TYPE_PARENTS[k])]
        if k.startswith('@obj:'):
            return [(st, self.subclass(k[5:], name))]
        # already known not / known to be
        for atom, val in st.facts.items():
            if atom[0] == 'isinst' and atom[1] == v and val:
                have = atom[2][0]
                if have == name:
                    return [(st, True)]
        return self.split(st, ('isinst', v, (name,)))

    def subclass(self, key, name):
        if key == name or name == 'object':
            return True
        ci = self.classes.get(key)
        if ci is None:
            return False
        return any(self.subclass(b[1], name) for b in ci.bases)

    # ---------------------------------------------------------------- builtins
    def call_builtin(self, name, args, kwargs, st, node, ctx):
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            try:
                return m(st, args, kwargs)
            except (IndexError, TypeError) as ex:       # arity outside the model
                st.lose(f'call of {name}')
                return ok(st, ('unk', f'result of {name}'))
        b = getattr(builtins, name, None) if '.' not in name else None
        if isinstance(b, type) and issubclass(b, BaseException):
            return ok(st, self.exc(name, *args))
        if name.endswith('Error') or name.endswith('Exception'):
            return ok(st, self.exc(name, *args))
        if any(name == p or name.startswith(p) for p in SILENT_EXT):
            return ok(st, NONE)
        if name in ('re.match', 're.search', 're.fullmatch', 're.findall', 're.split') and len(args) >= 2:
            pk, vk = self.kind(args[0], st), self.kind(args[1], st)
            if vk not in ('str', 'bytes', 'any', 'num') or (pk in ('str', 'bytes') and vk in ('str', 'bytes')
                                                            and vk != pk):
                return [(st, None, self.exc('TypeError'))]
        if self.tok and name.startswith('re.'):
            r = strtok.regex(self, name, args, kwargs, st)
            if r is not None:
                return r
        if name in ('re.sub', 're.findall', 're.split') and not kwargs and \
                all(a[0] == 'c' and isinstance(a[2], str) for a in args):
            try:
                r = getattr(re, name[3:])(*[a[2] for a in args])
                if isinstance(r, str):
                    return ok(st, C(r))
                if all(isinstance(x, str) for x in r):
                    return ok(st, self.new_list(st, tuple((C(x), ONE) for x in r)))
            except re.error:
                return [(st, None, self.exc('re.error'))]
            except (TypeError, ValueError):
                pass
        if name == 're.sub' and len(args) == 3 and not kwargs and args[0][0] == 'c' and self.no_match(args[0], args[2], st):
            return ok(st, args[2])
        if name in ('os.path.join', 'os.path.splitext', 'os.path.basename', 'os.path.normpath', 'os.path.split') and not kwargs and args and \
                all(a[0] == 'c' and isinstance(a[2], str) for a in args):
            r = getattr(posixpath, name[8:])(*[a[2] for a in args])
            return ok(st, C(r) if isinstance(r, str) else ('tup', tuple(C(x) for x in r)))
        if any(name.startswith(p) for p in PURE_EXT):
            kind = 'match' if name in ('re.match', 're.search', 're.fullmatch') else \
                'str' if name.startswith(('os.path.join', 'os.path.base', 'os.path.dir', 'os.path.abs', 'json.dumps',
                                          're.sub', 're.escape')) else 'any'
            return ok(st, ('app', name, tuple(args) + tuple(v for _, v in sorted(kwargs.items())), kind))
        if isinstance(b, type):
            return ok(st, ('app', name, tuple(args), name))
        st.lose(f'call of {name}')
        return ok(st, ('unk', f'result of {name}'))

    b_object___init__ = b_object___init_subclass__ = lambda self, st, a, kw: ok(st, NONE)

    def b_len(self, st, a, kw):
        k = self.kind(a[0], st)
        if k in ('int', 'float', 'bool', 'NoneType', 'num', 'function'):
            return [(st, None, self.exc('TypeError'))]
        return ok(st, self.len_of(a[0], st))

    def b_isinstance(self, st, a, kw):
        return [(s, C(r), None) for s, r in self.isinstance(a[0], a[1], st)]

    def b_issubclass(self, st, a, kw):
        if a[0][0] == 'bi' and a[1][0] == 'bi' and a[0][1] in TYPE_PARENTS:
            return ok(st, C(a[1][1] in TYPE_PARENTS[a[0][1]]))
        return [(s, C(r), None) for s, r in self.split(st, ('truthy', ('app', 'issubclass', tuple(a), 'bool')))]

    def b_type(self, st, a, kw):
        k = self.kind(a[0], st)
        if a[0][0] == 'ref' and st.heap[a[0][1]][0] == 'obj':
            return ok(st, ('cls', st.heap[a[0][1]][1]))
        if k in TYPE_PARENTS:
            return ok(st, ('bi', k))
        return ok(st, ('app', 'type', (a[0],), 'type'))

    def b_bool(self, st, a, kw):
        if not a:
            return ok(st, FALSE)
        return [(s, C(r), None) for s, r in self.truthy(a[0], st)]

    def b_int(self, st, a, kw):
        if not a:
            return ok(st, C(0))
        v = a[0]
        if len(a) == 1 and v[0] == 'c':
            try:
                return ok(st, C(int(v[2])))
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        k = self.kind(v, st)
        if k == 'int':
            return ok(st, v)
        if k == 'NoneType' or k in ('list', 'dict', 'set', 'tuple'):
            return [(st, None, self.exc('TypeError'))]
        if v[0] == 'app' and v[1] == 'str' and self.kind(v[2][0], st) == 'int':
            return ok(st, v[2][0])
        r = ('app', 'int', tuple(a), 'int')
        if k in ('bool', 'float', 'num'):
            return ok(st, r)
        out = []
        for s, b in self.split(st, ('truthy', ('app', '!intlike', (v,), 'bool'))):
            out.append((s, r, None) if b else (s, None, self.exc('ValueError')))
        return out

    def b_float(self, st, a, kw):
        v = a[0]
        if v[0] == 'c':
            try:
                return ok(st, C(float(v[2])))
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        k = self.kind(v, st)
        if k == 'float':
            return ok(st, v)
        if v[0] == 'app' and v[1] == 'str' and self.is_num(v[2][0], st):
            return self.b_float(st, [v[2][0]], kw)
        r = ('app', 'float', tuple(a), 'float')
        if k in ('int', 'bool', 'num'):
            return ok(st, r)
        out = []
        for s, b in self.split(st, ('truthy', ('app', '!floatlike', (v,), 'bool'))):
            out.append((s, r, None) if b else (s, None, self.exc('ValueError')))
        return out

    def b_str(self, st, a, kw):
        if not a:
            return ok(st, C(''))
        return ok(st, self.to_str(a[0], st))

    b_repr = lambda self, st, a, kw: ok(st, ('app', 'repr', (a[0],), 'str'))
    b_format = lambda self, st, a, kw: ok(st, ('app', 'format', tuple(a), 'str'))
    b_hash = lambda self, st, a, kw: ok(st, ('app', 'hash', (a[0],), 'int'))
    b_id = lambda self, st, a, kw: ok(st, ('app', 'id', (a[0],), 'int'))
    b_callable = lambda self, st, a, kw: ok(st, C(a[0][0] in ('fn', 'bm', 'bim', 'cls', 'bi'))) \
        if a[0][0] not in ('s', 'item', 'attr', 'app', 'unk') else ok(st, ('app', 'callable', tuple(a), 'bool'))

    def b_ord(self, st, a, kw):
        if a[0][0] == 'c':
            try:
                return ok(st, C(ord(a[0][2])))
            except TypeError:
                return [(st, None, self.exc('TypeError'))]
        return ok(st, ('app', 'ord', (a[0],), 'int'))

    def b_chr(self, st, a, kw):
        if a[0][0] == 'c':
            return ok(st, C(chr(a[0][2])))
        if a[0][0] == 'app' and a[0][1] == 'ord':
            return ok(st, a[0][2][0])
        return ok(st, ('app', 'chr', (a[0],), 'str'))

    def b_abs(self, st, a, kw):
        if is_num_const(a[0]):
            return ok(st, C(abs(a[0][2])))
        return ok(st, ('app', 'abs', (a[0],), self.kind(a[0], st)))

    b_round = lambda self, st, a, kw: ok(st, C(round(a[0][2]))) if is_num_const(a[0]) and len(a) == 1 else \
        ok(st, ('app', 'round', tuple(a), 'int' if len(a) == 1 else 'float'))

    def b_getattr(self, st, a, kw):
        if a[1][0] != 'c':
            st.lose('getattr')
            return ok(st, ('unk', 'getattr'))
        res = self.getattr(a[0], a[1][2], st)
        if len(a) > 2:
            return [(s, a[2] if e is not None else v, None) for s, v, e in res]
        return res

    def b_hasattr(self, st, a, kw):
        if a[1][0] != 'c':
            return ok(st, ('app', 'hasattr', tuple(a), 'bool'))
        if a[0][0] in ('ref', 'c', 'mod', 'cls', 'fn', 'tup') or self.kind(a[0], st) in TYPE_PARENTS:
            k = self.kind(a[0], st)
            if a[0][0] != 'ref' and k in TYPE_PARENTS and hasattr(builtins, k):
                return ok(st, C(hasattr(getattr(builtins, k), a[1][2])))
            if a[0][0] == 'ref' and st.heap[a[0][1]][0] in ('list', 'dict', 'set'):
                return ok(st, C(hasattr(getattr(builtins, st.heap[a[0][1]][0]), a[1][2])))
            res = self.getattr(a[0], a[1][2], st)
            return [(s, C(e is None), None) for s, v, e in res]
        return [(s, C(b), None) for s, b in self.split(st, ('truthy', ('app', 'hasattr', tuple(a), 'bool')))]

    def b_setattr(self, st, a, kw):
        if a[1][0] == 'c':
            self.setattr(a[0], a[1][2], a[2], st)
        else:
            st.lose('setattr')
        return ok(st, NONE)

    def b_print(self, st, a, kw):
        f = kw.get('file', NONE)
        if f[0] == 'ref' and st.heap[f[1]][:2] == ('obj', '!file'):
            sep, end = kw.get('sep', NONE), kw.get('end', NONE)
            sep, end = C(' ') if sep == NONE else sep, C('\n') if end == NONE else end
            for i, x in enumerate(a):
                st.event('write', f, x if not i else mk_cat([sep, x]))
            st.event('write', f, end)
        return ok(st, NONE)

    def b_open(self, st, a, kw):
        return ok(st, ('app', '!open', tuple(a), 'any'))

    def copy_parts(self, st, v, kind):
        parts = self.parts_of(v, st)
        k = self.kind(v, st)
        if parts is None:
            if k in ('int', 'float', 'bool', 'NoneType', 'function', 'num'):
                return [(st, None, self.exc('TypeError'))]
            st.lose(f'{kind}() of unknown value')
            parts = ((('unk', 'element'), S(f'#{st.fresh()}', 'int')),)
        if v[0] == 'ref' and st.heap[v[1]][0] == 'iter':
            st.heap[v[1]] = ('iter', ())
        if kind == 'set':
            if any(not self.hashable(e, st) for e, n in parts):
                return [(st, None, self.exc('TypeError'))]
            if any(e[0] in ('ref', 'tup') for e, n in parts) and all(n == ONE for e, n in parts) and len(parts) <= 6:
                return self.set_build(st, parts)
            return ok(st, self.new_set(st, parts))
        if kind == 'tuple' and all(n == ONE for _, n in parts):
            return ok(st, ('tup', tuple(e for e, _ in parts)))
        return ok(st, st.alloc(('list' if kind == 'tuple' else kind, tuple(parts))))

    def b_list(self, st, a, kw):
        return self.copy_parts(st, a[0], 'list') if a else ok(st, self.new_list(st))

    def b_tuple(self, st, a, kw):
        return self.copy_parts(st, a[0], 'tuple') if a else ok(st, ('tup', ()))

    def b_set(self, st, a, kw):
        return self.copy_parts(st, a[0], 'set') if a else ok(st, self.new_set(st))

    def b_frozenset(self, st, a, kw):
        return self.frozen_result(self.b_set(st, a, kw))

    def frozen_result(self, res):
        for s, v, e in res:
            if e is None and v[0] == 'ref':
                s.frozen = s.frozen | {v[1]}
        return res

    def hashable(self, v, st):
        if v[0] == 'ref':
            o = st.heap[v[1]]
            if o[0] == 'list' or o[0] in ('dict', 'set') and v[1] not in st.frozen:
                return False
            if o[0] == 'dict':
                return all(self.hashable(e, st) for k, e, n in o[1])
            return True
        if v[0] == 'tup':
            return all(self.hashable(x, st) for x in v[1])
        return self.kind(v, st) not in ('list', 'dict', 'set')

    def set_build(self, st, parts):
        """set of a few elements that may be containers: decide pairwise equality"""
        live = [(st, ())]
        for e, n in parts:
            nxt = []
            for s, acc in live:
                cur = [(s, False)]
                for x in acc:
                    cur2 = []
                    for s1, dup in cur:
                        if dup:
                            cur2.append((s1, True))
                        else:
                            cur2 += list(self.eq(x, e, s1))
                    cur = cur2
                nxt += [(s1, acc if dup else acc + (e,)) for s1, dup in cur]
            live = nxt
        return [(s, s.alloc(('set', tuple((x, ONE) for x in acc))), None) for s, acc in live]

    def b_sorted(self, st, a, kw):
        out = []
        for s, v, e in self.copy_parts(st, a[0], 'list'):
            if e is not None:
                out.append((s, None, e))
                continue
            out.extend((s2, v if e2 is None else None, e2) for s2, _, e2 in self.m_list_sort(s, v, [], kw))
        return out

    def b_reversed(self, st, a, kw):
        p = self.parts_of(a[0], st)
        if p is None:
            return self.copy_parts(st, a[0], 'list')
        return ok(st, self.new_list(st, tuple(reversed(p))))

    def b_iter(self, st, a, kw):
        if a[0][0] == 'ref' and st.heap[a[0][1]][0] == 'iter':
            return ok(st, a[0])
        return self.copy_parts(st, a[0], 'iter')

    def b_next(self, st, a, kw):
        v = a[0]
        if v[0] != 'ref' or st.heap[v[1]][0] != 'iter':
            if v[0] == 'ref':
                return [(st, None, self.exc('TypeError'))]
            return ok(st, ('app', 'next', (v,), 'any'))
        parts = st.heap[v[1]][1]
        out = []
        live = [(st, 0)]
        for i, (e, n) in enumerate(parts):
            nxt = []
            for s, _ in live:
                for s2, r in self.split(s, self.a_lt(C(0), n)):
                    if r:
                        rest = parts[i + 1:] if n == ONE else ((e, lin_add(n, C(1), -1)),) + parts[i + 1:]
                        s2.heap[v[1]] = ('iter', rest)
                        out.append((s2, e, None))
                    else:
                        nxt.append((s2, i))
            live = nxt
        for s, _ in live:
            out.append((s, a[1], None) if len(a) > 1 else (s, None, self.exc('StopIteration')))
        return out

    def b_dict(self, st, a, kw):
        ref = st.alloc(('dict', ()))
        live = [st]
        if a:
            if self.kind(a[0], st) in ('int', 'float', 'bool', 'NoneType'):
                return [(st, None, self.exc('TypeError'))]
            live = self.dict_update(st, ref, a[0])
        for k, v in kw.items():
            live = [x for s in live for x in self.dict_set(s, ref, C(k), v)]
        return [(s, ref, None) for s in live]

    def b_range(self, st, a, kw):
        lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
        step = a[2] if len(a) > 2 else ONE
        if all(x[0] == 'c' for x in (lo, hi, step)):
            r = range(lo[2], hi[2], step[2])
            if len(r) <= 64:
                return ok(st, self.new_list(st, tuple((C(i), ONE) for i in r)))
        n = lin_add(hi, lo, -1)
        i = S(f'#i{st.fresh()}', 'int') if lo == C(0) else S(f'@i{st.fresh()}', 'int')
        st.facts[self.a_lt(i, hi)] = True
        st.facts[self.a_lt(i, lo)] = False
        if step != ONE:
            n = S(f'#{st.fresh()}', 'int')
        else:
            self.ranges[i] = lo, hi
        return ok(st, self.new_list(st, ((i, n),)))

    def b_enumerate(self, st, a, kw):
        start = a[1] if len(a) > 1 else kw.get('start', C(0))
        p = self.parts_of(a[0], st)
        if p is None:
            return self.copy_parts(st, a[0], 'list')
        out, pre = [], start
        for e, n in p:
            if n == ONE:
                out.append((('tup', (pre, e)), ONE))
            else:
                i = S(f'@i{st.fresh()}', 'int')
                st.facts[self.a_lt(i, pre)] = False
                st.facts[self.a_lt(i, lin_add(pre, n))] = True
                # index of the elements of this part, when the scenario gives the part an ordinal symbol
                out.append((('tup', (i, e)), n))
            pre = lin_add(pre, n)
        return ok(st, self.new_list(st, out))

    def b_zip(self, st, a, kw):
        ps = [self.parts_of(x, st) for x in a]
        if any(p is None for p in ps):
            st.lose('zip')
            return ok(st, self.new_list(st, ((('unk', 'zip'), S(f'#{st.fresh()}', 'int')),)))
        if len({tuple(n for _, n in p) for p in ps}) == 1:
            return ok(st, self.new_list(st, tuple((('tup', tuple(p[i][0] for p in ps)), ps[0][i][1])
                                                  for i in range(len(ps[0])))))
        if all(n == ONE for p in ps for _, n in p):
            m = min(len(p) for p in ps)
            return ok(st, self.new_list(st, tuple((('tup', tuple(p[i][0] for p in ps)), ONE) for i in range(m))))
        # align as far as the counts agree
        i, out = 0, []
        while all(i < len(p) for p in ps) and len({p[i][1] for p in ps}) == 1:
            out.append((('tup', tuple(p[i][0] for p in ps)), ps[0][i][1]))
            i += 1
        if any(i >= len(p) for p in ps):
            return ok(st, self.new_list(st, out))
        st.lose('zip of sequences of different shape')
        return ok(st, self.new_list(st, out + [(('unk', 'zip'), S(f'#{st.fresh()}', 'int'))]))

    def b_map(self, st, a, kw):
        if len(a) != 2:
            st.lose('map')
            return ok(st, ('unk', 'map'))
        return self.map_filter(st, a[0], a[1], True)

    def b_filter(self, st, a, kw):
        return self.map_filter(st, a[0], a[1], False)

    def map_filter(self, st, f, it, is_map):
        ref = self.new_list(st)

        def body(s, e):
            out = []
            if f == NONE:
                res = [(s, e, None)]
            else:
                res = self.call(f, [e], {}, s, None, None)
            for s2, v, ex in res:
                if ex is not None:
                    out.append(('exc', s2, ex))
                elif is_map:
                    o = s2.heap[ref[1]]
                    s2.heap[ref[1]] = (o[0], o[1] + ((v, ONE),))
                    out.append(('next', s2, None))
                else:
                    for s3, b in self.truthy(v, s2):
                        if b:
                            o = s3.heap[ref[1]]
                            s3.heap[ref[1]] = (o[0], o[1] + ((e, ONE),))
                        out.append(('next', s3, None))
            return out
        res = []
        for k, s, v in self.loop_over(it, st, body, None):
            if k == 'exc':
                res.append((s, None, v))
            else:
                s.heap[ref[1]] = ('iter', s.heap[ref[1]][1])
                res.append((s, ref, None))
        return res

    def any_all_v(self, st, v, target):
        def body(s, e):
            return [('ret' if b == target else 'next', s2, None) for s2, b in self.truthy(e, s)]
        out = []
        for k, s, x in self.loop_over(v, st, body, None):
            out.append((s, None, x) if k == 'exc' else (s, C(target if k == 'ret' else not target), None))
        return out

    def b_any(self, st, a, kw):
        return self.any_all_v(st, a[0], True)

    def b_all(self, st, a, kw):
        return self.any_all_v(st, a[0], False)

    def b_sum(self, st, a, kw):
        p = self.parts_of(a[0], st)
        tot = a[1] if len(a) > 1 else C(0)
        for e, n in p or ():
            if is_num_const(e):
                tot = lin_add(tot, lin_scale(n, e[2]))
            elif e[0] in ('app',) and e[3] == 'bool' or self.kind(e, st) == 'bool':
                c = S(f'#{st.fresh()}', 'int')
                st.facts[self.a_lt(n, c)] = False
                tot = lin_add(tot, c)
            elif n == ONE and self.is_num(e, st):
                tot = lin_add(tot, e)
            elif self.kind(e, st) in ('list',) and tot[0] == 'ref':
                (st, tot, _), = self.binop('Add', tot, e, st)
            else:
                return ok(st, ('unk', 'sum'))
        return ok(st, tot)

    def minmax(self, st, a, kw, name):
        if len(a) >= 2 and 'key' not in kw:
            live = [(st, a[0])]
            for y in a[1:]:
                nxt = []
                for s, x in live:
                    kx, ky = self.kind(x, s), self.kind(y, s)
                    num = ('int', 'float', 'num', 'bool')
                    if kx not in num and ky not in num:
                        nxt.append((s, ('app', name, (x, y), kx)))
                        continue
                    if getattr(self, 'open_widths', False) and x != y and not (x[0] == 'c' and y[0] == 'c'):
                        nxt.append((s, ('app', name, (x, y), 'int')))
                        continue
                    for s2, r in self.split(s, self.a_lt(y, x) if name == 'min' else self.a_lt(x, y)):
                        nxt.append((s2, y if r else x))
                live = nxt
            return [(s, x, None) for s, x in live]
        if a[0][0] == 'tup' and 'key' not in kw and a[0][1]:
            return self.minmax(st, list(a[0][1]), kw, name) if len(a[0][1]) > 1 else ok(st, a[0][1][0])
        if len(a) == 1 and a[0][0] == 'ref' and not kw and st.heap[a[0][1]][0] in ('list', 'set', 'iter'):
            es = st.heap[a[0][1]][1]
            if es and all(n == ONE for _, n in es):
                return self.minmax(st, [('tup', tuple(e for e, _ in es))], kw, name)
        return ok(st, ('app', name, tuple(a), 'any'))

    def b_min(self, st, a, kw):
        return self.minmax(st, a, kw, 'min')

    def b_max(self, st, a, kw):
        return self.minmax(st, a, kw, 'max')

    def b_object(self, st, a, kw):
        return ok(st, st.alloc(('obj', 'object', ())))

    def b_vars(self, st, a, kw):
        return self.getattr(a[0], '__dict__', st)

    def b_bytes(self, st, a, kw):
        return ok(st, ('app', 'bytes', tuple(a), 'bytes'))

    def b_slice(self, st, a, kw):
        x = (a + [NONE] * 3)[:3] if len(a) > 1 else [NONE, a[0], NONE]
        return ok(st, ('slice', tuple(x)))

    # frozendict / defaultdict / OrderedDict behave as dict here
    def b_frozendict_frozendict(self, st, a, kw):
        return self.frozen_result(self.b_dict(st, a, kw))
    b_collections_OrderedDict = b_dict
    b_types_MappingProxyType = b_dict

    def b_collections_defaultdict(self, st, a, kw):
        out = self.b_dict(st, a[1:], kw)
        if a and a[0] != NONE:
            for s, ref, e in out:
                if e is None:
                    s.missing = {**s.missing, ref[1]: a[0]}
        return out

    def b_dataclasses_field(self, st, a, kw):
        if 'default_factory' in kw:
            return ok(st, ('app', '!field', (kw['default_factory'],), 'any'))
        return ok(st, kw.get('default', NONE))

    def b_html_escape(self, st, a, kw):
        import html
        quote = kw.get('quote', a[1] if len(a) > 1 else TRUE)
        if quote not in (TRUE, FALSE):
            return ok(st, ('app', 'html.escape', tuple(a), 'str'))
        v, q = a[0], quote == TRUE
        parts = []
        for x in (v[1] if v[0] == 'cat' else (v,)):
            if x[0] == 'c' and isinstance(x[2], str):
                parts.append(C(html.escape(x[2], q)))
            elif self.kind(x, st) == 'str' and all(self.without(x, c, st) for c in ('&<>"\'' if q else '&<>')):
                parts.append(x)
            else:
                return ok(st, ('app', 'html.escape', tuple(a[:1]) + (quote,), 'str'))
        return ok(st, mk_cat(parts))

    def b_functools_partial(self, st, a, kw):
        if kw:
            st.lose('partial with keywords')
        return ok(st, ('app', '!partial', tuple(a), 'function'))

    def b_functools_reduce(self, st, a, kw):
        p = self.parts_of(a[1], st)
        if p is None or any(n != ONE for _, n in p):
            st.lose('reduce')
            return ok(st, ('unk', 'reduce'))
        vals = [e for e, _ in p]
        acc = a[2] if len(a) > 2 else None
        if acc is None:
            acc, vals = vals[0], vals[1:]
        live = [(st, acc, None)]
        for x in vals:
            live = self.bind(live, lambda s, v, x=x: self.call(a[0], [v, x], {}, s, None, None))
        return live

    def b_itertools_chain(self, st, a, kw):
        parts = []
        for x in a:
            p = self.parts_of(x, st)
            if p is None:
                st.lose('chain')
                p = ()
            parts.extend(p)
        return ok(st, self.new_list(st, parts))

    def b_itertools_chain_from_iterable(self, st, a, kw):
        p = self.parts_of(a[0], st)
        if p is None or any(n != ONE for _, n in p):
            st.lose('chain.from_iterable')
            return ok(st, ('unk', 'chain'))
        return self.b_itertools_chain(st, [e for e, _ in p], kw)

    b_operator_contains = lambda self, st, a, kw: [(s, C(b) if e is None else None, e)
                                                   for s, b, e in self.cmp('in', a[1], a[0], st)]

    def _op(name):
        def f(self, st, a, kw):
            return [(s, C(b) if e is None else None, e) for s, b, e in self.cmp(name, a[0], a[1], st)]
        return f
    b_operator_lt, b_operator_le, b_operator_gt = _op('lt'), _op('le'), _op('gt')
    b_operator_ge, b_operator_eq, b_operator_ne = _op('ge'), _op('eq'), _op('ne')
    b_operator_is_ = _op('is')

    def b_operator_itemgetter(self, st, a, kw):
        return ok(st, ('app', '!itemgetter', tuple(a), 'function'))

    def b_dict_fromkeys(self, st, a, kw):
        p = self.parts_of(a[0], st) or ()
        ref = st.alloc(('dict', ()))
        live = [st]
        for e, n in p:
            live = [x for s in live for x in self.dict_set(s, ref, e, a[1] if len(a) > 1 else NONE, n)]
        return [(s, ref, None) for s in live]

    # ---------------------------------------------------------------- copies
    def b_copy_deepcopy(self, st, a, kw):
        return ok(st, self.deep(a[0], st, {}))

    def b_copy_copy(self, st, a, kw):
        v = a[0]
        if v[0] == 'ref':
            return ok(st, st.alloc(st.heap[v[1]]))
        return ok(st, v)

    def deep(self, v, st, memo):
        if v[0] == 'ref':
            if v in memo:
                return memo[v]
            o = st.heap[v[1]]
            new = st.alloc(o)
            memo[v] = new
            if o[0] in ('list', 'set', 'iter'):
                st.heap[new[1]] = (o[0], tuple((self.deep(e, st, memo), n) for e, n in o[1]))
            elif o[0] == 'dict':
                st.heap[new[1]] = ('dict', tuple((self.deep(k, st, memo), self.deep(e, st, memo), n)
                                                 for k, e, n in o[1]))
            elif o[0] == 'obj':
                st.heap[new[1]] = ('obj', o[1], tuple((k, self.deep(e, st, memo)) for k, e in o[2]))
            return new
        if v[0] == 'tup':
            return ('tup', tuple(self.deep(x, st, memo) for x in v[1]))
        return v

    # ---------------------------------------------------------------- methods of builtin values
    def call_bim(self, v, name, args, kwargs, st, node, ctx):
        if v[0] == 'ref':
            o = st.heap[v[1]]
            m = getattr(self, f'm_{o[0]}_{name}', None)
            if m is not None:
                try:
                    return m(st, v, args, kwargs)
                except (IndexError, ValueError) as ex:
                    st.lose(f'{o[0]}.{name}')
                    return ok(st, ('unk', f'{o[0]}.{name}'))
            if not hasattr(getattr(builtins, o[0], object), name) and o[0] != 'iter':
                return [(st, None, self.exc('AttributeError', C(name)))]
            st.lose(f'{o[0]}.{name}')
            return ok(st, ('unk', f'{o[0]}.{name}'))
        k = self.kind(v, st)
        if v[0] == 'app' and v[1] == 're.compile' and name in ('match', 'fullmatch', 'search', 'sub', 'findall', 'split'):
            return self.call_builtin('re.' + name, [v[2][0]] + list(args) + list(v[2][1:]), kwargs, st, node, ctx)
        if k in ('str', 'bytes'):
            return self.str_method(v, name, args, st, kwargs)
        if k == 'dict':
            return self.opaque_method(v, name, args, kwargs, st)
        if k == 'tuple' and name in ('index', 'count'):
            if name == 'index' and v[0] == 'tup':
                out = []
                live = [st]
                for i, x in enumerate(v[1]):
                    nxt = []
                    for s in live:
                        for s2, r in self.eq(x, args[0], s):
                            if r:
                                out.append((s2, C(i), None))
                            else:
                                nxt.append(s2)
                    live = nxt
                return out + [(s, None, self.exc('ValueError')) for s in live]
        if k == 'match':
            return ok(st, ('app', f'match.{name}', (v,) + tuple(args), 'any'))
        if k in ('int', 'float', 'bool', 'num'):
            return ok(st, ('app', f'{k}.{name}', (v,) + tuple(args), 'any'))
        st.lose(f'method {name}')
        return ok(st, ('unk', f'method {name}'))

    def str_method(self, v, name, args, st, kwargs=None):
        args = list(args)
        if name == 'format' and self.tok and self.kind(v, st) == 'str':
            r = strtok.format_(self, v, args, kwargs or {}, st)
            if r is not None:
                return r
        if kwargs:
            if name in ('split', 'rsplit') and set(kwargs) <= {'sep', 'maxsplit'}:
                sep = kwargs.get('sep', args[0] if args else NONE)
                ms = kwargs.get('maxsplit', args[1] if len(args) > 1 else C(-1))
                args = [sep, ms] if ms != C(-1) else [sep]
            elif self.kind(v, st) not in ('str', 'bytes') and v[0] == 'app':
                # some other object (a date, say): an operation this analysis does not interpret
                return ok(st, ('app', f'!.{name}', (v,) + tuple(args) + tuple(C(k) for k in kwargs) + tuple(kwargs.values()),
                               'any'))
            else:
                st.lose(f'keyword arguments of str.{name}')
        if name in ('startswith', 'endswith') and args and args[0][0] == 'tup' and len(args) == 1:
            out, live = [], [st]
            for x in args[0][1]:            # any of these
                nxt = []
                for s in live:
                    for s2, r, e in self.str_method(v, name, [x], s):
                        if e is not None:
                            out.append((s2, None, e))
                            continue
                        for s3, b in self.truthy(r, s2):
                            if b:
                                out.append((s3, TRUE, None))
                            else:
                                nxt.append(s3)
                live = nxt
            return out + [(s, FALSE, None) for s in live]
        kv = self.kind(v, st)
        if kv in ('str', 'bytes') and name in ('split', 'rsplit', 'replace', 'partition', 'rpartition', 'startswith',
                                               'endswith', 'strip', 'lstrip', 'rstrip', 'find', 'index', 'count'):
            if any(self.kind(x, st) == ('bytes' if kv == 'str' else 'str') for x in args):
                return [(st, None, self.exc('TypeError'))]
        if name in ('split', 'rsplit', 'partition', 'rpartition') and args and \
                args[0][0] == 'c' and isinstance(args[0][2], str) and args[0][2] and \
                (len(args) == 1 or args[1][0] == 'c') and (v[0] == 'cat' or v in self.shapes) and \
                all(x[0] == 'c' or self.without(x, args[0][2], st) for x in (v[1] if v[0] == 'cat' else (v,))):
            # the symbolic parts of this text contain no separator characters
            sep = args[0][2]
            pieces = [[]]
            for x in v[1] if v[0] == 'cat' else (v,):
                if x[0] == 'c':
                    ps = x[2].split(sep)
                    pieces[-1].append(C(ps[0]))
                    pieces += [[C(y)] for y in ps[1:]]
                else:
                    pieces[-1].append(x)
            pieces = [mk_cat(x) for x in pieces]
            ms = args[1][2] if len(args) > 1 else -1
            if len(pieces) <= 2 or ms == -1:
                if 'partition' in name:
                    if len(pieces) == 2:
                        return ok(st, ('tup', (pieces[0], C(sep), pieces[1])))
                    if len(pieces) == 1:
                        return ok(st, ('tup', (pieces[0], C(''), C('')) if name == 'partition' else
                                       (C(''), C(''), pieces[0])))
                elif ms != 0:
                    return ok(st, self.new_list(st, tuple((x, ONE) for x in pieces)))
        if v[0] == 'c' and all(x[0] == 'c' for x in args):
            try:
                r = getattr(v[2], name)(*[x[2] for x in args])
                if isinstance(r, (list, tuple)):
                    if isinstance(r, tuple):
                        return ok(st, ('tup', tuple(C(x) for x in r)))
                    return ok(st, self.new_list(st, tuple((C(x), ONE) for x in r)))
                return ok(st, C(r))
            except Exception as ex:
                return [(st, None, self.exc(type(ex).__name__))]
        if self.tok and kv == 'str':
            r = strtok.method(self, v, name, args, st)
            if r is not None:
                return r
        if v[0] == 'cat' and name == 'startswith' and args and args[0][0] == 'c' and isinstance(args[0][2], str):
            h = v[1][0]
            if h[0] == 'c':
                n = min(len(h[2]), len(args[0][2]))
                if h[2][:n] != args[0][2][:n]:
                    return ok(st, FALSE)
                if len(h[2]) >= len(args[0][2]):
                    return ok(st, TRUE)
        if name in ('strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix') and kv == 'str' and len(args) < 2:
            r = self.strip_shaped(v, name, args[0] if args else NONE, st)
            if r is not None:
                return ok(st, r)
        if name == 'replace' and kv == 'str':
            r = self.replace_shaped(v, args, st)
            if r is not None:
                return ok(st, r)
        k = self.kind(v, st)
        if name in BOOL_STR:
            return [(s, C(b), None) for s, b in self.split(st, ('in', ('app', '!' + name, tuple(args), 'bool'), v))]
        if name in ('split', 'rsplit', 'splitlines'):
            key = ('app', f'str.{name}', (v,) + tuple(args), 'list')
            part = [('app', '!part', (key, C(i)), k if k in ('str', 'bytes') else 'str') for i in (0, 1)]
            return ok(st, self.new_list(st, ((part[0], ONE), (part[1], S(f'#{st.fresh()}', 'int')))))
        if name in ('partition', 'rpartition') and len(args) == 1 and args[0][0] == 'c' and args[0][2]:
            key = ('app', f'str.{name}', (v,) + tuple(args), 'list')
            pre, post = [('app', '!part', (key, C(i)), k if k in ('str', 'bytes') else 'str') for i in (0, 1)]
            empty = C('' if k != 'bytes' else b'')
            out = []
            for s, r in self.split(st, ('in', args[0], v)):
                out.append((s, ('tup', (pre, args[0], post) if r else (v, empty, empty) if name == 'partition' else (empty, empty, v)), None))
            return out
        if name in ('partition', 'rpartition'):
            key = ('app', f'str.{name}', (v,) + tuple(args), 'tuple')
            return ok(st, ('tup', tuple(('app', 'item', (key, C(i)), 'str') for i in range(3))))
        if name == 'join' and args:
            p = self.parts_of(args[0], st)
            if p is not None and all(n == ONE for _, n in p):
                seq = []
                for i, (e, _) in enumerate(p):
                    if i:
                        seq.append(v)
                    seq.append(e)
                return ok(st, mk_cat(seq) if seq else C(''))
            return ok(st, ('app', 'str.join', (v,) + tuple(args), 'str'))
        kind = 'int' if name in INT_STR else 'bytes' if name == 'encode' else 'str' if name == 'decode' else \
            k if k in ('str', 'bytes') else 'str'
        return ok(st, ('app', f'str.{name}', (v,) + tuple(args), kind))

    def no_match(self, pattern, v, st):
        """the constant pattern matches nowhere in the text"""
        sv = self.shape_of(v, st)
        if sv is None or not isinstance(pattern[2], str):
            return False
        try:
            return rx.empty(rx.conj(sv, rx.language(pattern[2], 0, 'search')))
        except Exception:
            return False

    def replace_shaped(self, v, args, st):
        """replacement in a text whose open parts have nothing to replace"""
        if len(args) != 2 or any(a[0] != 'c' or not isinstance(a[2], str) for a in args) or not args[0][2]:
            return None
        if v[0] == 'cat':
            if len(args[0][2]) > 1:
                return None
            out = []
            for p in v[1]:
                if p[0] == 'c':
                    out.append(C(p[2].replace(args[0][2], args[1][2])))
                elif self.no_match(C(re.escape(args[0][2])), p, st):
                    out.append(p)
                else:
                    return None
            return mk_cat(out)
        return v if self.no_match(C(re.escape(args[0][2])), v, st) else None

    def strip_shaped(self, v, name, chars, st):
        """strip and its kind on a text whose ends are known well enough, None when they are not"""
        if chars[0] != 'c' or not isinstance(chars[2], (str, type(None))):
            return None
        whole = name.startswith('remove')
        if whole and chars[2] is None:
            return None
        text = chars[2]
        if whole:
            if not text:
                return v
            hit = rx.cat(self.shape_of(chars, st), rx.TOP) if name == 'removeprefix' else rx.cat(rx.TOP, self.shape_of(chars, st))
            if v[0] != 'cat':
                sv = self.shape_of(v, st)
                return v if sv is not None and rx.empty(rx.conj(sv, hit)) else None
            e = v[1][0] if name == 'removeprefix' else v[1][-1]
            if e[0] != 'c' or not isinstance(e[2], str) or len(e[2]) < len(text):
                return None
            if name == 'removeprefix':
                return mk_cat([C(e[2].removeprefix(text))] + list(v[1][1:]))
            return mk_cat(list(v[1][:-1]) + [C(e[2].removesuffix(text))])
        anyof = rx.ch(rx._pred(str.isspace)) if text is None else rx.alt(*[self.shape_of(C(c), st) for c in text]) if text else None
        if anyof is None:
            return v
        parts = list(v[1]) if v[0] == 'cat' else [v]
        for side in ('rstrip', 'lstrip'):
            if name == side:
                continue
            left = side == 'rstrip'         # not the right side only: the left side is stripped
            while parts:
                e = parts[0 if left else -1]
                if e[0] == 'c':
                    if not isinstance(e[2], str):
                        return None
                    x = e[2].lstrip(text) if left else e[2].rstrip(text)
                    parts[0 if left else -1] = C(x)
                    if x:
                        break
                    parts.pop(0 if left else -1)
                    continue
                se = self.shape_of(e, st)
                if se is None or rx.nullable(se) or \
                        not rx.empty(rx.conj(se, rx.cat(anyof, rx.TOP) if left else rx.cat(rx.TOP, anyof))):
                    return None
                break
        return mk_cat(parts) if parts else C('')

    def opaque_method(self, v, name, args, kwargs, st):
        """dict-like methods of an opaque value"""
        if name == 'get':
            out = []
            for s, r in self.split(st, ('in', args[0], v)):
                out.append((s, self.rewrite.get(('item', v, args[0]), ('item', v, args[0])) if r else
                            (args[1] if len(args) > 1 else NONE), None))
            return out
        if name in ('items', 'keys', 'values'):
            n = S('#' + show(v), 'int')
            kk, vv = ('item', v, S('@each')), ('item', v, S('@value'))
            e = {'items': ('tup', (kk, vv)), 'keys': kk, 'values': vv}[name]
            return ok(st, self.new_list(st, ((e, n),)))
        if name == 'copy':
            return ok(st, v)
        st.event('mutate', v, name, tuple(args))
        st.lose(f'{name} on opaque value')
        return ok(st, ('unk', name))

    # list
    def m_list_append(self, st, v, a, kw):
        st.heap[v[1]] = ('list', st.heap[v[1]][1] + ((a[0], ONE),))
        return ok(st, NONE)

    def m_list_extend(self, st, v, a, kw):
        p = self.parts_of(a[0], st)
        if p is None:
            if self.kind(a[0], st) in ('int', 'NoneType', 'bool', 'float'):
                return [(st, None, self.exc('TypeError'))]
            st.lose('extend')
            p = ((('unk', 'extend'), S(f'#{st.fresh()}', 'int')),)
        st.heap[v[1]] = ('list', st.heap[v[1]][1] + tuple(p))
        return ok(st, NONE)

    def m_list_insert(self, st, v, a, kw):
        p = st.heap[v[1]][1]
        if a[0] == C(0):
            st.heap[v[1]] = ('list', ((a[1], ONE),) + p)
        elif a[0][0] == 'c' and isinstance(a[0][2], int) and all(n == ONE for _, n in p):
            k = slice(a[0][2]).indices(len(p))[1]
            st.heap[v[1]] = ('list', p[:k] + ((a[1], ONE),) + p[k:])
        elif a[0] == ('app', 'len', (v,), 'int') or not p:
            st.heap[v[1]] = ('list', p + ((a[1], ONE),))
        else:
            st.lose('insert at an unknown place')
            st.heap[v[1]] = ('list', p + ((a[1], ONE),))
        return ok(st, NONE)

    def m_list_copy(self, st, v, a, kw):
        return ok(st, st.alloc(st.heap[v[1]]))

    def m_list_clear(self, st, v, a, kw):
        st.heap[v[1]] = (st.heap[v[1]][0], ())
        return ok(st, NONE)

    m_set_clear = m_dict_clear = m_list_clear
    m_set_copy = m_dict_copy = m_list_copy

    def m_list_reverse(self, st, v, a, kw):
        st.heap[v[1]] = ('list', tuple(reversed(st.heap[v[1]][1])))
        return ok(st, NONE)

    def m_list_sort(self, st, v, a, kw):
        parts = st.heap[v[1]][1]
        if len(parts) < 2:
            return ok(st, NONE)
        if any(n != ONE for _, n in parts):
            st.lose('order of a sorted list')
            return ok(st, NONE)
        key = kw.get('key', NONE)
        out, live = [], [(st, ())]
        for e, _ in parts:
            nxt = []
            for s, ks in live:
                for s2, k, x in ([(s, e, None)] if key == NONE else self.call(key, [e], {}, s, None, None)):
                    if x is not None:
                        out.append((s2, None, x))
                    else:
                        nxt.append((s2, ks + (k,)))
            live = nxt
        for s0, ks in live:
            for s, rev in self.truthy(kw.get('reverse', C(False)), s0):
                if all(k[0] == 'tup' and k[1] and k[1][0][0] == 'c' for k in ks) and len({k[1][0] for k in ks}) == len(ks) \
                        and len({k[1][0][1] for k in ks}) == 1:
                    ks = tuple(k[1][0] for k in ks)     # the first elements decide
                open_ = sum(1 for k in ks if not self.constant(k))
                if open_ > 1 and len(ks) > 4:
                    s.lose('order of a sorted list')
                    out.extend(ok(s, NONE))
                    continue
                rows = [(s, ())]            # insertion sort: the order is decided by the comparisons made
                for i in range(len(ks)):
                    new = []
                    for s1, order in rows:
                        for s2, o, x in self.insert_sorted(s1, ks, order, i, rev):
                            if x is not None:
                                out.append((s2, None, x))
                            else:
                                new.append((s2, o))
                    rows = new
                for s1, order in rows:
                    s1.heap[v[1]] = ('list', tuple(parts[j] for j in order))
                    out.append((s1, NONE, None))
        return out

    def constant(self, k):
        return k[0] == 'c' or k[0] == 'tup' and all(self.constant(x) for x in k[1])

    def insert_sorted(self, st, ks, order, i, rev):
        out, live = [], [st]
        for p in range(len(order), 0, -1):
            nxt = []
            j = order[p - 1]
            for s in live:
                for s2, less, x in (self.cmp('lt', ks[j], ks[i], s) if rev else self.cmp('lt', ks[i], ks[j], s)):
                    if x is not None:
                        out.append((s2, None, x))
                    elif less:
                        nxt.append(s2)
                    else:
                        out.append((s2, order[:p] + (i,) + order[p:], None))
            live = nxt
        out.extend((s, (i,) + order, None) for s in live)
        return out

    def m_list_pop(self, st, v, a, kw):
        return self.container_pop(v, a[0] if a else C(-1), None, st)

    def m_list_remove(self, st, v, a, kw):
        p = st.heap[v[1]][1]
        out, live = [], [st]
        for i, (e, n) in enumerate(p):
            nxt = []
            for s in live:
                if n != ONE:
                    for s2, r in self.split(s, ('in', a[0], ('tup', (e,)))):
                        if r:
                            s2.heap[v[1]] = ('list', p[:i] + ((e, lin_add(n, C(1), -1)),) + p[i + 1:])
                            out.append((s2, NONE, None))
                        else:
                            nxt.append(s2)
                    continue
                for s2, r in self.eq(e, a[0], s):
                    if r:
                        s2.heap[v[1]] = ('list', p[:i] + p[i + 1:])
                        out.append((s2, NONE, None))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(s, None, self.exc('ValueError')) for s in live]

    def m_list_index(self, st, v, a, kw):
        p = st.heap[v[1]][1]
        if all(n == ONE for _, n in p):
            return self.call_bim(('tup', tuple(e for e, _ in p)), 'index', a, kw, st, None, None)
        out = []
        for s, r in self.member(a[0], v, st):
            out.append((s, ('app', 'list.index', (v, a[0]), 'int'), None) if r else (s, None, self.exc('ValueError')))
        return out

    def m_list_count(self, st, v, a, kw):
        p = st.heap[v[1]][1]
        tot = C(0)
        live = [(st, C(0))]
        for e, n in p:
            nxt = []
            for s, tot in live:
                if n == ONE:
                    for s2, r in self.eq(e, a[0], s):
                        nxt.append((s2, lin_add(tot, C(1)) if r else tot))
                elif self.decide(self.a_eq(e, a[0], s), s) is False:
                    nxt.append((s, tot))
                elif e == a[0]:
                    nxt.append((s, lin_add(tot, n)))
                else:
                    c = S(f'#{s.fresh()}', 'int')
                    s.facts[self.a_lt(n, c)] = False
                    nxt.append((s, lin_add(tot, c)))
            live = nxt
        return [(s, t, None) for s, t in live]

    def container_pop(self, v, k, default, st):
        if v[0] != 'ref':
            st.event('mutate', v, 'pop', (k,))
            st.lose('pop on opaque value')
            return ok(st, ('item', v, k))
        o = st.heap[v[1]]
        if o[0] == 'dict':
            out = []
            for s, i in self.dict_find(v, k, st):
                if i is None:
                    out.append((s, default, None) if default is not None else (s, None, self.exc('KeyError', k)))
                else:
                    es = s.heap[v[1]][1]
                    e = es[i]
                    rest = es[:i] + es[i + 1:] if e[2] == ONE else \
                        es[:i] + ((e[0], e[1], lin_add(e[2], C(1), -1)),) + es[i + 1:]
                    s.heap[v[1]] = ('dict', rest)
                    out.append((s, e[1], None))
            return out
        if o[0] == 'list':
            p = o[1]
            if all(n == ONE for _, n in p) and k[0] == 'c' and isinstance(k[2], int):
                if not p or k[2] >= len(p) or k[2] < -len(p):
                    return [(st, None, self.exc('IndexError'))]
                lst = list(p)
                e = lst.pop(k[2])
                st.heap[v[1]] = ('list', tuple(lst))
                return ok(st, e[0])
            if k == C(-1):
                out, live = [], [st]
                for i in range(len(p) - 1, -1, -1):
                    e, n = p[i]
                    nxt = []
                    for s in live:
                        for s2, r in self.split(s, self.a_lt(C(0), n)):
                            if r:
                                s2.heap[v[1]] = ('list', p[:i] + (((e, lin_add(n, C(1), -1)),) if n != ONE else ()))
                                out.append((s2, e, None))
                            else:
                                nxt.append(s2)
                    live = nxt
                return out + [(s, None, self.exc('IndexError')) for s in live]
            out = []
            for s, e, ex in self.list_get(p, k, st):
                if ex is None:
                    s.heap[v[1]] = ('list', tuple((x, n if n != ONE and x != e else n) for x, n in p if not (x == e and n == ONE)))
                out.append((s, e, ex))
            return out
        if o[0] == 'set' and all(n == ONE for _, n in o[1]):
            p = self.parts_of(v, st)
            if not p:
                return [(st, None, self.exc('KeyError'))]
            st.heap[v[1]] = ('set', p[1:])
            return ok(st, p[0][0])
        st.lose('pop')
        return ok(st, ('unk', 'pop'))

    # dict
    def m_dict_get(self, st, v, a, kw):
        d = a[1] if len(a) > 1 else NONE
        out = []
        for s, i in self.dict_find(v, a[0], st):
            out.append((s, d if i is None else s.heap[v[1]][1][i][1], None))
        return out

    def m_dict_items(self, st, v, a, kw):
        return ok(st, self.new_list(st, tuple((('tup', (k, e)), n) for k, e, n in st.heap[v[1]][1])))

    def m_dict_keys(self, st, v, a, kw):
        ref = st.alloc(('set', tuple((k, n) for k, e, n in st.heap[v[1]][1])))
        st.ordered = st.ordered | {ref[1]}
        return ok(st, ref)

    def m_dict_values(self, st, v, a, kw):
        return ok(st, self.new_list(st, tuple((e, n) for k, e, n in st.heap[v[1]][1])))

    def m_dict_update(self, st, v, a, kw):
        live = [st]
        if a:
            live = self.dict_update(st, v, a[0])
        for k, x in kw.items():
            live = [y for s in live for y in self.dict_set(s, v, C(k), x)]
        return [(s, NONE, None) for s in live]

    def m_dict_pop(self, st, v, a, kw):
        return self.container_pop(v, a[0], a[1] if len(a) > 1 else None, st)

    def m_dict_setdefault(self, st, v, a, kw):
        d = a[1] if len(a) > 1 else NONE
        out = []
        for s, i in self.dict_find(v, a[0], st):
            if i is None:
                out.extend((s2, d, None) for s2 in self.dict_set(s, v, a[0], d))
            else:
                out.append((s, s.heap[v[1]][1][i][1], None))
        return out

    # set
    def m_set_add(self, st, v, a, kw):
        self.set_add(st, v, a[0])
        return ok(st, NONE)

    def m_set_update(self, st, v, a, kw):
        for x in a:
            for e, n in self.parts_of(x, st) or ():
                self.set_add(st, v, e, n)
        return ok(st, NONE)

    def m_set_discard(self, st, v, a, kw):
        o = st.heap[v[1]]
        keep = []
        for e, n in o[1]:
            r = self.decide(self.a_eq(e, a[0], st), st)
            if r is True:
                continue
            keep.append((e, n if r is False else S(f'#{st.fresh()}', 'int')))
        st.heap[v[1]] = ('set', tuple(keep))
        return ok(st, NONE)

    m_set_remove = m_set_discard

    def m_set_difference(self, st, v, a, kw):
        return self.set_op('Sub', v, a[0], st)

    def m_set_union(self, st, v, a, kw):
        return self.set_op('BitOr', v, a[0], st)

    def m_set_intersection(self, st, v, a, kw):
        return self.set_op('BitAnd', v, a[0], st)

    def m_set_symmetric_difference(self, st, v, a, kw):
        return self.set_op('BitXor', v, a[0], st)

    def m_set_issubset(self, st, v, a, kw):
        return [(s, C(b), e) for s, b, e in self.subset(v, a[0], st, 'le')]

    def m_set_issuperset(self, st, v, a, kw):
        return [(s, C(b), e) for s, b, e in self.subset(a[0], v, st, 'le')]

    def m_set_isdisjoint(self, st, v, a, kw):
        return self.bind(self.set_op('BitAnd', v, a[0], st),
                         lambda s, x: [(s2, C(not b), None) for s2, b in self.truthy(x, s)])
