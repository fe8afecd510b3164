"""Schemas for round trips through a text format, and the comparison of what comes back."""
from opscen import *    # noqa

TYPENAME = r'[$A-Z][-$A-Za-z0-9]{0,63}'
FIELDNAME = r'[$a-z][_$A-Za-z0-9]{0,63}'
DESC = r'[^\s]([^\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]*[^\s])?'
OPTDEF = {'{': C(0), '[': C(1), ']': C(1)}


def m_accept(I, st, args, kwargs, node):
    return [(st, args[0], None)]


class Names:
    """open names and descriptions of one scenario"""

    def __init__(self, sc):
        self.sc = sc
        self.types, self.fields = [], []

    def t(self, n):
        v = S(n, 'str')
        if v not in self.types:
            self.sc.shape(v, TYPENAME)
            self.types.append(v)
        return v

    def f(self, n):
        v = S(n, 'str')
        if v not in self.fields:
            self.sc.shape(v, FIELDNAME)
            self.fields.append(v)
        return v

    def d(self, n):
        v = S(n, 'str')
        if v not in self.sc.shapes:
            self.sc.shape(v, DESC)
        return v

    def n(self, n, lo=None):
        v = S(n, 'int')
        if lo is not None:
            self.sc.lt(v, C(lo), False)
        return v


def values(v, st):
    """parts of a list or tuple, None when not fully known"""
    if v[0] == 'tup':
        return list(v[1])
    if v[0] == 'ref':
        o = st.heap[v[1]]
        if o[0] in ('list', 'iter') and all(n == ONE for _, n in o[1]):
            return [e for e, _ in o[1]]
    return None


def opaque(v, st, seen=None):
    """the analysis lost track of part of this value"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'unk':
        return True
    if v[0] == 'app' and v[1] not in ('str', 'json.dumps', 'len', 'float'):
        return True
    if v[0] == 'ref':
        o = st.heap.get(v[1])
        if o is None:
            return True
        if o[0] == 'dict':
            return any(opaque(k, st) or opaque(e, st) or n != ONE for k, e, n in o[1])
        if o[0] == 'obj':
            return any(opaque(e, st) for _, e in o[2])
        return any(opaque(e, st) or n != ONE for e, n in o[1])
    return any(opaque(x, st) for x in v if isinstance(x, tuple))


def option(o, base):
    """option string -> (character, value) in comparable form, None for a default"""
    if o[0] == 'c':
        ch, rest = o[2][:1], C(o[2][1:])
    elif o[0] == 'cat' and o[1][0][0] == 'c':
        h = o[1][0][2]
        ch, rest = h[0], mk_cat(([C(h[1:])] if h[1:] else []) + list(o[1][1:]))
    else:
        return ('?', o)
    if ch in '{}[]&' or ch in 'yz':
        try:
            if rest[0] == 'c':
                rest = C(float(rest[2]) if ch in 'yz' else int(rest[2]))
            elif rest[0] == 'app' and rest[1] == 'str':
                rest = rest[2][0]
        except ValueError:
            return ('?', o)
        if rest == OPTDEF.get(ch) and not (ch == '{' and base == 'Integer'):
            return None
    return (ch, rest)


def opts_of(v, base, st):
    vs = values(v, st)
    if vs is None:
        return None
    out = {}
    for o in vs:
        r = option(o, base)
        if r is None:
            continue
        if r[0] in out:
            return {'?': v}
        out[r[0]] = r[1]
    return out


def same_text(a, b):
    return a == b


def compare(exp, got, se, sg, opts=True, desc=True):
    """first difference between two abstract schemas, or None"""
    te, tg = dict_get(exp, 'types', se), dict_get(got, 'types', sg)
    ie, ig = dict_get(exp, 'info', se), dict_get(got, 'info', sg)
    r = same(ie, ig, se, sg)
    if r:
        return f'info: {r}'
    le, lg = values(te, se), values(tg, sg) if tg is not None else None
    if lg is None:
        return 'no list of types'
    if len(le) != len(lg):
        return f'{len(lg)} types instead of {len(le)}'
    for a, b in zip(le, lg):
        a, b = values(a, se), values(b, sg)
        if b is None or len(b) < 2:
            return f'type {show(a[0])}: {show(b) if b else b}'
        a, b = pad(a, 5, se), pad(b, 5, sg)
        who = f'type {show(a[0])}'
        for i, col in ((0, 'name'), (1, 'base type')) + (((3, 'description'),) if desc else ()):
            if a[i] != b[i]:
                return f'{who}: {col} {show(b[i], sg)} instead of {show(a[i], se)}'
        oa, ob = opts_of(a[2], a[1][2], se), opts_of(b[2], a[1][2], sg)
        if oa != ob:
            return f'{who}: options {show_opts(ob)} instead of {show_opts(oa)}'
        fa, fb = values(a[4], se), values(b[4], sg)
        if fb is None or len(fa) != len(fb):
            return f'{who}: {len(fb) if fb is not None else "unknown"} fields instead of {len(fa)}'
        for x, y in zip(fa, fb):
            x, y = values(x, se), values(y, sg)
            if y is None or len(x) != len(y):
                return f'{who}: field {show(x[1])} has {len(y) if y else 0} columns'
            fw = f'{who} field {show(x[1])}'
            for i in range(len(x)):
                if len(x) == 5 and i == 3:
                    oa, ob = opts_of(x[3], x[2][2] if x[2][0] == 'c' else '', se), opts_of(y[3], x[2][2] if x[2][0] == 'c' else '', sg)
                    if oa != ob:
                        return f'{fw}: options {show_opts(ob)} instead of {show_opts(oa)}'
                elif x[i] != y[i] and (desc or i != len(x) - 1):
                    col = ('id', 'name', 'type', '', 'description')[i] if len(x) == 5 else ('id', 'value', 'description')[i]
                    return f'{fw}: {col} {show(y[i], sg)} instead of {show(x[i], se)}'
    return None


def show_opts(o):
    return '{' + ', '.join(f'{k}{show(v)}' for k, v in sorted((o or {}).items())) + '}'


def pad(vs, n, st):
    vs = list(vs)
    while len(vs) < n:
        vs.append(st.alloc(('list', ())) if len(vs) in (2, 4) else C(''))
    return vs


def dict_get(v, key, st):
    if v[0] == 'ref' and st.heap[v[1]][0] == 'dict':
        for k, e, n in st.heap[v[1]][1]:
            if k == C(key):
                return e
    return None


def same(a, b, sa, sb, depth=0):
    if a is None or b is None:
        return None if a is b else ('missing' if b is None else 'added')
    if a[0] == 'ref' and b[0] == 'ref':
        oa, ob = sa.heap[a[1]], sb.heap[b[1]]
        if oa[0] != ob[0]:
            return f'{ob[0]} instead of {oa[0]}'
        if oa[0] == 'dict':
            da, db = {k: e for k, e, n in oa[1]}, {k: e for k, e, n in ob[1]}
            for k in da:
                if k not in db:
                    return f'{show(k)} missing'
                r = same(da[k], db[k], sa, sb, depth + 1)
                if r:
                    return f'{show(k)}: {r}'
            extra = [k for k in db if k not in da]
            return f'{show(extra[0])} added' if extra else None
        xa, xb = [e for e, n in oa[1]], [e for e, n in ob[1]]
        if len(xa) != len(xb):
            return f'{len(xb)} elements instead of {len(xa)}'
        for x, y in zip(xa, xb):
            r = same(x, y, sa, sb, depth + 1)
            if r:
                return r
        return None
    return None if a == b else f'{show(b, sb)} instead of {show(a, sa)}'
