"""Abstract values (terms) used by the trace-partitioned abstract interpreter.

A value is a tuple tagged by its first element:
  ('c', typename, v)          constant scalar                    ('tup', (v, ...))      tuple
  ('s', name, kind)           scenario / opaque symbol           ('ref', id)            heap object
  ('lin', ((t, k), ...), c)   linear combination of terms        ('cat', (v, ...))      string concatenation
  ('item', base, key)         element of an opaque container     ('attr', base, name)   attribute of an opaque
  ('app', fn, (args), kind)   uninterpreted pure application     ('unk', reason)        value the analysis lost
  ('fn', id) ('bm', self, id) functions / bound methods          ('bi', name)           builtin or external name
  ('bim', self, name)         method of a non-repo value         ('cls', key)           class of the repo
  ('mod', name)               module                             ('exc', name, payload) exception instance
"""

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def C(v):
    return ('c', type(v).__name__, v)


def S(name, kind='any'):
    return ('s', name, kind)


def is_const(v):
    return v[0] == 'c'


def is_num_const(v):
    return v[0] == 'c' and v[1] in ('int', 'float', 'bool')


def lin_parts(v):
    """-> (dict term->coef, const)"""
    if v[0] == 'lin':
        return dict(v[1]), v[2]
    if is_num_const(v):
        return {}, v[2] + 0
    return {v: 1}, 0


def mk_lin(d, c):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        if isinstance(c, bool):
            c = int(c)
        return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', tuple(sorted(d.items(), key=repr)), c)


def lin_add(a, b, kb=1):
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return mk_lin(d, ca + kb * cb)


def lin_scale(a, k):
    da, ca = lin_parts(a)
    return mk_lin({t: c * k for t, c in da.items()}, ca * k)


def subterms(v):
    """All sub-terms of a term (not following heap references)."""
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            yield x
        stack.extend(y for y in x if isinstance(y, tuple))


def has_unk(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] == 'unk':
        return True
    return any(has_unk(x) for x in v if isinstance(x, tuple))


def mk_cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            out.extend(p[1])
        else:
            out.append(p)
    merged = []
    for p in out:
        if p[0] == 'c' and p[1] == 'str':
            if p[2] == '':
                continue
            if merged and merged[-1][0] == 'c' and merged[-1][1] == 'str':
                merged[-1] = C(merged[-1][2] + p[2])
                continue
        merged.append(p)
    if not merged:
        return C('')
    if len(merged) == 1 and (merged[0][0] == 'c' or (merged[0][0] in ('s', 'app') and merged[0][-1] == 'str')):
        return merged[0]
    return ('cat', tuple(merged))


def show(v, st=None, depth=0):
    """Readable rendering for reports."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    t = v[0]
    if t == 'c':
        return repr(v[2])
    if t == 's':
        return v[1]
    if t == 'tup':
        return '(' + ', '.join(show(x, st, depth + 1) for x in v[1]) + ')'
    if t == 'lin':
        parts = [(f'{k}*' if k != 1 else '') + show(x, st, depth + 1) for x, k in v[1]]
        return ' + '.join(parts + ([str(v[2])] if v[2] else []))
    if t == 'cat':
        return ' . '.join(show(x, st, depth + 1) for x in v[1])
    if t == 'item':
        return f'{show(v[1], st, depth + 1)}[{show(v[2], st, depth + 1)}]'
    if t == 'attr':
        return f'{show(v[1], st, depth + 1)}.{v[2]}'
    if t == 'app':
        return f"{v[1]}({', '.join(show(x, st, depth + 1) for x in v[2])})"
    if t == 'ref' and st is not None and depth < 4:
        o = st.heap.get(v[1])
        if o is None:
            return f'&{v[1]}'
        if o[0] in ('list', 'set', 'iter'):
            b = {'list': '[]', 'set': '{}', 'iter': '<>'}[o[0]]
            return b[0] + ', '.join(
                ('*' if n != ONE else '') + show(e, st, depth + 1) for e, n in o[1]) + b[1]
        if o[0] == 'dict':
            return '{' + ', '.join(('*' if n != ONE else '') + show(k, st, depth + 1) + ': ' + show(e, st, depth + 1)
                                   for k, e, n in o[1]) + '}'
        if o[0] == 'obj':
            return f'<{o[1]}>'
    if t == 'exc':
        return f'{v[1]}'
    return str(v[0]) + ':' + str(v[1])


ONE = C(1)
