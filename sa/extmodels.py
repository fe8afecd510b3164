"""Declared models of external classes: files, lxml elements, the jsonschema validator.

Objects of these classes live on the abstract heap as ('obj', '!kind', attributes); their methods are the functions
below.  Effects outside the program (opening, writing) are recorded as events.
"""
import json

import rx
import strtok
from terms import *     # noqa


def ok(st, v=NONE):
    return [(st, v, None)]


def attrs_of(st, ref):
    return dict(st.heap[ref[1]][2])


def put(st, ref, **kw):
    o = st.heap[ref[1]]
    d = dict(o[2])
    d.update(kw)
    st.heap[ref[1]] = ('obj', o[1], tuple(d.items()))


def newobj(st, kind, **kw):
    return st.alloc(('obj', kind, tuple(kw.items())))


# ---------------------------------------------------------------- files
def m_open(I, st, args, kwargs, node=None):
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
    v = dict(zip(names, args))
    v.update(kwargs)
    path, mode, enc = v.get('file', NONE), v.get('mode', C('r')), v.get('encoding', NONE)
    st.event('open', path, mode, enc, getattr(node, 'lineno', 0), v.get('errors', NONE))
    return ok(st, newobj(st, '!file', name=path, mode=mode, encoding=enc))


def m_codecs_open(I, st, args, kwargs, node=None):
    names = ['file', 'mode', 'encoding', 'errors', 'buffering']
    kw = dict(zip(names, args))
    kw['file'] = kwargs.get('filename', kw.get('file', NONE))
    kw.update({k: v for k, v in kwargs.items() if k != 'filename'})
    return m_open(I, st, [], kw, node)


def m_json_dump(I, st, args, kwargs, node=None):
    f = args[1] if len(args) > 1 else kwargs.get('fp', NONE)
    for s, v, e in I.call(('bi', 'json.dumps'), list(args[:1]), {k: v for k, v in kwargs.items() if k != 'fp'}, st, node, None):
        s.event('write', f, v)
        return ok(s)


def f_write(I, st, ref, args, kwargs):
    st.event('write', ref, args[0])
    return ok(st, S('#written', 'int'))


def f_writelines(I, st, ref, args, kwargs):
    for e, n in I.parts_of(args[0], st) or ():
        st.event('write', ref, e)
    return ok(st)


def f_read(I, st, ref, args, kwargs):
    return ok(st, ('app', '!read', (attrs_of(st, ref)['name'],), 'str'))


def f_enter(I, st, ref, args, kwargs):
    return ok(st, ref)


def f_close(I, st, ref, args, kwargs):
    st.event('close', ref)
    return ok(st)


# ---------------------------------------------------------------- lxml elements
def m_element(I, st, tag, args, kwargs):
    el = newobj(st, '!elem', tag=tag, text=NONE, tail=NONE, parent=NONE)
    at = []
    for k, v in kwargs.items():
        at.append((C(k), v, ONE))
    put(st, el, attrib=st.alloc(('dict', tuple(at))), kids=st.alloc(('list', ())))
    for a in args:
        if a[0] == 'ref' and st.heap[a[1]] [0] == 'obj':
            e_append(I, st, el, [a], {})
        elif a[0] == 'ref' and st.heap[a[1]][0] == 'dict':
            for k, v, n in st.heap[a[1]][1]:
                I.dict_set(st, attrs_of(st, el)['attrib'], k, v)
        else:
            t = attrs_of(st, el)['text']
            put(st, el, text=a if t == NONE else mk_cat([t, a]))
    return ok(st, el)


def m_etree_element(I, st, args, kwargs, node=None):
    kw = {k: v for k, v in kwargs.items() if k not in ('attrib', 'nsmap')}
    extra = [kwargs['attrib']] if 'attrib' in kwargs else list(args[1:2])
    return m_element(I, st, args[0], extra, kw)


def e_append(I, st, ref, args, kwargs):
    child = args[0]
    if child[0] != 'ref' or st.heap[child[1]][:2] != ('obj', '!elem'):
        return [(st, None, I.exc('TypeError'))]
    p = attrs_of(st, child)['parent']
    if p != NONE:                   # an element has one parent: appending it again moves it
        kids = attrs_of(st, p)['kids']
        st.heap[kids[1]] = ('list', tuple(x for x in st.heap[kids[1]][1] if x[0] != child))
    put(st, child, parent=ref)
    kids = attrs_of(st, ref)['kids']
    st.heap[kids[1]] = ('list', st.heap[kids[1]][1] + ((child, ONE),))
    return ok(st)


def e_get(I, st, ref, args, kwargs):
    at = attrs_of(st, ref)['attrib']
    for k, v, n in st.heap[at[1]][1]:
        if k == args[0]:
            return ok(st, v)
    return ok(st, args[1] if len(args) > 1 else NONE)


def e_set(I, st, ref, args, kwargs):
    I.dict_set(st, attrs_of(st, ref)['attrib'], args[0], args[1])
    return ok(st)


def descend(st, ref):
    out = [ref]
    for k, n in st.heap[attrs_of(st, ref)['kids'][1]][1]:
        out += descend(st, k)
    return out


def e_iter(I, st, ref, args, kwargs):
    return ok(st, st.alloc(('iter', tuple((x, ONE) for x in descend(st, ref)))))


def m_tostring(I, st, args, kwargs, node=None):
    return ok(st, ('app', '!html', (args[0],) + tuple(v for _, v in sorted(kwargs.items())), 'bytes'))


def m_fromstring(I, st, args, kwargs, node=None):
    """parsing what was serialised gives the same elements (declared property of the library)"""
    for x in subterms(args[0]):
        if x[0] == 'app' and x[1] == '!html':
            return ok(st, x[2][0])
    st.lose('html.fromstring')
    return ok(st, ('unk', 'html.fromstring'))


# ---------------------------------------------------------------- jsonschema
def m_validator(I, st, args, kwargs, node=None):
    return ok(st, newobj(st, '!validator', schema=args[0]))


def v_validate(I, st, ref, args, kwargs):
    st.event('validate', attrs_of(st, ref)['schema'], args[0])
    return ok(st)


METHODS = {
    '!file': {'write': f_write, 'writelines': f_writelines, 'read': f_read, 'close': f_close, 'flush': f_close,
              '__enter__': f_enter, '__exit__': f_close},
    '!elem': {'append': e_append, 'get': e_get, 'set': e_set, 'iter': e_iter},
    '!validator': {'validate': v_validate},
}
METHODS.update(strtok.METHODS)
CALLS = {
    'open': m_open, 'io.open': m_open, 'codecs.open': m_codecs_open, 'json.dump': m_json_dump,
    'lxml.etree.tostring': m_tostring, 'lxml.html.tostring': m_tostring, 'lxml.etree.Element': m_etree_element,
    'lxml.html.fromstring': m_fromstring,
    'jsonschema.Draft7Validator': m_validator, 'jsonschema.validators.Draft7Validator': m_validator,
}


PLAIN = rx.cs((0x20, 0x21), (0x23, 0x5b), (0x5d, 0x7e))


def plain(I, v, st):
    """JSON writes this text as it is"""
    return v[0] != 'c' and all(isinstance(x, strtok.Ch) and rx.chas(PLAIN, x.c) or isinstance(x, strtok.Tok) and
                               strtok.rmatch.subset(x.info.alphabet, PLAIN) for x in strtok.items_of(I, v, st))


def plain_value(v, st):
    """Python value of a constant structure"""
    if v[0] == 'c':
        if isinstance(v[2], (str, int, float, bool, type(None))):
            return v[2]
    elif v[0] == 'ref':
        o = st.heap[v[1]]
        if o[0] == 'list' and all(n == ONE for _, n in o[1]):
            return [plain_value(e, st) for e, _ in o[1]]
        if o[0] == 'dict' and all(n == ONE and k[0] == 'c' and isinstance(k[2], str) for k, _, n in o[1]):
            return {k[2]: plain_value(e, st) for k, e, _ in o[1]}
    raise LookupError


def json_text(I, v, st, kwargs):
    try:
        return C(json.dumps(plain_value(v, st), **{k: plain_value(x, st) for k, x in kwargs.items()}))
    except LookupError:
        pass
    try:
        if I.kind(v, st) == 'str' and plain(I, v, st):
            return mk_cat([C('"'), v, C('"')])
    except strtok.Undecided:
        pass
    return None


def build(v, st):
    if isinstance(v, list):
        return st.alloc(('list', tuple((build(e, st), ONE) for e in v)))
    if isinstance(v, dict):
        return st.alloc(('dict', tuple((C(k), build(e, st), ONE) for k, e in v.items())))
    return C(v)


def json_value(I, v, st):
    if v[0] == 'c' and v[1] == 'str':
        try:
            return build(json.loads(v[2]), st)
        except ValueError:
            return None
    try:
        items = strtok.items_of(I, v, st)
        if len(items) > 2 and all(isinstance(x, strtok.Ch) and x.c == 34 for x in (items[0], items[-1])):
            r = strtok.text_of(items[1:-1])
            if plain(I, r, st):
                return r
    except strtok.Undecided:
        pass
    return None


def external(I, name, st, args, kwargs, node):
    if name in CALLS:
        return CALLS[name](I, st, args, kwargs, node)
    if name.startswith('lxml.html.builder.') or name.startswith('lxml.builder.E.'):
        return m_element(I, st, C(name.rpartition('.')[2].lower()), args, kwargs)
    if name == 'json.dumps' and I.tok and not args[1:] and set(kwargs) <= {'ensure_ascii'}:
        r = json_text(I, args[0], st, kwargs)
        if r is not None:
            return ok(st, r)
    if name == 'json.loads' and I.tok and len(args) == 1 and not kwargs:
        r = json_value(I, args[0], st)
        if r is not None:
            return ok(st, r)
    if name == 'json.dumps' and I.tok:
        rest = tuple(args[1:]) + tuple(v for _, v in sorted(kwargs.items()))
        return ok(st, ('app', 'json.dumps', (I.deep(args[0], st, {}),) + rest, 'str'))
    if name == 'json.loads' and I.tok and args and args[0][0] == 'app' and args[0][1] == 'json.dumps':
        return ok(st, I.deep(args[0][2][0], st, {}))
    if name == 'json.load':
        f = args[0]
        if f[0] == 'ref' and st.heap[f[1]][:2] == ('obj', '!file'):
            return ok(st, ('app', '!json', (attrs_of(st, f)['name'],), 'any'))
        return ok(st, ('app', '!json', (f,), 'any'))
    return None
