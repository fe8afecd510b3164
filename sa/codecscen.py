"""Abstract scenarios for the codec: an abstract schema, an abstract value, one call to encode or decode.

The whole chain is interpreted from the source under analysis: Codec construction (symbol table), dispatch and the
type's encoder/decoder.  Only three things are replaced by declared models: schema unfolding (identity; analysed on
its own elsewhere), nested encode/decode calls (outcome fixed by the scenario), and byte<->text conversions.
"""
import functools
import string

import rx
from terms import *     # noqa
from interp import Interp
from absint import Budget

CODEC_MOD = 'jadn.codec'
CODEC_CLS = 'jadn.codec:Codec'
DT = C('T')


def opt_str(ch, val=None):
    if val is None:
        return C(ch)
    if val[0] == 'c' and val[1] == 'str':
        return C(ch + val[2])
    if val[0] == 's' and val[2] == 'str':
        return ('cat', (C(ch), val))
    return ('cat', (C(ch), ('app', 'str', (val,), 'str')))


@functools.lru_cache(None)
def closed(atom):
    """condition on the result of an operation that is not interpreted, all of whose operands are constants"""
    app = False
    for t in subterms(atom):
        if t[0] in ('s', 'ref', 'item', 'unk', 'lost', 'fn', 'bm', 'cls'):
            return False
        app = app or t[0] == 'app'
    return app


class Outcome:
    def __init__(self, st, val, exc):
        self.st, self.val, self.exc = st, val, exc

    @property
    def lost(self):
        for a in self.st.facts:
            if closed(a):       # a condition without open parts has one outcome, but the analysis took both
                self.st.lose('a condition on constants')
                break
        return self.st.lost

    def __repr__(self):
        return f"{'raise ' + self.exc[1] if self.exc else 'return ' + show(self.val, self.st)}" + \
            (f' [lost: {sorted(self.lost)}]' if self.lost else '')


class Ord:
    """declared relations between numeric symbols used by a scenario (facts)"""


class Scenario:
    """one abstract initial state and the call made in it"""

    def __init__(self, interp, name):
        self.I = interp
        self.name = name
        self.st = interp.new_state()
        self.nested = None
        self.eqs = {}         # frozenset({a, b}) -> bool
        self.members = {}     # elem -> bool: membership of an element in any declared-name collection
        self.truth = {}       # atom -> bool
        self.models = {}
        self.rewrite = {}
        self.shapes = {}
        self.split_clean = False

    # ---- building
    def lst(self, *vals):
        return self.st.alloc(('list', tuple(v if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple)
                                            and v[0] and isinstance(v[0], tuple) else (v, ONE) for v in vals)))

    def many(self, val, count):
        return (val, count)

    def dct(self, *entries):
        return self.st.alloc(('dict', tuple(e if len(e) == 3 else (e[0], e[1], ONE) for e in entries)))

    def fact(self, atom, val=True):
        while atom[0] == 'not':
            atom, val = atom[1], not val
        self.st.facts[atom] = val

    def lt(self, a, b, val=True):
        self.fact(self.I.a_lt(a, b), val)

    def eq(self, a, b, val=True):
        self.eqs[frozenset((a, b))] = val

    def distinct(self, *xs):
        for i, a in enumerate(xs):
            for b in xs[i + 1:]:
                self.eq(a, b, False)

    def schema(self, base, opts=(), fields=(), extra_types=()):
        t = self.lst(DT, C(base), self.lst(*opts), C(''), self.lst(*fields))
        return self.dct((C('types'), self.lst(t, *extra_types)))

    def field(self, fid, name, ftype, opts=()):
        return self.lst(fid, name, ftype, self.lst(*opts), C(''))

    def match(self, pat, val, yes):
        """whether text `val` matches pattern `pat` from its start"""
        for fn in ('re.match', 're.fullmatch') + (('re.search',) if yes else ()):
            self.truth['truthy', ('app', fn, (pat, val), 'match')] = yes

    def text(self, name, pattern, kind='str'):
        """a text of the declared language (a regular expression)"""
        v = S(name, kind)
        return self.shape(v, pattern)

    def shape(self, v, pattern):
        import re._parser as p
        lo, hi = p.parse(pattern).getwidth()
        self.shapes[v] = rx.language(pattern)
        n = ('app', 'len', (v,), 'int')
        self.lt(n, C(lo), False)
        if hi < 10 ** 6:
            self.lt(C(hi), n, False)
        return v

    def clean_alphabet(self, v):
        """text v contains only characters of the encoding's alphabet"""
        self.clean = getattr(self, 'clean', ()) + (v,)

    # ---- running
    def oracle(self, atom, st, I):
        if atom in self.truth:
            return self.truth[atom]
        if atom[0] == 'eq':
            r = self.eqs.get(frozenset(atom[1:]))
            if r is not None:
                return r
        if atom[0] == 'in' and getattr(self, 'clean', None) and any(x in self.clean for x in subterms(atom[1])):
            al = {x[2] for x in atom[2][1] if x[0] == 'c'} if atom[2][0] == 'tup' else \
                set(atom[2][2]) if atom[2][0] == 'c' and isinstance(atom[2][2], (str, bytes)) else set()
            if atom[1][0] == 'item' and set(string.ascii_letters + string.digits + '-_') <= al:
                return True
        if atom[0] == 'in' and atom[1] in self.members:
            r = self.members[atom[1]]
            return r(atom, st) if callable(r) else r
        if atom[0] == 'not':
            r = self.oracle(atom[1], st, I)
            return None if r is None else not r
        return None

    def install(self):
        I = self.I
        I.models = dict(BASE_MODELS)
        I.models.update(self.models)
        I.attr_models = {}
        I.rewrite = self.rewrite
        I.shapes = self.shapes
        I.split_clean = self.split_clean
        I.tok = getattr(self, 'tok', False)
        I.oracle = self.oracle
        I.steps = 0

    def run(self, direction, schema, value, verbose_rec=False, verbose_str=False, datatype=DT):
        """-> list of Outcome"""
        self.install()
        I = self.I
        outs = []
        cls = I.modattr(CODEC_MOD, 'Codec')
        built = I.call_function(cls, [schema, C(verbose_rec), C(verbose_str)], self.st)
        for st, codec, exc in built:
            if exc is not None:
                outs.append(Outcome(st.lose('codec construction failed: ' + str(exc[1])), None, exc))
                continue
            for s2, m, e in I.getattr(codec, direction, st):
                depth0 = {'n': 0}
                fn = I.fns[m[2]] if m[0] == 'bm' else None
                if fn is None:
                    outs.append(Outcome(s2.lose('no method ' + direction), None, I.exc('AttributeError')))
                    continue
                for dname in ('encode', 'decode'):
                    (_, mm, _), = I.getattr(codec, dname, s2)[:1]
                    if mm[0] == 'bm':
                        I.models[I.fns[mm[2]].qual] = self.make_nested(dname, I.fns[mm[2]])
                I.steps = 0
                for s3, v, e3 in I.call_fn(fn, [codec, datatype, value], {}, s2, None):
                    outs.append(Outcome(s3, v, e3))
                for dname in ('encode', 'decode'):
                    (_, mm, _), = I.getattr(codec, dname, s2)[:1]
                    if mm[0] == 'bm':
                        I.models.pop(I.fns[mm[2]].qual, None)
        return outs

    def make_nested(self, dname, info=None):
        def model(I, st, args, kwargs, node):
            a = args[1:]
            if kwargs:
                a = a + [v for v in kwargs.values()]
            typ, val = (a + [NONE, NONE])[:2]
            val_t = self.snapshot(val, st)
            st.event(dname, typ, val_t)
            ok = ('app', '!' + dname, (typ, val_t), 'any')
            mode = self.nested(dname, typ, val, st) if self.nested else 'ok'
            if mode == 'ok':
                return [(st, ok, None)]
            if mode == 'real':
                return I.call_fn(info, args, kwargs, st, node)
            if mode == 'ok|fail':
                s2 = st.fork()
                return [(st, ok, None), (s2, None, I.exc('ValueError'))]
            if isinstance(mode, tuple):
                return [(st, mode, None)]
            return [(st, None, I.exc(mode))]
        return model

    def snapshot(self, v, st, depth=0):
        """a term describing a heap value (for nested-call identity)"""
        if v[0] == 'ref' and depth < 4:
            o = st.heap[v[1]]
            if o[0] == 'dict':
                return ('tup', tuple(('tup', (k, self.snapshot(e, st, depth + 1))) for k, e, n in o[1]))
        return v


def m_identity(I, st, args, kwargs, node):
    return [(st, args[0], None)]


def m_exc_free(kind, name):
    def m(I, st, args, kwargs, node):
        return [(st, ('app', name, tuple(args), kind), None)]
    return m


def jsonschema_validate(I, st, args, kwargs, node):
    inst = kwargs.get('instance', args[0] if args else NONE)
    sch = kwargs.get('schema', args[1] if len(args) > 1 else NONE)
    fc = kwargs.get('format_checker')
    d = []
    if sch[0] == 'ref' and st.heap[sch[1]][0] == 'dict':
        d = [('tup', (k, v)) for k, v, n in st.heap[sch[1]][1]]
    t = ('app', '!jsonschema', (inst, ('tup', tuple(d)), TRUE if fc is not None else FALSE), 'bool')
    out = []
    for s, r in I.split(st, ('truthy', t)):
        out.append((s, NONE, None) if r else (s, None, I.exc('jsonschema.exceptions.ValidationError', t)))
    return out


BASE_MODELS = {
    'jadn.transform.transform.unfold_extensions': m_identity,
    'jsonschema.validate': jsonschema_validate,
}
