"""Trace-partitioned abstract interpreter over the Python syntax tree.

The interpreter never runs the code under analysis: it computes, from the AST, the set of abstract exit states
reachable from an abstract initial state (a "scenario").  Sequences are abstracted as ordered parts, each either one
element or "any number of elements like this one" with a symbolic count; loops over such parts are summarised
(accelerated), never unrolled; branch conditions refine a set of facts about terms; calls to functions of the package
are analysed in context; calls that the scenario declares opaque have declared effects.

When something cannot be modelled the state is marked with the reason ("lost"); a state that is so marked is never
used to report a violation.
"""
import ast
import hashlib
import builtins
import itertools
import math
import re
import string
import time

import rx
from terms import *   # noqa

START = time.time()
from source import Source

MAX_DEPTH = 40


class Budget(Exception):
    pass


class St:
    __slots__ = ('frames', 'heap', 'facts', 'events', 'lost', 'nid', 'kinds', 'trail', 'xloc', 'frozen', 'ordered', 'missing')

    def __init__(self):
        self.frames, self.heap, self.facts, self.kinds = {}, {}, {}, {}
        self.events, self.lost, self.nid = (), frozenset(), 0
        self.trail, self.xloc = (), None
        self.frozen = frozenset()       # heap objects that are frozensets / frozendicts
        self.ordered = frozenset()      # set-like heap objects with a defined order (views of dicts)
        self.missing = {}               # default factories of heap objects that are defaultdicts

    def fork(self):
        n = St.__new__(St)
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.facts = dict(self.facts)
        n.kinds = dict(self.kinds)
        n.events, n.lost, n.nid = self.events, self.lost, self.nid
        n.trail, n.xloc, n.frozen, n.ordered = self.trail, self.xloc, self.frozen, self.ordered
        n.missing = self.missing        # replaced, never changed in place
        return n

    def step(self, *e):
        self.trail = (self.trail + (e,))[-60:]

    def fresh(self):
        self.nid += 1
        return self.nid

    def alloc(self, obj):
        i = self.fresh()
        self.heap[i] = obj
        return ('ref', i)

    def lose(self, why):
        self.lost = self.lost | {why}
        return self

    def event(self, *e):
        self.events = self.events + (e,)

    def obj(self, v):
        return self.heap.get(v[1]) if v[0] == 'ref' else None


def deco_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')


class FnInfo:
    def __init__(self, node, mod, frame, defaults, kwdefaults, qual, cls=None):
        self.node, self.mod, self.frame, self.qual, self.cls = node, mod, frame, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cached = any(deco_name(d) in ('cache', 'lru_cache') for d in getattr(node, 'decorator_list', ()))


class ClsInfo:
    def __init__(self, key, node, mod, bases):
        self.key, self.node, self.mod, self.bases = key, node, mod, bases
        self.methods, self.attrs, self.fields = {}, {}, []
        self.is_data = False


SEQ_KINDS = ('list', 'tuple', 'set', 'frozenset', 'dict')
TYPE_PARENTS = {
    'bool': {'bool', 'int', 'object', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Complex',
             'numbers.Number', 'Hashable'},
    'int': {'int', 'object', 'numbers.Integral', 'numbers.Rational', 'numbers.Real', 'numbers.Complex',
            'numbers.Number'},
    'float': {'float', 'object', 'numbers.Real', 'numbers.Complex', 'numbers.Number'},
    'str': {'str', 'object', 'collections.abc.Sequence', 'collections.abc.Iterable'},
    'bytes': {'bytes', 'object', 'collections.abc.Sequence', 'collections.abc.Iterable'},
    'list': {'list', 'object', 'collections.abc.Sequence', 'collections.abc.Iterable',
             'collections.abc.MutableSequence', 'collections.abc.Collection'},
    'tuple': {'tuple', 'object', 'collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.Collection'},
    'dict': {'dict', 'object', 'collections.abc.Mapping', 'collections.abc.MutableMapping', 'collections.abc.Iterable',
             'collections.abc.Collection'},
    'set': {'set', 'object', 'collections.abc.Set', 'collections.abc.Iterable', 'collections.abc.Collection'},
    'frozenset': {'frozenset', 'object', 'collections.abc.Set', 'collections.abc.Iterable'},
    'NoneType': {'NoneType', 'object'},
    'function': {'function', 'object', 'collections.abc.Callable'},
    'type': {'type', 'object', 'collections.abc.Callable'},
}
KNOWN_TYPES = {t for ps in TYPE_PARENTS.values() for t in ps} | {'bytearray', 'complex', 'memoryview'}

# external functions with no effect on program state; the result is an uninterpreted term
PURE_EXT = ('re.', 'string.', 'math.', 'datetime.', 'ipaddress.', 'base64.', 'binascii.', 'os.path.', 'numbers.',
            'copy.', 'urllib.parse.', 'operator.', 'itertools.', 'functools.', 'json.dumps', 'typing.', 'time.',
            'textwrap.', 'unicodedata.', 'decimal.', 'fractions.', 'uuid.', 'struct.', 'collections.', 'html.')
SILENT_EXT = ('print', 'logging.', 'warnings.warn', 'sys.stderr', 'sys.stdout')
EXT_CONST = {'string': {k: getattr(string, k) for k in dir(string) if isinstance(getattr(string, k), str)
                        and not k.startswith('_')},
             'sys': {'maxsize': 2 ** 63 - 1}, 'math': {'inf': math.inf, 'pi': math.pi}}
# predicates whose outcome a scenario leaves free
FREE_APPS = {'re.match', 're.fullmatch', 're.search', 'len', 'callable'}

EXC_ALIASES = {'json.JSONDecodeError': 'json.decoder.JSONDecodeError', 'json.decoder.JSONDecodeError':
               'json.decoder.JSONDecodeError'}
EXC_BASES = {'json.decoder.JSONDecodeError': 'ValueError', 'binascii.Error': 'ValueError',
             'ipaddress.AddressValueError': 'ValueError', 'ipaddress.NetmaskValueError': 'ValueError',
             'jsonschema.exceptions.ValidationError': 'Exception', 'jsonschema.ValidationError': 'Exception',
             'jsonschema.exceptions.SchemaError': 'Exception', 're.error': 'Exception'}

STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'casefold', 'zfill',
               'ljust', 'rjust', 'center', 'format', 'join', 'expandtabs', 'swapcase', 'removeprefix', 'removesuffix',
               'encode', 'decode', 'hex', 'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper',
               'islower', 'isspace', 'isnumeric', 'isdecimal', 'isidentifier', 'isascii', 'find', 'rfind', 'count',
               'index', 'rindex', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'translate'}
BOOL_STR = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isnumeric',
            'isdecimal', 'isidentifier', 'isascii'}
INT_STR = {'find', 'rfind', 'count', 'index', 'rindex'}


class Interp:
    def __init__(self, source=None, budget=400000):
        self.src = source or Source()
        self.fns = {}
        self.classes = {}
        self.modglobals = {}
        self.modstate = {}
        self.const_cache = {}
        self.base = St()
        self.base.nid = 1000
        self.budget0 = budget
        self.deadline = START + 420
        self.steps = 0
        self.depth = 0
        self.models = {}          # function qualname / dotted name -> model(interp, st, args, kwargs, node)
        self.attr_models = {}     # ('attr', base, name) -> model
        self.oracle = None
        self.rewrite = {}
        self.shapes = {}
        self.split_clean = False
        self.tok = False          # follow regular expressions and splits on partly known texts
        self.tok_notes = []
        self.ranges = {}          # element symbol of a range -> its bounds
        self.set_order = None     # 'a' / 'b': two opposite orders for sets whose order may differ between processes
        self.analysed = set()     # functions analysed (qualnames)
        self.oracle_hits = 0
        self.call_stack = []
        self._in_cached = None

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modglobals:
            return self.modglobals[name]
        g = {'__name__': C(name), '__file__': S('__file__:' + name, 'str')}
        self.modglobals[name] = g
        mod = self.src.modules[name]
        # importing a submodule imports its parents first
        parent = name.rpartition('.')[0]
        if parent and parent in self.src.modules:
            self.module(parent)
        saved = (self.models, self.attr_models, self.oracle, self.rewrite, self.steps, self.shapes)
        self.models, self.attr_models, self.oracle, self.rewrite, self.steps, self.shapes = {}, {}, None, {}, 0, {}
        try:
            for stmt in mod.tree.body:
                self._exec_top(mod, g, stmt)
        finally:
            self.models, self.attr_models, self.oracle, self.rewrite, self.steps, self.shapes = saved
        return g

    def _exec_top(self, mod, g, stmt):
        if isinstance(stmt, (ast.Import, ast.ImportFrom)):
            self._import(mod, stmt, g)
            return
        st = self.base
        st.frames['@' + mod.name] = g
        ctx = Ctx(mod, '@' + mod.name, (), mod.name)
        outs = self.stmt(stmt, st.fork(), ctx)
        outs = [o for o in outs if o[0] == 'next']
        if len(outs) != 1:
            return
        res = outs[0][1]
        g.update(res.frames['@' + mod.name])
        self.base.heap = res.heap
        self.base.nid = res.nid
        self.base.frames = {}

    def _import(self, mod, stmt, g):
        if isinstance(stmt, ast.Import):
            for a in stmt.names:
                top = a.name.split('.')[0]
                if top in self.src.modules:
                    if a.name in self.src.modules:
                        self.module(a.name)
                    g[a.asname or top] = ('mod', a.name if a.asname else top)
                else:
                    g[a.asname or top] = ('bi', a.name if a.asname else top)
            return
        base = self.src.resolve_from(mod, stmt)
        for a in stmt.names:
            if base in self.src.modules:
                if a.name == '*':
                    bg = self.module(base)
                    for k, v in list(bg.items()):
                        if not k.startswith('_'):
                            g[k] = v
                    continue
                g[a.asname or a.name] = self.modattr(base, a.name)
            else:
                c = EXT_CONST.get(base, {}).get(a.name)
                g[a.asname or a.name] = C(c) if c is not None else ('bi', f'{base}.{a.name}' if base else a.name)

    def modattr(self, modname, attr):
        g = self.module(modname)
        if attr in g:
            return g[attr]
        sub = f'{modname}.{attr}'
        if sub in self.src.modules:
            self.module(sub)
            return ('mod', sub)
        return ('unk', f'{modname}.{attr}')

    def new_state(self):
        """A fresh state sharing the evaluated module-level objects."""
        st = St()
        st.heap = dict(self.base.heap)
        st.nid = self.base.nid + 100000
        return st

    def lookup_global(self, modname, name):
        g = self.module(modname)
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return ('bi', name)
        return None

    # ---------------------------------------------------------------- kinds and decisions
    def kind(self, v, st=None):
        t = v[0]
        if t == 'c':
            return v[1]
        if t == 's':
            if st is not None and v in st.kinds:
                return st.kinds[v]
            return v[2]
        if t == 'tup':
            return 'tuple'
        if t == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return 'any'
            return {'obj': 'obj', 'iter': 'iter'}.get(o[0], o[0])
        if t == 'lin':
            return 'int' if all(self.kind(x, st) in ('int', 'bool') for x, _ in v[1]) else 'num'
        if t == 'cat':
            return 'str'
        if t == 'app':
            if st is not None and v in st.kinds:
                return st.kinds[v]
            return v[3]
        if t in ('fn', 'bm', 'bim'):
            return 'function'
        if t == 'cls':
            return 'type'
        if t == 'bi':
            return 'type' if v[1] in KNOWN_TYPES or v[1].startswith('numbers.') else 'any'
        if t == 'exc':
            return 'exc'
        if st is not None and v in st.kinds:
            return st.kinds[v]
        return 'any'

    def nonneg(self, t, st):
        return (t[0] == 's' and t[1].startswith('#')) or (t[0] == 'app' and t[1] == 'len')

    # linear reasoning: every constraint is (terms dict, const, strict) meaning sum + const < 0 or <= 0
    def _constraints(self, st, want):
        cons = []
        for atom, val in st.facts.items():
            if atom[0] == 'lt0':
                d, c = lin_parts(atom[1])
                if val:
                    cons.append((d, c, True))
                else:
                    cons.append(({t: -k for t, k in d.items()}, -c, False))
            elif atom[0] == 'eq' and val:
                if self.is_num(atom[1], st) and self.is_num(atom[2], st):
                    d, c = lin_parts(lin_add(atom[1], atom[2], -1))
                    cons.append((d, c, False))
                    cons.append(({t: -k for t, k in d.items()}, -c, False))
        return cons

    def is_num(self, v, st):
        return self.kind(v, st) in ('int', 'float', 'num', 'bool')

    def integral(self, d, st):
        return all(self.kind(t, st) in ('int', 'bool') for t in d)

    def prove_lt0(self, term, st):
        """True: term<0 surely; False: term>=0 surely; None: unknown."""
        d, c = lin_parts(term)
        if not d:
            return c < 0
        if self._infeasible(st, (d, c), False):      # assume term >= 0
            return True
        if self._infeasible(st, (d, c), True):       # assume term < 0
            return False
        return None

    def _infeasible(self, st, goal, assume_lt):
        d, c = goal
        if assume_lt:
            cons = [(dict(d), c, True)]
        else:
            cons = [({t: -k for t, k in d.items()}, -c, False)]
        allc = self._constraints(st, d)
        names = set(d)
        changed = True
        used = [False] * len(allc)
        rounds = 0
        while changed and rounds < 4:
            changed = False
            rounds += 1
            for i, (dd, cc, s) in enumerate(allc):
                if not used[i] and set(dd) & names:
                    used[i] = True
                    cons.append((dd, cc, s))
                    if not set(dd) <= names:
                        names |= set(dd)
                        changed = True
            if len(cons) > 24:
                break
        for t in list(names):
            if self.nonneg(t, st):
                low = 1 if t[0] == 'app' and self.num_text(t[2][0], st) else 0
                cons.append(({t: -1}, low, False))
        # tighten integral strict constraints: x < 0  ->  x + 1 <= 0
        norm = []
        for dd, cc, s in cons:
            if s and self.integral(dd, st) and isinstance(cc, int) and all(isinstance(k, int) for k in dd.values()):
                norm.append((dd, cc + 1, False))
            else:
                norm.append((dd, cc, s))
        return self._fm(norm, list(names))

    def _fm(self, cons, names):
        for t in names:
            pos = [x for x in cons if x[0].get(t, 0) > 0]
            neg = [x for x in cons if x[0].get(t, 0) < 0]
            rest = [x for x in cons if not x[0].get(t, 0)]
            if len(pos) * len(neg) > 60:
                return False
            for p in pos:
                for n in neg:
                    kp, kn = p[0][t], -n[0][t]
                    d = {}
                    for k, v in p[0].items():
                        d[k] = d.get(k, 0) + v * kn
                    for k, v in n[0].items():
                        d[k] = d.get(k, 0) + v * kp
                    d = {k: v for k, v in d.items() if v}
                    rest.append((d, p[1] * kn + n[1] * kp, p[2] or n[2]))
            out = []
            for x in rest:
                if not x[0]:
                    if x[1] > 0 or (x[1] == 0 and x[2]):
                        return True
                else:
                    out.append(x)
            cons = out
        return any((not x[0]) and (x[1] > 0 or (x[1] == 0 and x[2])) for x in cons)

    def decide(self, atom, st):
        """Three-valued truth of an atom in a state."""
        k = atom[0]
        if k == 'const':
            return atom[1]
        if k == 'not':
            r = self.decide(atom[1], st)
            return None if r is None else not r
        if self.oracle is not None:
            r = self.oracle(atom, st, self)
            if r is not None:
                self.oracle_hits += 1
                return r
        if atom in st.facts:
            return st.facts[atom]
        if k == 'lt0':
            return self.prove_lt0(atom[1], st)
        if self.shapes or k == 'truthy':
            r = self.shape_decide(atom, st)
            if r is not None:
                return r
        if k == 'eq':
            r = self._decide_eq(atom[1], atom[2], st)
            if r is None and 'cat' in (atom[1][0], atom[2][0]):
                x, y = self.middles(atom[1], atom[2])
                if (x, y) != (atom[1], atom[2]):
                    return self.decide(self.a_eq(x, y), st)
            return r
        return None

    def middles(self, a, b):
        """what is left of two texts when their common beginning and end are removed"""
        def parts(v):
            return list(v[1]) if v[0] == 'cat' else [v]
        x, y = parts(a), parts(b)
        if any(p[0] == 'c' and p[1] != 'str' for p in x + y):
            return a, b
        for end in (0, -1):
            while x and y:
                p, q = x[end], y[end]
                if p == q:
                    x.pop(end)
                    y.pop(end)
                elif p[0] == 'c' and q[0] == 'c':
                    s, t = p[2], q[2]
                    n = min(len(s), len(t))
                    if s[:n] != t[:n] if end == 0 else s[len(s) - n:] != t[len(t) - n:]:
                        return p, q             # different whatever the rest is
                    for lst, z in ((x, s), (y, t)):
                        z = z[n:] if end == 0 else z[:len(z) - n]
                        if z:
                            lst[end] = C(z)
                        else:
                            lst.pop(end)
                else:
                    break
        return mk_cat(x), mk_cat(y)

    # ---------------------------------------------------------------- texts with a declared shape (language)
    def shape_of(self, v, st, declared=False):
        """language of the texts a term stands for, or None"""
        if v[0] == 'c' and v[1] == 'str':
            r = rx.EPS
            for chr_ in reversed(v[2]):
                r = rx.cat(rx.ch(rx.cs((ord(chr_), ord(chr_)))), r)
            return r
        if v in self.shapes:
            return self.shapes[v]
        if v[0] == 'cat':
            r = rx.EPS
            for x in reversed(v[1]):
                sx = self.shape_of(x, st)
                if sx is None:
                    return None
                r = rx.cat(sx, r)
            return r
        if v[0] == 'app' and v[1] == 'str' and self.kind(v[2][0], st) == 'int':
            if self.decide(self.a_lt(v[2][0], C(0)), st) is False:
                return rx.language('0|[1-9][0-9]*')
            return rx.language('0|-?[1-9][0-9]*')
        if v[0] == 'app' and v[1] == 'str' and self.kind(v[2][0], st) == 'float':
            return rx.language(r'-?[0-9]+\.[0-9]+|-?[0-9](\.[0-9]+)?e[-+][0-9]+')
        if v[0] == 'app' and v[1] == '!pad':
            return rx.language(' *')
        if v[0] == 'app' and v[1] == '!pad1':
            return rx.language(' +')
        if v[0] == 'app' and v[1] == 'Mult' and v[3] == 'str' and len(v[2]) == 2 and v[2][0][0] == 'c' and v[2][0][2]:
            return rx.language('(' + re.escape(v[2][0][2]) + ')*')
        if v[0] == 'app' and v[1] == 'json.dumps':
            return rx.language(r'"([ !#-\[\]-~]|\\["\\/bfnrtu])*"|[\[{]([ !#-~]|"([ !#-\[\]-~]|\\["\\/bfnrtu])*")*[\]}]|'
                               r'-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?|true|false|null')
        return None

    def without(self, v, sep, st):
        """the text certainly does not contain this separator"""
        if self.split_clean and v[0] != 'cat':
            return True
        if len(sep) != 1:
            return False
        try:
            sv = self.shape_of(v, st)
            return sv is not None and rx.relation(sv, rx.cat(rx.TOP, rx.cat(rx.ch(rx.cs((ord(sep), ord(sep)))), rx.TOP))
                                                  ) == 'out'
        except rx.Unsupported:
            return False

    def re_flags(self, v):
        """value of a flags argument, None when not known"""
        if v[0] == 'c' and isinstance(v[2], int):
            return int(v[2])
        if v[0] == 'bi' and v[1].startswith('re.') and isinstance(getattr(re, v[1][3:], None), re.RegexFlag):
            return int(getattr(re, v[1][3:]))
        if v[0] == 'app' and v[1] == 'BitOr' and len(v[2]) == 2:
            a, b = self.re_flags(v[2][0]), self.re_flags(v[2][1])
            return None if a is None or b is None else a | b
        return None

    def slice_text(self, atom):
        """comparison of a part of a text with a constant -> (text, from, to, constant)"""
        for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
            if a[0] == 'app' and a[1] in ('slice', 'item', 'charat') and b[0] == 'c' and b[1] == 'str':
                x = a[2]
                if a[1] != 'slice':
                    if len(x) == 2 and x[1][0] == 'c' and isinstance(x[1][2], int) and 0 <= x[1][2] < 4:
                        return x[0], x[1][2], x[1][2] + 1, b[2]
                    continue
                if len(x) == 4 and all(y[0] == 'c' for y in x[1:]) and x[3][2] in (None, 1):
                    i, j = x[1][2] or 0, x[2][2]
                    if isinstance(i, int) and isinstance(j, int) and 0 <= i < j < 6 and len(b[2]) <= j - i:
                        return x[0], i, j, b[2]
        return None

    def shape_decide(self, atom, st):
        lang = v = None
        try:
            if atom[0] == 'truthy' and atom[1][0] == 'app' and atom[1][1] in ('re.match', 're.fullmatch', 're.search'):
                a = atom[1][2]
                if len(a) not in (2, 3) or a[0][0] != 'c' or not isinstance(a[0][2], str):
                    return None
                v = a[1]
                fl = self.re_flags(a[2]) if len(a) == 3 else 0
                if fl is None:
                    return None
                if v[0] == 'c' and isinstance(v[2], str):
                    try:
                        return getattr(re, atom[1][1][3:])(a[0][2], v[2], fl) is not None
                    except re.error:
                        return None
                sv = self.shape_of(v, st)
                if sv is None:
                    return None
                lang = rx.language(a[0][2], fl, atom[1][1][3:])
            elif atom[0] == 'in' and atom[1][0] == 'app' and atom[1][1][1:] in (
                    'startswith', 'endswith', 'isdigit', 'isascii', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum',
                    'isupper', 'islower', 'isspace'):
                v, x = atom[2], atom[1][2]
                sv = self.shape_of(v, st)
                if sv is None:
                    return None
                if atom[1][1] == '!isascii':
                    lang = rx.star(rx.ch(rx.cs((0, 127))))
                elif atom[1][1][1:] in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace'):
                    p = rx.ch(rx._pred(getattr(str, atom[1][1][1:])))
                    lang = rx.cat(p, rx.star(p))
                elif len(x) == 1 and x[0][0] == 'c' and isinstance(x[0][2], str):
                    lx = self.shape_of(x[0], st)
                    lang = rx.cat(lx, rx.TOP) if atom[1][1] == '!startswith' else rx.cat(rx.TOP, lx)
                else:
                    return None
            elif atom[0] == 'in' and atom[1][0] == 'c' and atom[1][1] == 'str' and atom[2][0] in ('s', 'cat', 'app'):
                v = atom[2]
                sv = self.shape_of(v, st)
                if sv is None:
                    return None
                lang = rx.cat(rx.TOP, rx.cat(self.shape_of(atom[1], st), rx.TOP))
            elif atom[0] == 'truthy' and atom[1][:2] == ('app', '!intlike'):
                sv = self.shape_of(atom[1][2][0], st)
                if sv is None:
                    return None
                lang = rx.language(r'\s*[+-]?\d(_?\d)*\s*')
            elif atom[0] == 'truthy' and (atom[1] in self.shapes or atom[1][0] == 'cat'):
                sv = self.shape_of(atom[1], st)
                if sv is None:
                    return None
                lang = rx.cat(rx.ANY, rx.TOP)
            elif atom[0] == 'eq' and self.slice_text(atom) is not None:
                v, i, j, t = self.slice_text(atom)
                sv = self.shape_of(v, st)
                if sv is None:
                    return None
                lang = self.shape_of(C(t), st)
                if len(t) == j - i:
                    lang = rx.cat(lang, rx.TOP)
                for _ in range(i):
                    lang = rx.cat(rx.ANY, lang)
                if not t:
                    return None
            elif atom[0] == 'eq':
                a, b = atom[1], atom[2]
                if not any(x in self.shapes or x[0] == 'cat' or x[:2] == ('app', 'str') for x in (a, b)) or a == b:
                    return None
                sa, sb = self.shape_of(a, st), self.shape_of(b, st)
                if sa is None or sb is None:
                    return None
                return False if rx.relation(sa, sb) == 'out' else None
            else:
                return None
            return {'in': True, 'out': False}.get(rx.relation(sv, lang))
        except rx.Unsupported:
            return None

    def _decide_eq(self, a, b, st):
        if a == b and not has_unk(a):
            return True
        if a[0] == 'c' and b[0] == 'c':
            return a[2] == b[2]
        ka, kb = self.kind(a, st), self.kind(b, st)
        num = ('int', 'float', 'num', 'bool')
        if ka in num and kb in num:
            d = lin_add(a, b, -1)
            if is_const(d):
                return d[2] == 0
            r = self.prove_lt0(d, st)
            if r is True:
                return False
            r2 = self.prove_lt0(lin_scale(d, -1), st)
            if r2 is True:
                return False
            if r is False and r2 is False:
                return True
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'app' and x[1] == 'numchar' and y[0] == 'c' and y[1] == 'str':
                if len(y[2]) != 1 or y[2] not in '-.0123456789infa':
                    return False
        known = set(TYPE_PARENTS) | {'obj', 'exc', 'iter'}
        if ka in known and kb in known and ka != kb and not (ka in num and kb in num):
            if {ka, kb} <= {'set', 'frozenset'}:
                return None
            return False
        if a[0] == 'cat' and b[0] == 'cat':
            return self._eq_cat(a[1], b[1], st)
        if a[0] == 'cat' and b[0] == 'c':
            return self._eq_cat(a[1], (b,), st)
        if b[0] == 'cat' and a[0] == 'c':
            return self._eq_cat(b[1], (a,), st)
        # known distinct constants
        for x, y in ((a, b), (b, a)):
            if y[0] == 'c':
                for atom, val in st.facts.items():
                    if atom[0] == 'eq' and val and x in atom[1:]:
                        other = atom[2] if atom[1] == x else atom[1]
                        if other[0] == 'c' and other != y:
                            return False
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return False
            rs = [self.decide(self.a_eq(x, y, st), st) for x, y in zip(a[1], b[1])]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if a[0] in ('cls', 'bi', 'fn', 'bm', 'bim') and b[0] in ('cls', 'bi', 'fn', 'bm', 'bim'):
            return a == b
        return None

    def int_holes(self, parts, text, st):
        """the integers whose decimals the open parts have to be for the text to be this one: [(value, int)], False when
        it cannot be, None when the parts are not integers set apart by other characters"""
        rx_, holes = '', []
        for i, x in enumerate(parts):
            if x[0] == 'c' and x[1] == 'str':
                rx_ += re.escape(x[2])
            elif x[0] == 'app' and x[1] == 'str' and self.kind(x[2][0], st) == 'int':
                if i and not (parts[i - 1][0] == 'c' and parts[i - 1][2][-1:] not in '-0123456789'):
                    return None
                if i + 1 < len(parts) and not (parts[i + 1][0] == 'c' and parts[i + 1][2][:1] not in '-0123456789'):
                    return None
                rx_ += '(-?[0-9]+)'
                holes.append(x[2][0])
            else:
                return None
        m = re.fullmatch(rx_, text)
        if not holes or m and any(str(int(g)) != g for g in m.groups()):
            return False if holes else None
        return [(h, int(g)) for h, g in zip(holes, m.groups())] if m else False

    def _eq_cat(self, pa, pb, st):
        if len(pb) == 1 and pb[0][0] == 'c' and pb[0][1] == 'str':
            h = self.int_holes(pa, pb[0][2], st)
            if h is False:
                return False
            if h:
                rs = [self.decide(self.a_eq(x, C(n), st), st) for x, n in h]
                return False if False in rs else True if all(rs) else None
        # compare leading constant prefixes
        fa = pa[0][2] if pa and pa[0][0] == 'c' and pa[0][1] == 'str' else None
        fb = pb[0][2] if pb and pb[0][0] == 'c' and pb[0][1] == 'str' else None
        if fa is not None and fb is not None:
            n = min(len(fa), len(fb))
            if fa[:n] != fb[:n]:
                return False
        if fa is not None and len(pb) == 1 and fb is not None and len(pa) > 1 and len(fb) < len(fa):
            return False
        return None

    # atoms
    def a_lt(self, a, b):
        return ('lt0', lin_add(a, b, -1))

    def a_eq(self, a, b, st=None):
        a, b = self.one_char(a, b), self.one_char(b, a)
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        return ('eq', x, y)

    def one_char(self, a, b):
        """a[i:i+1] compared with one character is a[i] compared with it"""
        if a[0] == 'app' and a[1] == 'slice' and b[0] == 'c' and b[1] == 'str' and len(b[2]) == 1:
            v, lo, hi, step = a[2]
            lo = C(0) if lo == NONE else lo
            if all(x[0] == 'c' for x in (lo, hi, step)) and isinstance(hi[2], int) and 0 <= lo[2] == hi[2] - 1 and step[2] in (None, 1):
                return ('app', 'charat', (v, lo), 'str')
        return a

    def assume(self, st, atom, val):
        while atom[0] == 'not':
            atom, val = atom[1], not val
        if atom[0] == 'const':
            return st
        st.facts[atom] = val
        if atom[0] == 'eq':
            for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                if a[0] == 'cat' and b[0] == 'c' and b[1] == 'str':
                    h = self.int_holes(a[1], b[2], st)
                    if h and (val or len(h) == 1):
                        for x, n in h:
                            st = self.assume(st, self.a_eq(x, C(n), st), val)
        if atom[0] == 'isinst' and val and len(atom[2]) == 1:
            c = atom[2][0]
            if c in TYPE_PARENTS:
                st.kinds[atom[1]] = c
        if atom[0] == 'none' and val:
            st.kinds[atom[1]] = 'NoneType'
        if atom[0] in ('truthy', 'lt0', 'eq', 'in', 'isinst', 'none', 'app') and has_unk(atom):
            st.lose(f'branch on a value the analysis could not follow')
        elif atom[0] == 'truthy' and atom[1][0] == 'app' and atom[1][1] not in FREE_APPS and not atom[1][1].startswith('!'):
            st.lose(f'branch on result of {atom[1][1]}')
        elif atom[0] in ('eq', 'in'):
            for x in atom[1:]:
                for y in subterms(x):
                    if y[0] == 'app' and y[1].startswith(('str.', 're.')) and y[1] not in FREE_APPS:
                        st.lose(f'comparison with the result of {y[1]}')
        return st

    def split(self, st, atom):
        """[(state, bool)]"""
        r = self.decide(atom, st)
        if r is not None:
            return [(st, r)]
        s2 = st.fork()
        return [(self.assume(st, atom, True), True), (self.assume(s2, atom, False), False)]

    def truthy(self, v, st):
        """-> [(state, bool)]"""
        t = v[0]
        if t == 'c':
            return [(st, bool(v[2]))]
        if t == 'tup':
            return [(st, bool(v[1]))]
        if t == 'ref':
            o = st.heap[v[1]]
            if o[0] in ('list', 'set', 'dict'):
                return self.split(st, ('not', self.a_lt(self.len_of(v, st), ONE)))
            if o[0] == 'obj':
                return [(st, True)]
            return [(st, True)]
        if t in ('fn', 'bm', 'bim', 'cls', 'mod', 'exc'):
            return [(st, True)]
        if t == 'bi':
            return [(st, True)]
        k = self.kind(v, st)
        if k == 'NoneType':
            return [(st, False)]
        if k in ('int', 'num', 'float'):
            return self.split(st, ('not', self.a_eq(v, C(0))))
        if t == 'app' and v[1] in ('json.dumps', '!html'):      # serialised text is never empty
            return [(st, True)]
        if t == 'app' and v[1] == 'str' and self.kind(v[2][0], st) in ('int', 'float', 'bool', 'num'):
            return [(st, True)]
        if t == 'cat':
            if any(p[0] == 'c' for p in v[1]):
                return [(st, True)]
            return self.split(st, ('truthy', v))
        return self.split(st, ('truthy', v))

    # ---------------------------------------------------------------- containers
    def len_of(self, v, st):
        if v[0] == 'tup':
            return C(len(v[1]))
        if v[0] == 'c' and v[1] in ('str', 'bytes'):
            return C(len(v[2]))
        if v[0] == 'ref':
            o = st.heap[v[1]]
            if o[0] in ('list', 'set', 'iter'):
                tot = C(0)
                for e, n in o[1]:
                    tot = lin_add(tot, n)
                return tot
            if o[0] == 'dict':
                tot = C(0)
                for k, e, n in o[1]:
                    tot = lin_add(tot, n)
                return tot
            if o[0] == 'obj':
                ci = self.classes.get(o[1])
                if ci and ci.is_data:
                    return C(len(ci.fields))
        if v[0] == 'cat':
            tot = C(0)
            for p in v[1]:
                tot = lin_add(tot, self.len_of(p, st))
            return tot
        if v[0] == 'app' and v[1] in ('keysof',):
            return ('app', 'len', (v[2][0],), 'int')
        n = ('app', 'len', (v,), 'int')
        return self.rewrite.get(n, n) if self.rewrite else n

    def num_text(self, v, st):
        """v is the decimal text of a number"""
        return v[0] == 'app' and v[1] == 'str' and self.is_num(v[2][0], st)

    def parts_of(self, v, st):
        """Iteration structure of a value: tuple of (elem, count), or None when not known."""
        if v[0] == 'tup':
            return tuple((e, ONE) for e in v[1])
        if v[0] == 'ref':
            o = st.heap[v[1]]
            if o[0] == 'set' and self.set_order and v[1] not in st.ordered:
                return self.hash_order(o[1], st)
            if o[0] in ('list', 'set', 'iter'):
                return o[1]
            if o[0] == 'dict':
                return tuple((k, n) for k, e, n in o[1])
            if o[0] == 'obj':
                ci = self.classes.get(o[1])
                if ci and ci.is_data:
                    d = dict(o[2])
                    return tuple((d.get(f, ('unk', f)), ONE) for f in ci.fields)
            return None
        if v[0] == 'c' and v[1] == 'str':
            return tuple((C(ch), ONE) for ch in v[2])
        if v[0] == 'c':
            return None
        if v[0] == 'unk':
            return ((('unk', 'element of ' + str(v[1])), S('#n:' + str(v[1]), 'int')),)
        k = self.kind(v, st)
        if k in ('int', 'float', 'bool', 'NoneType', 'function'):
            return None
        # opaque iterable
        return ((('item', v, S('@each')), S('#' + show(v), 'int')),)

    def hash_order(self, parts, st):
        """elements in one of two opposite orders, unless the order follows from their numeric values"""
        if all(self.kind(e, st) in ('int', 'float', 'bool') for e, _ in parts):
            return parts
        return tuple(sorted(parts, key=lambda p: hashlib.md5(repr(p).encode()).hexdigest(), reverse=self.set_order == 'b'))

    def new_list(self, st, parts=()):
        return st.alloc(('list', tuple(parts)))

    def new_set(self, st, parts=()):
        ref = st.alloc(('set', ()))
        for e, n in parts:
            self.set_add(st, ref, e, n)
        return ref

    def set_add(self, st, ref, e, n=ONE):
        o = st.heap[ref[1]]
        if n == ONE:
            for x, m in o[1]:
                r = self.decide(self.a_eq(x, e, st), st)
                if r is True:
                    return
                if r is None and m == ONE and not self._distinct(x, e, st):
                    # may or may not be new: count in {0, 1}
                    ts = [y for y, _ in o[1]] + [e]
                    plain = not any(z[0] in ('ref', 'unk') for y in ts for z in subterms(y))
                    # whether a value is new depends on the values only
                    cnt = S(f'#new({", ".join(map(repr, ts))})' if plain else f'#{st.fresh()}', 'int')
                    st.facts[self.a_lt(ONE, cnt)] = False
                    st.facts.setdefault(self.a_lt(cnt, C(0)), False)
                    st.heap[ref[1]] = ('set', o[1] + ((e, cnt),))
                    return
        else:
            for x, m in o[1]:
                if x == e:
                    return
        st.heap[ref[1]] = ('set', o[1] + ((e, n),))

    def _distinct(self, a, b, st):
        return self.decide(self.a_eq(a, b, st), st) is False

    def member(self, k, cont, st):
        """Atom-like decision for `k in cont`: [(state, bool)]"""
        if cont[0] == 'c' and cont[1] == 'str':
            if k[0] == 'c' and k[1] == 'str':
                return [(st, k[2] in cont[2])]
            return self.split(st, ('in', k, cont))
        parts = None
        if cont[0] == 'ref' or cont[0] == 'tup':
            parts = self.parts_of(cont, st)
        if parts is None:
            return self.split(st, ('in', k, cont))
        maybe = []
        for e, n in parts:
            r = self.decide(self.a_eq(k, e, st), st)
            present = n == ONE or self.decide(self.a_lt(C(0), n), st) is True
            if r is True and (present or k == e):
                return [(st, True)]
            if r is not False:
                maybe.append((e, n))
        if not maybe:
            return [(st, False)]
        if len(maybe) == 1 and maybe[0][1] == ONE and k[0] not in ('ref', 'tup'):
            return self.split(st, self.a_eq(k, maybe[0][0], st))
        if k[0] in ('ref', 'tup') and all(n == ONE for _, n in maybe):
            out, live = [], [st]
            for e, n in maybe:
                nxt = []
                for s in live:
                    for s2, r in self.eq(k, e, s):
                        (out if r else nxt).append((s2, True) if r else s2)
                live = nxt
            return out + [(s, False) for s in live]
        key = ('in', k, ('tup', tuple(e for e, _ in maybe)))
        if len(maybe) == len(parts) and cont[0] == 'ref' and k[0] != 'c' and self.kind(k, st) == 'int' and \
                st.heap[cont[1]][0] == 'list' and self.decide(key, st) is None:
            b = self.interval(parts)
            if b is not None:
                out = []
                for s, low in self.split(st, self.a_lt(k, b[0])):
                    out += [(s, False)] if low else self.split(s, self.a_lt(k, b[1]))
                return out
        return self.split(st, key)

    def interval(self, parts):
        """(from, to) of a collection of all integers between two bounds"""
        if len(parts) == 1 and parts[0][0] in self.ranges:
            return self.ranges[parts[0][0]]
        if len(parts) > 2 and all(n == ONE and e[0] == 'c' and type(e[2]) is int for e, n in parts):
            v = sorted(e[2] for e, _ in parts)
            if v == list(range(v[0], v[-1] + 1)):
                return C(v[0]), C(v[-1] + 1)
        return None

    def dict_find(self, d_ref, k, st):
        """[(state, index or None)] candidates for entry of key k in a heap dict."""
        o = st.heap[d_ref[1]]
        cands = []
        for i, (ek, ev, n) in enumerate(o[1]):
            r = self.decide(self.a_eq(k, ek, st), st)
            if r is True:
                if n == ONE or k == ek or self.decide(self.a_lt(C(0), n), st) is True:
                    return [(st, i)]
                cands.append(i)
            elif r is None:
                cands.append(i)
        if not cands:
            return [(st, None)]
        out = []
        key = ('in', k, ('tup', tuple(o[1][i][0] for i in cands)))
        r = self.decide(key, st)
        if r is None and len(cands) == 1 and o[1][cands[0]][2] == ONE:
            key = self.a_eq(k, o[1][cands[0]][0], st)
            r = self.decide(key, st)
        if r is not True:
            s = st.fork() if r is None else st
            if r is None:
                self.assume(s, key, False)
            out.append((s, None))
        if r is not False:
            for j, i in enumerate(cands):
                s = st.fork()
                self.assume(s, key, True)
                if o[1][i][2] == ONE and len(cands) > 1:
                    self.assume(s, self.a_eq(k, o[1][i][0], s), True)
                out.append((s, i))
        return out

    # ---------------------------------------------------------------- exceptions
    def exc(self, name, *payload):
        return ('exc', name, tuple(payload))

    def exc_matches(self, name, handler):
        """does exception class `name` match handler class name"""
        if handler in ('BaseException',):
            return True
        seen = set()
        while name and name not in seen:
            seen.add(name)
            if name == handler or name.split('.')[-1] == handler.split('.')[-1] and '.' in name + handler:
                return True
            b = getattr(builtins, name, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                h = getattr(builtins, handler, None)
                return isinstance(h, type) and issubclass(b, h)
            if name in EXC_BASES:
                name = EXC_BASES[name]
                continue
            ci = self.classes.get(name)
            if ci:
                bases = [x for x in ci.bases]
                for bb in bases:
                    bn = bb[1]
                    if self.exc_matches(bn, handler):
                        return True
                return False
            # unknown external exception class: assume it derives from Exception only
            return handler == 'Exception'
        return False

    # ---------------------------------------------------------------- running
    def tick(self):
        self.steps += 1
        if self.steps > self.budget0:
            raise Budget()
        if not self.steps & 255 and time.time() > self.deadline:
            raise Budget()

    def call_function(self, qual_or_val, args, st, kwargs=None):
        self.steps = 0
        self.depth = 0
        self.deadline = min(time.time() + 20, START + 420)
        return self.call(qual_or_val, list(args), dict(kwargs or {}), st, None, None)


class Ctx:
    __slots__ = ('mod', 'frame', 'parents', 'qual', 'cls', 'locals')

    def __init__(self, mod, frame, parents, qual, cls=None, locals_=None):
        self.mod, self.frame, self.parents, self.qual, self.cls = mod, frame, parents, qual, cls
        self.locals = locals_
