"""Scenarios that call one function of the package (by module and name) on an abstract argument."""
import traceback

from suite import *     # noqa
from codecscen import BASE_MODELS, jsonschema_validate
from terms import *     # noqa


def is_term(x):
    return isinstance(x, tuple) and x and x[0] in ('c', 's', 'app', 'cat', 'lin', 'ref', 'tup', 'fn', 'cls', 'bi', 'mod')


class FnScenario(Scenario):
    """abstract initial state and a sequence of calls"""

    def __init__(self, interp, name):
        super().__init__(interp, name)
        self.base = {}

    def py(self, x):
        """nested Python literal (with terms inside) -> abstract value"""
        if is_term(x):
            return x
        if callable(x):
            return x(self)
        if isinstance(x, list):
            return self.st.alloc(('list', tuple((self.py(e), ONE) for e in x)))
        if isinstance(x, tuple):
            return ('tup', tuple(self.py(e) for e in x))
        if isinstance(x, dict):
            return self.st.alloc(('dict', tuple((self.py(k), self.py(v), ONE) for k, v in x.items())))
        if isinstance(x, (set, frozenset)):
            return self.st.alloc(('set', tuple((self.py(e), ONE) for e in sorted(x))))
        return C(x)

    def install(self):
        I = self.I
        I.models = dict(self.base)
        I.models.update(self.models)
        I.attr_models = {}
        I.rewrite = self.rewrite
        I.shapes = self.shapes
        I.split_clean = self.split_clean
        I.tok = getattr(self, 'tok', False)
        I.tok_notes = []
        I.set_order = getattr(self, 'set_order', None)
        I.oracle = self.oracle
        I.steps = -2000000          # whole operations take longer than one codec call

    def call(self, mod, fn, args, kwargs=None, st=None):
        """-> list of Outcome"""
        self.install()
        I = self.I
        f = I.modattr(mod, fn)
        if f is None:
            raise Anchor(f'{mod}.{fn}')
        kw = {k: self.py(v) for k, v in (kwargs or {}).items()}
        return [Outcome(s, v, e) for s, v, e in I.call_function(f, [self.py(a) for a in args], st or self.st, kw)]

    def method(self, ref, name, args, st, kwargs=None):
        I = self.I
        out = []
        for s, m, e in I.getattr(ref, name, st):
            if e is not None:
                out.append(Outcome(s, None, e))
                continue
            out += [Outcome(a, b, c) for a, b, c in I.call_function(m, list(args), s, kwargs or {})]
        return out


def concrete(v, st, depth=0):
    """abstract value -> nested Python structure with terms at the leaves ('?' parts for summarised elements)"""
    if v is None or depth > 12:
        return v
    if v[0] == 'c':
        return v[2]
    if v[0] == 'tup':
        return tuple(concrete(x, st, depth + 1) for x in v[1])
    if v[0] == 'ref':
        o = st.heap[v[1]]
        if o[0] in ('list', 'set', 'iter'):
            r = [concrete(e, st, depth + 1) if n == ONE else ('*', concrete(e, st, depth + 1), n) for e, n in o[1]]
            return r if o[0] == 'list' else (o[0], r)
        if o[0] == 'dict':
            r = {}
            for k, e, n in o[1]:
                kk = concrete(k, st, depth + 1)
                kk = kk if isinstance(kk, (str, int, float, bool, type(None), tuple)) else repr(kk)
                r[kk if n == ONE else ('*', kk, n)] = concrete(e, st, depth + 1)
            return r
        if o[0] == 'obj':
            return {'!' + str(o[1]): {k: concrete(e, st, depth + 1) for k, e in o[2]}}
    return v


def frozen_heap(st):
    return dict(st.heap), st.nid


def changed(before, o, frozen_facts=None):
    """heap objects that existed before the call and are different after it"""
    heap, nid = before
    out = []
    for i, obj in heap.items():
        if o.st.heap.get(i) != obj:
            out.append(i)
    return out


def reach(roots, heap):
    seen = set()
    todo = list(roots)
    while todo:
        v = todo.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == 'ref':
            if v[1] in seen or v[1] not in heap:
                continue
            seen.add(v[1])
            o = heap[v[1]]
            if o[0] == 'obj':
                todo += [e for _, e in o[2]]
            elif o[0] == 'dict':
                for k, e, n in o[1]:
                    todo += [k, e]
            else:
                todo += [e for e, n in o[1]]
        elif v[0] == 'tup':
            todo += list(v[1])
        elif v[0] in ('app', 'cat'):
            todo += [x for x in subterms(v) if x[0] == 'ref']
    return seen


class Skip(Exception):
    """nothing is said about this case"""


class FnSuite(Suite):
    def fcase(self, key, what, go, expect, result=None):
        """go(sc) -> outcomes"""
        if self.only and self.only not in key:
            return
        sc = FnScenario(self.I, key)
        self.cases += 1
        try:
            outs = go(sc)
        except Budget:
            self.rep.undecided(key, what, '', 'analysis budget exceeded')
            return
        except Skip:
            return
        except RecursionError:
            self.rep.undecided(key, what, '', 'recursion in the analysis')
            return
        except Anchor:
            raise
        except Exception as e:
            self.rep.undecided(key, what, '', f'analysis gave up: {type(e).__name__}: {e} '
                               + traceback.format_exc(limit=-2).replace('\n', ' '))
            return
        for o in outs:
            o.assumed = [atom_str(a, v, o.st) for a, v in o.st.facts.items()][-12:]
        self.rep.analysed |= self.I.analysed
        try:
            self.judge(key, what, outs, expect, result)
        except Anchor:
            raise
        except Exception as e:
            self.rep.undecided(key, what, '', f'result not read: {type(e).__name__}: {e} '
                               + traceback.format_exc(limit=-2).replace('\n', ' '))
