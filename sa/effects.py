"""Effects of operations on what existed before the call: arguments, package tables, default arguments."""
import re
import time

from codecops import *      # noqa

U = 'jadn.utils'
OPTS = ['=', '{1', '}9', '/ipv4']
FOPTS = ['[0', ']0', '*Str', 'q', '{1']
META = {'package': 'http://x/y', 'config': {'$MaxString': 99, '$Sys': '.'}}
NESTED = {'a': {'b': S('x', 'str'), 'c': [S('y', 'int'), {'d': S('z', 'str')}]}, 'e': S('w', 'int')}
FLAT = {'a.b.c': S('x', 'int'), 'a.b.d': S('y', 'int'), 'e': S('z', 'int')}
DEPS = {'A': ['B', 'C'], 'B': ['C', 'D'], 'C': ['A'], 'D': []}
FDEF = F(1, 'a', 'ArrayOf', ['[0', '*Str', '{1'], 'desc')
TDEF = T('Rec', 'Record', ['{1'], 'desc', [F(1, 'a', 'ArrayOf', ['[0', '*Str', '{1'], 'desc'), F(2, 'b', 'Ch', ['&1'])])
STYLE = {'page': 60, 'desc': 40}

# small operations: name -> (module, function, [argument lists])
SMALL = {
    'topts_s2d': (U, 'topts_s2d', [[OPTS], [['+Str', '*#Rec', 's']], [[]]]),
    'ftopts_s2d': (U, 'ftopts_s2d', [[FOPTS], [[]]]),
    'opts_d2s': (U, 'opts_d2s', [[{'minv': 1, 'id': True, 'vtype': 'Str'}]]),
    'jadn2typestr': (U, 'jadn2typestr', [['String', OPTS[1:3]], ['MapOf', ['+#Rec', '*Str', '{1']], ['Integer', []]]),
    'jadn2fielddef': (U, 'jadn2fielddef', [[FDEF, TDEF], [F(2, 'b', 'Ch', ['&1', '[0']), TDEF], [[1, 'x', 'd'], T('E', 'Enumerated')]]),
    'multiplicity_str': (U, 'multiplicity_str', [[{'minc': 0, 'maxc': 0}], [{}]]),
    'flatten': (U, 'flatten', [[NESTED], [NESTED, 'p'], [NESTED, 'p', {'q': S('k', 'int')}]]),
    'fluff': (U, 'fluff', [[FLAT]]),
    'dmerge': (U, 'dmerge', [[{'a': {'b': S('x', 'int')}}, {'c': S('y', 'int')}]]),
    'hdict': (U, 'hdict', [['a.b', S('x', 'int')]]),
    'build_deps': (U, 'build_deps', [[{'types': [TDEF]}]]),
    'topo_sort': (U, 'topo_sort', [[DEPS, ['A']], [DEPS, []]]),
    'get_optx': (U, 'get_optx', [[OPTS, 'minv'], [[], 'minv']]),
    'get_config': (U, 'get_config', [[META], [{}], [NONE], [{'package': 'x'}]]),
    'list_types': (U, 'list_types', [[]]),
    'list_get_default': (U, 'list_get_default', [[[S('x', 'int')], 0], [[], 0, S('d', 'int')]]),
    'id_type': (U, 'id_type', [[TDEF]]),
    'get_enum_items': ('jadn.transform.transform', 'get_enum_items', [[T('E', 'Enumerated', ['#Rec']), {'enum': 'Rec'}, {'Rec': TDEF}]]),
    'jidl_style': (J + 'jidl', 'jidl_style', [[]]), 
    'markdown_style': (J + 'markdown', 'markdown_style', [[]]), 'diagram_style': (J + 'diagram_w', 'diagram_style', [[]]),
}
SMALL['list_types'] = None
SMALL = {k: v for k, v in SMALL.items() if v}
MUTABLE = ('list', 'dict', 'set', 'obj')


class Op:
    """one operation on literal arguments"""
    def __init__(self, key, what, mod, fn, args, kwargs=None):
        self.key, self.what, self.mod, self.fn, self.args, self.kwargs = key, what, mod, fn, args, kwargs or {}

    def prepare(self, I):
        sc = FnScenario(I, self.key)
        sc.vals = [sc.py(a) for a in self.args]
        return sc

    def run(self, sc, st=None):
        return sc.call(self.mod, self.fn, sc.vals, self.kwargs, st)


def operations(small=True, dumps=True):
    for n, (mod, fn, extra, fams) in SCHEMA_OPS.items():
        for fam in fams:
            if (n, fam) == ('jidl_dumps.style', 'rich'):
                continue
            yield Op(f'{n}.{fam}', f'{fn} of the {fam} schema', mod, fn, [FAMILIES[fam]()] + list(extra))
    if dumps:
        for n, (mod, fn, extra) in DUMP_OPS.items():
            yield Op(f'{n}.links', f'{fn} of the links schema', mod, fn, [FAMILIES['links']()] + list(extra))
    if small:
        for n, (mod, fn, arglists) in SMALL.items():
            for k, a in enumerate(arglists):
                yield Op(f'{n}.{k}', f'{fn}()', mod, fn, a)


def each(su, rep, ops, judge):
    """runs each operation and hands (op, scenario, heap before, outcomes) to judge"""
    I = su.I
    n = paths = 0
    for op in ops:
        try:
            sc = op.prepare(I)
            before = frozen_heap(sc.st)
            outs = op.run(sc)
        except (Budget, RecursionError) as e:
            rep.undecided(op.key, op.what, '', type(e).__name__)
            continue
        except Anchor:
            raise
        except Exception as e:
            rep.undecided(op.key, op.what, '', f'analysis gave up: {type(e).__name__}: {e}')
            continue
        n += 1
        paths += len(outs)
        rep.analysed |= I.analysed
        judge(op, sc, before, outs)
    rep.extra['operations_analysed'] = rep.extra.get('operations_analysed', 0) + n
    rep.extra['paths'] = rep.extra.get('paths', 0) + paths


def mine(sc, before):
    return reach(sc.vals, before[0])


def blame(I, o):
    """construct where the exit state was produced"""
    return where(I, o)
