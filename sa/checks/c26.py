"""C26: merging imported packages keeps exactly the types the root needs and every reference names the type it named."""
import itertools

from textround import *     # noqa
from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of resolve_imports() on families of packages (type names, field names, descriptions and numbers '
        'open), the directory and the files modelled as that family and check() as the column filling it does. Read off the '
        'result: every type of the root and of the other packages that the roots reach is there exactly once and no other, no '
        'two share a name, root types keep theirs, definitions are unchanged but for the references, each reference names the '
        'type it named, and the same comes out for every order of the directory and of sets. Undefined types and namespace ids '
        'are refused.')
RS = 'jadn.transform.resolve'
N = {k: S('T' + k, 'str') for k in 'ABCDWXYZ'}
A, B, CC, D, W, X_, Y_, Z_ = (N[k] for k in 'ABCDWXYZ')
NS = {k: f'http://{k}.example/v1' for k in 'abcd'}
EXTRA = ['{1', '}64', '/uri', '%^#[a-z]+*$', 'q', 'u-3', '!+x']


def q(ns, n):
    """reference to type n of the package called ns there"""
    if isinstance(n, str):
        return f'{ns}:{n}' if ns else n
    return ('cat', (C(ns + ':'), n)) if ns else n


def o_(ch, ns, n):
    return ('cat', (C(ch + ns + ':'), n)) if ns else ('cat', (C(ch), n))


def fill(t, i):
    """columns check() fills in, and a description of its own for every type"""
    t = list(t) + [[], '', []][len(t) - 2:]
    t[3] = t[3] or S(f'd{i}', 'str')
    return t


def package(ns, types, namespaces=None, **info):
    i = {'package': NS.get(ns, ns)}
    if namespaces:
        i['namespaces'] = namespaces
    i.update(info)
    return {'info': i, 'types': types}


class Family:
    def __init__(self, key, what, root, others, inside=False, refuse=False, no_nsid=(), extra=(), names=None):
        self.key, self.what, self.root, self.refuse, self.no_nsid, self.names = key, what, root, refuse, no_nsid, names
        self.files = dict(others)
        if inside:
            self.files['root.jadn'] = root
        self.listing = sorted(self.files) + list(extra)
        n = itertools.count()
        for p in [root] + list(others.values()):
            p['types'] = [fill(t, next(n)) for t in p['types']]

    def packages(self):
        out = {}
        for p in [self.root] + [self.files[f] for f in sorted(self.files)]:
            out.setdefault(p['info'].get('package'), p)
        return out

    def target(self, p, ref):
        """reference in a package -> (namespace, type name)"""
        me = p['info']['package']
        if is_term(ref) and ref[0] == 'cat' and ref[1][0][0] == 'c' and ref[1][0][2].endswith(':') and len(ref[1]) == 2:
            ns = dict(p['info'].get('namespaces', {})).get(ref[1][0][2][:-1])
            return (ns, ref[1][1])
        if isinstance(ref, str) and ':' in ref:
            i, t = ref.split(':')
            return (dict(p['info'].get('namespaces', {})).get(i), t)
        return (me, norm(ref))


def refopt(o):
    """option naming a type -> (ids, name), else None"""
    try:
        c, r = text(o)
    except (Odd, Ill):
        return None
    if c not in '*+#>':
        return None
    ids = c
    if c in '*+':
        if isinstance(r, str) and r[:1] in ('#', '>'):
            ids, r = ids + r[0], r[1:]
        elif is_term(r) and r[0] == 'cat' and r[1][0][0] == 'c' and r[1][0][2][:1] in ('#', '>'):
            c2, r = text(r)
            ids += c2
    return ids, r


def typerefs(t):
    """[(place, name)] of the references of a definition, in order"""
    out = []
    for k, o in enumerate(t[2]):
        ro = refopt(o)
        if ro and ro[1] not in BUILTIN:
            out.append((f'option {k}', ro[1]))
    if t[1] in FIELDED:
        for i, f in enumerate(t[4]):
            if norm(f[2]) not in BUILTIN:
                out.append((f'type of field {i}', norm(f[2])))
            for k, o in enumerate(f[3]):
                ro = refopt(o)
                if ro and ro[1] not in BUILTIN:
                    out.append((f'option {k} of field {i}', ro[1]))
    return out


def skeleton(t):
    """definition with the references taken out"""
    def opts(l):
        return [('ref', refopt(o)[0]) if refopt(o) and refopt(o)[1] not in BUILTIN else norm(o) for o in l]
    fields = t[4]
    if t[1] in FIELDED:
        fields = [[norm(f[0]), norm(f[1]), norm(f[2]) if norm(f[2]) in BUILTIN else 'ref', opts(f[3]), norm(f[4])] for f in fields]
    else:
        fields = [[norm(x) for x in f] for f in fields]
    return [norm(t[1]), opts(t[2]), norm(t[3]), fields]


def wanted(fam):
    """(namespace, name) -> (package, type) of everything the roots reach"""
    pk = fam.packages()
    idx = {(ns, norm(t[0])): (p, t) for ns, p in pk.items() for t in p['types']}
    info = fam.root['info']
    todo = [(info['package'], norm(r)) for r in info.get('roots', info.get('exports', []))]
    out = {}
    while todo:
        k = todo.pop(0)
        if k in out or k not in idx:
            continue
        p, t = idx[k]
        out[k] = (p, t)
        todo += [fam.target(p, r) for _, r in typerefs(t)]
    return out


def verdict(fam, types):
    want = wanted(fam)
    root = fam.root['info']['package']
    bydesc = {norm(t[3]): k for k, (p, t) in want.items()}
    known_ids = {}
    for p in fam.packages().values():
        for i, ns in dict(p['info'].get('namespaces', {})).items():
            known_ids.setdefault(ns, set()).add(i)
    name = {}
    ident = []
    for t in types:
        if len(t) != 5:
            return f'a type has {len(t)} columns'
        k = bydesc.get(norm(t[3]))
        if k is None:
            return f'has the type {show_(norm(t[0]))} described {show_(norm(t[3]))}, which the roots do not need'
        if k in [x for x, _ in ident]:
            return f'has the type {show_(k[1])} of {k[0]} more than once'
        if norm(t[0]) in name:
            return f'two types are called {show_(norm(t[0]))}: of {name[norm(t[0])][0]} and {k[0]}'
        name[norm(t[0])] = k
        ident.append((k, t))
    for k in want:
        if k not in name.values():
            return f'the type {show_(k[1])} of {k[0]} is missing'
    for k, t in ident:
        n = norm(t[0])
        if k[0] == root and n != k[1]:
            return f'the type {show_(k[1])} of the root is called {show_(n)}'
        ids = known_ids.get(k[0], set())
        if k[0] != root and ids and ids <= set(fam.no_nsid) and n != k[1]:
            return f'the type {show_(k[1])} of {k[0]} is called {show_(n)} although its id is not to be added'
        if k[0] != root and len(ids) == 1 and not ids & set(fam.no_nsid) and not getattr(fam, 'clash', False):
            w = f'{k[1]}${list(ids)[0]}' if isinstance(k[1], str) else mk_cat([k[1], C(f'${list(ids)[0]}')])
            if n != norm(w):
                return f'the type {show_(k[1])} of {k[0]} is called {show_(n)}'
        p, orig = want[k]
        if skeleton(t) != skeleton(orig):
            return f'the type {show_(k[1])} of {k[0]} is {show_sk(skeleton(t))}, it was {show_sk(skeleton(orig))}'
        for (w, r), (w2, r2) in zip(typerefs(t), typerefs(orig)):
            if name.get(norm(r)) != fam.target(p, r2):
                return f'{w} of the type {show_(k[1])} of {k[0]} names {show_(norm(r))}, it named {show_(fam.target(p, r2)[1])} of {fam.target(p, r2)[0]}'
    order = [k for k, _ in ident if k[0] == root]
    if order != [(root, norm(t[0])) for t in fam.root['types'] if (root, norm(t[0])) in want]:
        return f'the types of the root are in the order {[show_(k[1]) for k in order]}'
    for ns in {k[0] for k, _ in ident}:
        p = fam.packages()[ns]
        if [k for k, _ in ident if k[0] == ns] != [(ns, norm(t[0])) for t in p['types'] if (ns, norm(t[0])) in want]:
            return f'the types of {ns} are in another order'
    return ''


def show_sk(s):
    return repr(s)[:160]


def families():
    lib = [[X_, 'String', ['{1', '%^*a#$'], ''], [Y_, 'Record', [], '', [F(1, 'p', X_), F(2, 'q', 'ArrayOf', [o_('*', '', Z_), '{1', ']0'])]], [Z_, 'Enumerated', [], '', [[1, X_, ''], [2, 'b', 'd2']]],
           [W, 'Integer', [], '']]
    ab = {'b': NS['b']}

    def two(key, what, types, ns=ab, b=lib, **kw):
        return Family(key, what, package('a', types, ns, **kw.pop('info', {'exports': [A]})), {'b.jadn': package('b', [list(t) for t in b])}, **kw)
    # one reference in each position
    for ns in ('b', ''):
        loc = [] if ns else [list(t) for t in lib]
        at = 'of another package' if ns else 'of the same package'
        for n, tgt in (('leaf', X_), ('record', Y_), ('enum', Z_)):
            for k, base, opts in (('vtype', 'ArrayOf', [o_('*', ns, tgt), '{1']), ('ktype', 'MapOf', [o_('+', ns, tgt), '*String']), ('kv', 'MapOf', ['+Integer', o_('*', ns, tgt), '}5']),
                                  ('vtype.enum', 'ArrayOf', [o_('*#', ns, tgt), 'q']), ('ktype.enum', 'MapOf', [o_('+#', ns, tgt), '*Binary']), ('vtype.ptr', 'ArrayOf', [o_('*>', ns, tgt)]),
                                  ('enum', 'Enumerated', [o_('#', ns, tgt)]), ('ptr', 'Enumerated', ['=', o_('>', ns, tgt)])):
                if ('#' in str(opts) or '>' in str(opts)) and n != 'record':
                    continue
                yield two(f'type.{k}.{n}.{ns or "own"}', f'a {k} option naming a {n} type {at}', [[A, base, opts, '']] + loc)
                for fb in FIELDED if n == 'record' else ('Record',):
                    yield two(f'field.{fb}.{k}.{n}.{ns or "own"}', f'a {k} option in a field of a {fb}, naming a {n} type {at}',
                              [[A, fb, ['X'], '', [F(1, 'p', 'String', ['/uri']), F(2, 'f', base, ['[0'] + opts, 'fd'), F(3, 'g', B, ['L'], '')]], [B, 'Boolean']] + loc)
            for fb in FIELDED:
                yield two(f'ref.{fb}.{n}.{ns or "own"}', f'a field of a {fb} whose type is a {n} type {at}',
                          [[A, fb, [], '', [F(1, 'p', q(ns, tgt), ['[0', ']0'], 'fd'), F(2, 'q', 'Integer', ['/i8', '{5']), F(3, 'r', A, ['[0'])]], [B, 'Boolean']] + loc)
    # who has what
    yield Family('none', 'a package without imports', package('a', [[A, 'Record', [], '', [F(1, 'p', B), F(2, 'q', A, ['[0'])]], [B, 'String'], [CC, 'Array', [], '', [F(1, 'p', B)]], [D, 'Record']], exports=[A]), {})
    yield Family('alone', 'a package without references', package('a', [[A, 'String', EXTRA, ''], [B, 'Binary', ['/x'], '']], exports=[B, A]), {'b.jadn': package('b', [list(t) for t in lib])})
    yield Family('noexport', 'a package without roots', package('a', [[A, 'String'], [B, 'Record', [], '', [F(1, 'p', q('b', X_))]]], ab), {'b.jadn': package('b', [list(t) for t in lib])})
    yield two('roots', 'roots in place of exports', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]], [B, 'ArrayOf', [o_('*', 'b', Z_)]]], info={'roots': [B]})
    yield two('roots.both', 'roots and exports', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]], [B, 'ArrayOf', [o_('*', 'b', Z_)]]], info={'roots': [B], 'exports': [A]})
    yield two('pairs', 'namespaces as a list of pairs', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_))]]], ns=[['b', NS['b']]])
    yield two('inside', 'a root that is in the directory', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_)), F(2, 'q', B)]], [B, 'String']], inside=True)
    yield two('other.files', 'a directory with other files', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_))]]], extra=('a.txt', 'b.json', 'c', 'x.jadn.bak', 'data.html'))
    yield two('same.names', 'types called the same in both packages', [[Y_, 'Record', ['X'], '', [F(1, 'p', q('b', Y_)), F(2, 'q', X_), F(3, 'r', q('b', X_))]], [X_, 'Boolean'], [Z_, 'Binary']], info={'exports': [Y_]})
    yield two('no_nsid', 'an id that is not added to names', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_)), F(2, 'q', 'MapOf', [o_('+', 'b', Z_), o_('*', '', A)])]]], no_nsid=('b',))
    yield two('unneeded', 'types that are not needed and refer to nothing', [[A, 'Record', [], '', [F(1, 'p', B)]], [B, 'ArrayOf', ['*String']], [CC, 'Record', [], '', [F(1, 'p', q('b', Y_))]]])
    yield two('long.id', 'a longer id', [[A, 'Record', [], '', [F(1, 'p', q('lib', Y_)), F(2, 'q', 'ArrayOf', [o_('*', 'lib', X_)])]]], ns={'lib': NS['b']})
    yield two('two.ids', 'a package with two ids', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_)), F(2, 'q', 'ArrayOf', [o_('*', 'bb', X_)])]]], ns={'b': NS['b'], 'bb': NS['b']})
    yield two('info', 'a package with other information', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], info={'exports': [A], 'title': 't', 'version': '1', 'config': {'$MaxString': 5}})

    # three packages
    def three(key, what, a, b, c, na, nb, nc, **kw):
        return Family(key, what, package('a', a, na, exports=[A]), {'b.jadn': package('b', b, nb), 'c.jadn': package('c', c, nc)}, **kw)
    ca = [[Y_, 'Record', [], '', [F(1, 'p', X_), F(2, 'q', Z_, ['[0'])]], [X_, 'String'], [Z_, 'Number'], [W, 'String']]
    for k, na, nb, ib, ic in (('ids', {'b': NS['b'], 'c': NS['c']}, {'c': NS['c']}, 'c', 'c'), ('ids.differ', {'b': NS['b'], 'c': NS['c']}, {'k': NS['c']}, 'k', 'c'),
                              ('ids.clash', {'b': NS['b']}, {'b': NS['c']}, 'b', None), ('ids.swap', {'b': NS['b'], 'c': NS['c']}, {'b': NS['c'], 'c': NS['b']}, 'b', 'c')):
        f = three(f'chain.{k}', f'a package that imports another ({k})', [[A, 'Record', [], '', [F(1, 'p', q('b', B))] + ([F(2, 'q', q(ic, Z_))] if ic else [])]],
                  [[B, 'Map', [], '', [F(1, 'p', q(ib, Y_)), F(2, 'q', X_), F(3, 'r', 'ArrayOf', [o_('*', ib, X_)])]], [X_, 'Boolean'], [Y_, 'Binary']], [list(t) for t in ca], na, nb, {})
        f.clash = k in ('ids.clash', 'ids.swap')
        yield f
    yield three('cycle', 'packages that import each other', [[A, 'Record', [], '', [F(1, 'p', q('b', B))]], [CC, 'String'], [D, 'Record', [], '', [F(1, 'p', q('b', W))]]],
                [[B, 'Record', [], '', [F(1, 'p', q('root', D), ['[0']), F(2, 'q', q('c', X_))]], [W, 'Integer'], [Z_, 'Integer']],
                [[X_, 'ArrayOf', [o_('*', 'bb', Z_)], ''], [Z_, 'String']],
                {'b': NS['b']}, {'root': NS['a'], 'c': NS['c']}, {'bb': NS['b']})
    yield three('diamond', 'two ways to one package', [[A, 'Choice', [], '', [F(1, 'p', q('b', B)), F(2, 'q', q('c', X_))]]],
                [[B, 'ArrayOf', [o_('*', 'k', X_)], ''], [CC, 'ArrayOf', [o_('*', 'k', W)], '']], [list(t) for t in ca], {'b': NS['b'], 'c': NS['c']}, {'k': NS['c']}, {})
    yield three('second', 'a type needed on the way back', [[A, 'Record', [], '', [F(1, 'p', q('b', B)), F(2, 'q', q('c', Y_))]]],
                [[B, 'String'], [CC, 'Record', [], '', [F(1, 'p', D)]], [D, 'Boolean']], [[Y_, 'Record', [], '', [F(1, 'p', q('b', CC))]], [X_, 'String']], {'b': NS['b'], 'c': NS['c']}, {}, {'b': NS['b']})
    yield two('system', 'types with system names', [['$A', 'Record', [], '', [F(1, 'p', q('b', '$Sub')), F(2, 'q', '$B'), F(3, 'r', 'ArrayOf', ['*$B'])]], ['$B', 'String', [], '']], info={'exports': ['$A']},
              b=[['$Sub', 'Record', [], '', [F(1, 'p', '$Sub', ['[0']), F(2, 'q', '$B-x')]], ['$B-x', 'Number', [], ''], ['$B', 'Boolean', [], '']])
    yield two('repeat', 'references made more than once', [[A, 'Record', [], '', [F(1, 'p', q('b', X_)), F(2, 'q', q('b', X_)), F(3, 'r', 'MapOf', [o_('+', 'b', X_), o_('*', 'b', X_)]), F(4, 's', B), F(5, 't', B)]],
                                                           [B, 'MapOf', [o_('+', 'b', Z_), o_('*', 'b', Y_)]]])
    yield two('many', 'several roots', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]], [B, 'ArrayOf', [o_('*', 'b', W)]], [CC, 'ArrayOf', [o_('*', '', D)]], [D, 'ArrayOf', [o_('*', 'b', X_)]]], info={'exports': [D, A, B]})
    yield two('columns', 'definitions with empty parts', [[A, 'Record', [], '', []], [B, 'Choice', ['=', 'C1'], '', [F(1, 'p', q('b', X_), [], ''), F(2, 'q', q('b', Z_), [], 'fd')]]], info={'exports': [A, B]})
    yield two('literals', 'options and items that look like references', [[A, 'Enumerated', ['='], '', [[1, '#b:Tx', 'b:Tx'], [2, 'b:Ty', '']]], [B, 'String', ['%^b:[A-Z]+$', '/x', '{1'], ''],
                                                                          [CC, 'Record', ['X'], '', [F(1, 'p', 'String', ['!b:Tx', '[0'], 'b:Tx'), F(2, 'q', q('b', X_), ['K', '<'])]], [D, 'Integer', ['{-5', '}7'], '']], info={'exports': [A, B, CC, D]})
    four = {'b.jadn': package('b', [[X_, 'Record', [], '', [F(1, 'p', q('c', X_))]]], {'c': NS['c']}), 'c.jadn': package('c', [[X_, 'Record', [], '', [F(1, 'p', q('d', X_)), F(2, 'q', q('d', Y_))]]], {'d': NS['d']}),
            'd.jidl': package('d', [[X_, 'ArrayOf', [o_('*', 'c', X_), '{1'], ''], [Y_, 'String'], [Z_, 'String']], {'c': NS['c']}), 'e.jadn': package('http://e.example', [[X_, 'String']])}
    yield Family('four', 'a chain of packages', package('a', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], ab, exports=[A]), four)
    f = Family('duplicate', 'two files of one package', package('a', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], ab, exports=[A]), {'b1.jadn': package('b', [[X_, 'String']]), 'b2.jidl': package('b', [[X_, 'Boolean']])})
    yield f
    yield Family('jidl', 'a package in a JIDL file', package('a', [[A, 'Record', [], '', [F(1, 'p', q('b', Y_))]]], ab, exports=[A]), {'b.jidl': package('b', [list(t) for t in lib])})
    yield Family('broken.unneeded', 'a package that is not needed and refers to nothing', package('a', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], ab, exports=[A]),
                 {'b.jadn': package('b', [list(t) for t in lib]), 'c.jadn': package('c', [[X_, 'Record', [], '', [F(1, 'p', Y_), F(2, 'q', q('zz', Y_))]]])})
    # refused
    yield Family('undef.root', 'a root that is not defined', package('a', [[A, 'String']], exports=[B]), {}, refuse=True)
    yield Family('undef.own', 'a reference to a type that is not defined', package('a', [[A, 'Record', [], '', [F(1, 'p', B), F(2, 'q', CC)]], [B, 'String']], exports=[A]), {}, refuse=True)
    yield Family('undef.vtype', 'an option naming a type that is not defined', package('a', [[A, 'ArrayOf', [o_('*', '', B)]]], exports=[A]), {}, refuse=True)
    yield two('undef.import', 'a reference to a type another package does not define', [[A, 'Record', [], '', [F(1, 'p', q('b', D))]]], refuse=True)
    yield two('undef.inside', 'a package whose type refers to one not defined', [[A, 'Record', [], '', [F(1, 'p', q('b', CC))]]], b=[[CC, 'ArrayOf', [o_('*', '', D)], '']], refuse=True)
    yield two('undef.ns', 'a reference to a namespace id that is not defined', [[A, 'Record', [], '', [F(1, 'p', q('bb', X_))]]], refuse=True)
    yield two('undef.ns.opt', 'an option with a namespace id that is not defined', [[A, 'MapOf', ['+String', o_('*', 'bb', X_)]]], refuse=True)
    yield two('undef.ns.none', 'a reference to another package without namespaces', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], ns=None, refuse=True)
    f = two('nopackage', 'a file that has no package name', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], refuse=True)
    f.files['c.jadn'] = {'info': {'title': 'c'}, 'types': []}
    f.listing = sorted(f.files)
    yield f
    f = two('noinfo', 'a file without information', [[A, 'Record', [], '', [F(1, 'p', q('b', X_))]]], refuse=True)
    f.files['c.jadn'] = {'types': [[A, 'String', [], '', []]]}
    f.listing = sorted(f.files)
    yield f


def prepare(sc, fam, order):
    for n in N.values():
        sc.shape(n, '[A-Z][-A-Za-z0-9]*')
    sc.distinct(*N.values(), *[C(x) for x in BUILTIN])
    for p in [fam.root] + list(fam.files.values()):
        for t in p['types']:
            if t[3] and is_term(t[3]):
                sc.shape(t[3], '[^\x00]*')
    ds = [t[3] for p in [fam.root] + list(fam.files.values()) for t in p['types'] if is_term(t[3])]
    sc.distinct(*list(dict.fromkeys(ds)))
    sc.tok = True

    def listdir(I, st, args, kwargs, node):
        return [(st, st.alloc(('list', tuple((C(f), ONE) for f in order))), None)]

    def load_any(I, st, args, kwargs, node):
        f = args[0] if args else next(iter(kwargs.values()))
        nm = dict(st.heap[f[1]][2]).get('name') if f[0] == 'ref' else None
        base = nm[2].removeprefix('dir/') if nm and nm[0] == 'c' else None
        if base not in fam.files:
            st.lose(f'file {nm}')
            return [(st, ('unk', 'file'), None)]
        s2 = FnScenario(I, 'doc')
        s2.st = st
        return [(st, s2.py(fam.files[base]), None)]

    def check(I, st, args, kwargs, node):
        st.event('checked', args[0])
        return [(st, args[0], None)]
    sc.models['os.listdir'] = listdir
    for m in ('jadn.core.load_any', 'jadn.core.load'):
        sc.models[m] = load_any
    sc.models['jadn.core.check'] = check


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    for fam in families():
        base = fam.listing
        orders = [base, base[::-1]] + ([base[1:] + base[:1]] if len(base) > 2 else [])
        for k, order in enumerate([list(x) for x in dict.fromkeys(map(tuple, orders))]):
            for so in ('a', 'b') if k == 0 else (None,):
                def go(sc, fam=fam, order=order, so=so):
                    prepare(sc, fam, order)
                    sc.set_order = so
                    sc.doc = sc.py(fam.root)
                    fam.now = sc
                    fam.before = concrete(sc.doc, sc.st)
                    return sc.call(RS, 'resolve_imports', [sc.doc, C('dir')] + ([('tup', tuple(C(x) for x in fam.no_nsid))] if fam.no_nsid else []))

                def result(o, fam=fam):
                    v = concrete(o.val, o.st)
                    if not known(v) or not isinstance(v, dict) or set(v) != {'info', 'types'}:
                        if known(v):
                            return f'returns {str(v)[:80]}'
                        o.st.lose('result')
                        return ''
                    wi = {k: w for k, w in fam.before['info'].items() if k != 'namespaces'}
                    if v['info'] != wi:
                        return f'the information is {v["info"]}, it was {wi}'
                    if concrete(fam.now.doc, o.st) != fam.before:
                        return 'the schema given was changed'
                    return verdict(fam, v['types'])
                su.fcase(f'{fam.key}.{k}{".set" if so == "b" else ""}', f'{fam.what}, files read {order}' + (', sets the other way round' if so else ''), go, 'reject' if fam.refuse else 'accept', result)
