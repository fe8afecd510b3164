"""C10: every way of reading a schema returns what check() accepted, and nothing else."""
from textround import *     # noqa
from framework import Anchor
from suite import describe, where   # noqa

LEVEL = 'other'
FLOOR = 20
RULE = ('Abstract interpretation of every loader (loads, load, load_any for each kind of file, jidl_loads, html_loads) with check() '
        'modelled as both accepting and refusing: on every normal path check() has accepted a schema and the schema returned '
        'equals it (nothing is changed or replaced afterwards), and when check() refuses there is no normal path. load_any '
        'hands the whole text of the file to the reader of its kind and refuses every other kind.')
FP = 'fp'


def text_of(name):
    return ('app', '!read', (name,), 'str')


def schema_of(sc, info=True):
    b = Build(sc, SAFEDESC, ITEM)
    v = sc.py({**({'info': {'package': 'http://x', 'title': 'x'}} if info else {}), 'types': b(
        [T('T:A', 'Record', [], 'd:TD', [F(1, 'f:a', 'T:V', [], 'd:FD'), F(2, 'f:b', 'T:C', ['&1', '[0'], '')]),
         T('T:B', 'Enumerated', [], '', [[1, 'v:x', 'd:ED']])])})
    b.done()
    return v


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def model(refuse, kind):
        def m(I_, st, args, kwargs, node):
            if refuse:
                return [(st, None, I_.exc('ValueError', C('refused')))]
            a = args[0] if args else next(iter(kwargs.values()))
            out = []
            for s, c, e in I_.b_copy_deepcopy(st, [a], {}):
                s.event('checked', kind, c)
                out.append((s, a, None))
            return out
        return m

    def case(key, what, go, refuse, parse=None):
        sc = FnScenario(I, key)
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = None
        sc.models['jadn.core.check'] = model(refuse, 'check')
        try:
            outs = go(sc)
        except (Budget, RecursionError, NotFollowed) as e:
            rep.undecided(key, what, '', f'{type(e).__name__}: {e}')
            return
        rep.analysed |= I.analysed
        good = [o for o in outs if not o.lost]
        for o in good:
            p = ''
            if o.exc is not None:
                if not refuse:
                    p = f'fails with {show(o.exc)}'
            elif refuse:
                p = 'returns normally although the schema is not valid'
            else:
                cs = [e for e in o.st.events if e[0] == 'checked']
                if not cs:
                    p = 'returns a schema that was not checked'
                else:
                    ds = [compare(e[2], o.val, o.st, o.st) for e in cs]
                    if all(ds):
                        if opaque(o.val, o.st):
                            o.st.lose('result not followed')
                            rep.undecided(key, what, '', 'result not followed')
                            return
                        p = f'returns something other than the schema that was checked: {ds[-1]}'
                ps = [e for e in o.st.events if e[0] == 'parse']
                if not p and parse and ps and not any(e[1].split('.')[-1] == parse for e in ps):
                    p = f'read with {ps[0][1]}, not {parse}'
                if not p and parse and ps and ps[0][2] != text_of(sc.name):
                    p = f'the reader is given {show(ps[0][2])}, not the text of the file'
            if p:
                rep.bad(key, f'{what}: {p}', where(I, o), describe(I, o))
                return
        if len(good) < len(outs) or not outs:
            rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(key, f'{what} on {len(good)} paths', where(I, good[0]))

    def jsonish(sc):
        def m(fn):
            def f(I_, st, args, kwargs, node):
                st.event('parse', fn, text_of(sc.name) if args and args[0][0] == 'ref' else args[0])
                return [(st, sc.doc, None)]
            return f
        sc.doc = schema_of(sc)
        sc.models['json.loads'] = m('json.loads')
        sc.models['json.load'] = m('json.load')

    def fp(sc, name):
        sc.name = name
        return sc.st.alloc(('obj', '!file', (('name', name), ('mode', C('r')), ('encoding', C('utf8')), ('buffer', sc.st.alloc(('obj', '!buffer', ()))))))

    def reader(sc, f, refuse):
        def m(I_, st, args, kwargs, node):
            a = args[0] if args else next(iter(kwargs.values()))
            st.event('parse', f, a)
            if refuse:
                return [(st, None, I_.exc('ValueError', C('refused')))]
            return model(False, f)(I_, st, [sc.doc], {}, node)
        return m
    for refuse in (False, True):
        n = 'refused' if refuse else 'accepted'

        def loads(sc):
            jsonish(sc)
            return sc.call('jadn.core', 'loads', [S('doc', 'str')])
        case(f'loads.{n}', f'loads() of a schema that is {n}', loads, refuse)

        def load(sc):
            jsonish(sc)
            return sc.call('jadn.core', 'load', [fp(sc, S(FP, 'str'))])
        case(f'load.{n}', f'load() of a schema that is {n}', load, refuse)
        for ext, rd in (('.jadn', None), ('.jidl', 'jidl_loads'), ('.html', 'html_loads')):
            for stem in (C('x'), S('stem', 'str')):
                def load_any(sc, ext=ext, stem=stem):
                    jsonish(sc)
                    if stem[0] != 'c':
                        sc.shape(stem, r'/?([a-z][a-z0-9]*/)*[a-z][a-z0-9]*')
                    for mod, f in (('jidl', 'jidl_loads'), ('html', 'html_loads')):
                        sc.models[f'jadn.convert.{mod}.{f}'] = reader(sc, f, refuse)
                    name = mk_cat([stem, C(ext)])
                    sc.models['os.path.splitext'] = lambda I_, st, a, kw, node: [(st, ('tup', (stem, C(ext))), None)] if a[0] == name else None
                    return sc.call('jadn.core', 'load_any', [fp(sc, name)])

                case(f'load_any{ext}.{"x" if stem[0] == "c" else "any"}.{n}', f'load_any() of a {ext} file whose schema is {n}', load_any, refuse, rd)

        for mod, w, r in (('jidl', 'jidl_dumps', 'jidl_loads'), ('html', 'html_dumps', 'html_loads')):
            for info in (True, False):
                def text(sc, mod=mod, w=w, r=r, info=info):
                    v = schema_of(sc, info)
                    out = []
                    for o in sc.call('jadn.convert.' + mod, w, [v]):
                        out += sc.call('jadn.convert.' + mod, r, [o.val], None, o.st)
                    return out
                case(f'{r}.{"info" if info else "plain"}.{n}', f'{r}() of a document whose schema is {n}', text, refuse)
    for ext in ('', '.txt', '.json', '.md', '.proto', '.jidlx'):
        def other(sc, ext=ext):
            jsonish(sc)
            sc.models['jadn.core.check'] = model(False, 'check')
            sc.models['os.path.splitext'] = lambda I_, st, a, kw, node: [(st, ('tup', (C('x'), C(ext))), None)] if a[0] == C('x' + ext) else None
            for mod, f in (('jidl', 'jidl_loads'), ('html', 'html_loads')):
                sc.models[f'jadn.convert.{mod}.{f}'] = reader(sc, f, False)
            return sc.call('jadn.core', 'load_any', [fp(sc, C('x' + ext))])
        case(f'load_any.other{ext}', f'load_any() of a {ext or "nameless"} file', other, True)
