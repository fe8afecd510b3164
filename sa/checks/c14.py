"""C14: files hold exactly the converted text, written and read as UTF-8 whatever the locale."""
import ast
import codecs

from effects import *      # noqa

LEVEL = 'other'
FLOOR = 25
RULE = ('Abstract interpretation of every function that writes or reads a file, with the conversion itself replaced by an '
        'open text: on every normal path the file named by the caller is opened (for writing, truncating) with an encoding '
        'that names UTF-8 and strict error handling, the text of the conversion is written whole, once and last, and the '
        'caller\'s schema and options reach the conversion; a reader hands the whole file to its parser and returns what '
        'that returns. Every other call of open() in the package is checked on the syntax tree.')
X = 'jadn.translate.jsonschema_w'
# writer, conversion, extra arguments (name in the writer -> name in the conversion)
WRITERS = [('jadn.core', 'dump', 'dumps', {'strip': 'strip'}), (J + 'jidl', 'jidl_dump', 'jidl_dumps', {'style': 'style'}),
           (J + 'html', 'html_dump', 'html_dumps', {}), (J + 'markdown', 'markdown_dump', 'markdown_dumps', {'style': 'style'}),
           (J + 'diagram_w', 'diagram_dump', 'diagram_dumps', {'style': 'style'}),
           (J + 'jas_w', 'jas_dump', 'jas_dumps', {}), (J + 'proto', 'proto_dump', 'proto_dumps', {'style': 'style'}),
           (X, 'json_schema_dump', 'json_schema_dumps', {'verbose': 'verbose', 'enum_style': 'enum_style', 'import_style': 'import_style'})]
READERS = [(J + 'html', 'html_load', 'html_loads'), (J + 'markdown', 'markdown_load', 'markdown_loads'),
           (J + 'proto', 'proto_load', 'proto_loads')]
FP_READERS = [(J + 'jidl', 'jidl_load', 'jidl_loads')]
TEXT, SRC, FNAME = S('text', 'str'), S('source', 'str'), S('fname', 'str')


def utf8(enc, writing):
    try:
        name = codecs.lookup(enc).name
    except (LookupError, TypeError):
        return False
    return name == 'utf-8' or (not writing and name == 'utf-8-sig')


def bad_open(mode, enc, errors, writing, newline=('c', 'NoneType', None)):
    """problem with an open() call on constant arguments, '' when there is none, None when not decided"""
    for x in (mode, enc, errors, newline):
        if x[0] != 'c':
            return None
    m = mode[2]
    if not isinstance(m, str):
        return 'mode is not text'
    if 'b' in m:
        return ''
    if enc[2] is None or not utf8(enc[2], writing):
        return f'opened with encoding {enc[2]!r}, which is not UTF-8 on every platform'
    if errors[2] not in (None, 'strict'):
        return f'opened with errors={errors[2]!r}: characters may be lost'
    if writing and not m.startswith('w'):
        return f'opened with mode {m!r}'
    if writing and newline[2] not in (None, '', '\n'):
        return f'opened with newline={newline[2]!r}: line ends are not those of the text'
    return ''


def flat(v):
    return list(v[1]) if v[0] == 'cat' else [v]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I
    seen = set()

    def go(key, what, mod, fn, args, kw, target, value, judge):
        sc = FnScenario(I, key)
        tfn = I.modattr(mod, target)
        if tfn is None or tfn[0] != 'fn':
            raise Anchor(f'{mod}.{target}')
        info = I.fns[tfn[1]]

        def model(I_, st, a, kwargs, node):
            names = [x.arg for x in info.node.args.args]
            d = dict(zip(names, a))
            d.update(kwargs)
            st.event('convert', tuple(sorted(d.items())))
            return [(st, value, None)]
        sc.models[info.qual] = model
        sc.nm = [sc.py(a) for a in args]
        try:
            outs = sc.call(mod, fn, sc.nm, kw)
        except (Budget, RecursionError) as e:
            rep.undecided(key, what, '', type(e).__name__)
            return
        rep.analysed |= I.analysed
        good = [o for o in outs if not o.lost]
        for o in good:
            for ev in o.st.events:
                if ev[0] == 'open':
                    seen.add(ev[4])
            p = judge(sc, o)
            if p:
                node = I.fns[I.modattr(mod, fn)[1]].node
                rep.bad(key, f'{what}: {p}', f'{I.src.modules[mod].rel}:{fn}:{node.lineno}', describe(I, o))
                return
            if p is None:
                rep.undecided(key, what, '', f'{fn} does not call {target}')
                return
        if not good or len(good) < len(outs):
            rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(key, f'{what} on {len(good)} paths', where(I, good[0]))

    def opened(o, writing):
        ops = [e for e in o.st.events if e[0] == 'open']
        if len(ops) != 1:
            return f'{len(ops)} files are opened'
        _, path, mode, enc, _, errors = ops[0]
        if path != FNAME:
            return f'opens {show(path)}, not the file it was given'
        p = bad_open(mode, enc, errors, writing)
        return p

    for mod, fn, conv, extra in WRITERS:
        for src in ('none', 'given'):
            for opts in [{}] + ([{k: S('opt_' + k) for k in extra}] if extra else []):
                def judge(sc, o, opts=opts, extra=extra, src=src, mod=mod, conv=conv):
                    if o.exc is not None:
                        return f'fails with {show(o.exc)}'
                    p = opened(o, True)
                    if p != '':
                        return p
                    c = [dict(e[1]) for e in o.st.events if e[0] == 'convert']
                    if not c and any(e[0] == 'write' for e in o.st.events):
                        return None             # converted some other way
                    if len(c) != 1:
                        return f'converts {len(c)} times'
                    node = I.fns[I.modattr(mod, conv)[1]].node
                    first = node.args.args[0].arg
                    if c[0].get(first) != sc.nm[0]:
                        return 'converts something other than the schema it was given'
                    for k, w in extra.items():
                        if k in opts and c[0].get(w) != opts[k]:
                            return f'its option {k} does not reach the conversion'
                    w = [x for e in o.st.events if e[0] == 'write' for x in flat(e[2])]
                    n = w.count(TEXT)
                    if n != 1:
                        return f'the converted text is written {n} times'
                    rest = w[w.index(TEXT) + 1:]
                    if any(x[0] != 'c' or x[2].strip() for x in rest):
                        return 'something else is written after the converted text'
                    if src == 'none' and w.index(TEXT) > 0:
                        return f'writes {show(w[0])} before the converted text'
                    return ''
                args = [FAMILIES['links'](), FNAME] + ([SRC] if src == 'given' else [])
                go(f'{fn}.{src}.{"options" if opts else "plain"}', f'{fn} writes the text of {conv} to the file as UTF-8', mod, fn, args,
                   opts, conv, TEXT, judge)
    parsed = S('parsed')

    def reads(o, text):
        c = [dict(e[1]) for e in o.st.events if e[0] == 'convert']
        if not c:
            return None
        if len(c) != 1 or text not in c[0].values():
            return 'the parser is not given the whole text of the file'
        if o.val != parsed:
            return 'does not return what the parser returns'
        return ''

    for mod, fn, conv in READERS:
        def judge(sc, o):
            if o.exc is not None:
                return f'fails with {show(o.exc)}'
            p = opened(o, False)
            if p != '':
                return p
            return reads(o, ('app', '!read', (FNAME,), 'str'))
        go(f'{fn}', f'{fn} reads the whole file as UTF-8', mod, fn, [FNAME], {}, conv, parsed, judge)
    for mod, fn, conv in FP_READERS:
        def judge(sc, o):
            if o.exc is not None:
                return f'fails with {show(o.exc)}'
            return reads(o, ('app', '!read', (FNAME,), 'str'))
        go(f'{fn}', f'{fn} parses the whole text of the file it is given', mod, fn,
           [lambda sc: sc.st.alloc(('obj', '!file', (('name', FNAME), ('mode', C('r')), ('encoding', C('utf8')))))], {}, conv, parsed, judge)

    sweep(rep, I, seen)


def const(node, mod, fn):
    """constant value of an expression: a literal or a name bound once, to a literal, in the function or module"""
    if node is None:
        return C(None)
    if isinstance(node, ast.Constant):
        return C(node.value)
    if isinstance(node, ast.Name):
        vals = []
        for scope in (fn, mod):
            if scope is None:
                continue
            for n in ast.walk(scope):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Name) and t.id == node.id for t in ts):
                        vals.append(n.value)
                elif isinstance(n, ast.arg) and n.arg == node.id:
                    return ('unk', 'parameter')
            if vals:
                break
        if len(vals) == 1 and isinstance(vals[0], ast.Constant):
            return C(vals[0].value)
    return ('unk', 'expression')


def sweep(rep, I, seen):
    """every call of open() on the syntax tree"""
    for name, m in sorted(I.src.modules.items()):
        fns = [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            attr = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if attr not in ('open', 'read_text', 'write_text', 'fdopen'):
                continue
            if attr == 'open' and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('os', 'webbrowser', 'Image', 'tarfile', 'zipfile'):
                continue
            if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
                continue
            fn = next((x for x in fns if node in ast.walk(x)), None)
            kw = {k.arg: k.value for k in node.keywords}
            path_first = isinstance(f, ast.Name) or isinstance(f.value, ast.Name) and f.value.id in ('io', 'codecs') or attr == 'fdopen'
            pos = list(node.args[1:] if path_first else node.args)
            if attr == 'open' or attr == 'fdopen':
                mode = kw.get('mode', pos[0] if pos else ast.Constant('r'))
                enc = kw.get('encoding', pos[2] if len(pos) > 2 else None)
                err = kw.get('errors', pos[3] if len(pos) > 3 else None)
            elif attr == 'read_text':
                mode, enc, err = ast.Constant('r'), kw.get('encoding', pos[0] if pos else None), kw.get('errors', pos[1] if len(pos) > 1 else None)
            else:
                mode, enc, err = ast.Constant('w'), kw.get('encoding', pos[1] if len(pos) > 1 else None), kw.get('errors', pos[2] if len(pos) > 2 else None)
            nl = kw.get('newline', pos[4] if attr != 'read_text' and attr != 'write_text' and len(pos) > 4 else None)
            mode = const(mode, m.tree, fn)
            p = bad_open(mode, const(enc, m.tree, fn), const(err, m.tree, fn), mode[0] == 'c' and bool(set('wxa+') & set(str(mode[2]))), const(nl, m.tree, fn))
            key = f'open.{name}.{fn.name if fn else "module"}'
            loc = f'{m.rel}:{fn.name if fn else "module"}:{node.lineno}'
            if p:
                rep.bad(key, f'{attr}() in {name}: {p}', loc, '')
            elif p is None:
                rep.undecided(key, f'{attr}() in {name}', loc, 'arguments are not constants')
            else:
                rep.holds(key, f'{attr}() in {name} names UTF-8', loc)
