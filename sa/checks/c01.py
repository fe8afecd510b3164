"""C01: value kind, range, length and pattern of scalar types are enforced when encoding and when decoding."""
from suite import *     # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Scenario analysis: for each scalar base type, direction and constraint the abstract initial state "a value on '
        'the wrong side of the constraint" must have no normal exit state through Codec construction, dispatch and the '
        'type codec, and "a value on the right side" must have no exception exit state. Bounds, values and lengths are '
        'symbolic, so each obligation covers every concrete bound and value in its class.')

KINDS = ['int', 'float', 'bool', 'str', 'bytes', 'list', 'dict', 'NoneType']
OKKINDS = {
    ('Boolean', 'encode'): {'bool'}, ('Boolean', 'decode'): {'bool'},
    ('Integer', 'encode'): {'int'}, ('Integer', 'decode'): {'int'},
    ('Number', 'encode'): {'int', 'float'}, ('Number', 'decode'): {'int', 'float'},
    ('String', 'encode'): {'str'}, ('String', 'decode'): {'str'},
    ('Binary', 'encode'): {'bytes'}, ('Binary', 'decode'): {'str'},
}
DEC = S('DEC', 'bytes')


def val(kind):
    return NONE if kind == 'NoneType' else S('V', kind)


def decoded(I, st, args, kwargs, node):
    return [(st, DEC, None)]


def b64(sc):
    """base64 text is decoded by the standard library to some bytes DEC; the text itself is well-formed"""
    sc.models['base64.b64decode'] = decoded
    sc.models['base64.urlsafe_b64decode'] = decoded
    sc.models['base64.b16decode'] = decoded
    sc.models['binascii.a2b_base64'] = decoded
    sc.models['bytes.fromhex'] = decoded
    sc.rewrite_alphabet = True
    sc.clean_alphabet(S('V', 'str'))


def cases(su):
    for base in ('Boolean', 'Integer', 'Number', 'String', 'Binary'):
        for d in ('encode', 'decode'):
            for k in KINDS:
                good = k in OKKINDS[base, d]
                if (base, d, k) == ('Binary', 'decode', 'bytes'):
                    continue                   # not a serialized value

                def build(sc, k=k, base=base, good=good, d=d):
                    v = val(k)
                    if base in ('String', 'Binary') and good:
                        sc.lt(S('#len', 'int'), C(256))
                        if base == 'Binary' and d == 'decode':
                            b64(sc)
                            sc.fact(sc.I.a_lt(sc.I.len_of(DEC, sc.st), C(256)))
                        else:
                            sc.fact(sc.I.a_lt(sc.I.len_of(v, sc.st), C(256)))
                    return sc.schema(base), v
                su.case(f'{base}.{d}.kind.{k}', f'{d} of {k} value as {base}', d, build,
                        'accept' if good else 'reject')
            # plain use of the built-in type name, as a field type would
                def prim(sc, k=k, base=base, good=good, d=d):
                    v = val(k)
                    if base in ('String', 'Binary') and good:
                        sc.lt(sc.I.len_of(v, sc.st), C(256))
                    return sc.schema('Boolean'), v
                if base != 'Binary':
                    su.case(f'{base}.{d}.builtin.{k}', f'{d} of {k} value as built-in {base}', d, prim,
                            'accept' if good else 'reject', datatype=C(base))
    for lab, dt in (('', DT), ('.builtin', C('Binary'))):
        def text(sc):
            sc.lt(sc.I.len_of(S('V', 'bytes'), sc.st), C(100))
            return sc.schema('Binary'), S('V', 'bytes')
        su.case(f'Binary.encode{lab}.text', f'encode of bytes as{" built-in" if lab else ""} Binary yields text', 'encode',
                text, 'accept', datatype=dt,
                result=lambda o: None if su.I.kind(o.val, o.st) == 'str' else 'the encoded value is not text')
    for base, lo, hi, vk in (('Integer', '{', '}', 'int'), ('Number', 'y', 'z', 'float'), ('Number', 'y', 'z', 'int')):
        nk = 'int' if base == 'Integer' else 'float'
        V, LO, HI = S('V', vk), S('LO', nk), S('HI', nk)
        for d in ('encode', 'decode'):
            for opts, olab in (([opt_str(lo, LO)], 'min'), ([opt_str(hi, HI)], 'max'),
                               ([opt_str(lo, LO), opt_str(hi, HI)], 'min+max'),
                               ([opt_str(hi, HI), opt_str(lo, LO)], 'max+min')):
                hasmin, hasmax = 'min' in olab, 'max' in olab
                tag = f'{base}({vk}).{d}.{olab}'

                def mk(rel, opts=opts, base=base, hasmin=hasmin, hasmax=hasmax, V=V, LO=LO, HI=HI):
                    def build(sc):
                        if hasmin and hasmax:
                            sc.lt(HI, LO, False)
                        if rel == 'below':
                            sc.lt(V, LO)
                        elif rel == 'above':
                            sc.lt(HI, V)
                        elif rel == 'eqmin':
                            sc.lt(V, LO, False)
                            sc.lt(LO, V, False)
                        elif rel == 'eqmax':
                            sc.lt(V, HI, False)
                            sc.lt(HI, V, False)
                        elif rel == 'inside':
                            if hasmin:
                                sc.lt(V, LO, False)
                            if hasmax:
                                sc.lt(HI, V, False)
                        return sc.schema(base, opts), V
                    return build
                if hasmin:
                    su.case(tag + '.below', f'{d} of a {base} below its minimum', d, mk('below'), 'reject')
                    su.case(tag + '.eqmin', f'{d} of a {base} equal to its minimum', d, mk('eqmin'), 'accept')
                if hasmax:
                    su.case(tag + '.above', f'{d} of a {base} above its maximum', d, mk('above'), 'reject')
                    su.case(tag + '.eqmax', f'{d} of a {base} equal to its maximum', d, mk('eqmax'), 'accept')
                su.case(tag + '.inside', f'{d} of a {base} inside its range', d, mk('inside'), 'accept')
    for base in ('String', 'Binary'):
        for d in ('encode', 'decode'):
            vk = 'str' if base == 'String' or d == 'decode' else 'bytes'
            V = S('V', vk)
            tgt = DEC if (base, d) == ('Binary', 'decode') else V
            LO, HI, M = S('LO', 'int'), S('HI', 'int'), S('M', 'int')
            L = ('app', 'len', (tgt,), 'int')
            for olab, opts in (('default', []), ('config', []), ('min', [opt_str('{', LO)]), ('max', [opt_str('}', HI)]),
                               ('min+max', [opt_str('{', LO), opt_str('}', HI)])):
                hasmin, hasmax = 'min' in olab, 'max' in olab
                top = HI if hasmax else M if olab == 'config' else C(255)

                def mk(rel, opts=opts, olab=olab, hasmin=hasmin, hasmax=hasmax, top=top, L=L, V=V, base=base, d=d,
                       LO=LO, HI=HI, M=M):
                    def build(sc):
                        if (base, d) == ('Binary', 'decode'):
                            b64(sc)
                        sc.lt(LO, C(0), False)
                        sc.lt(C(0), HI)
                        sc.lt(C(0), M)
                        if hasmin:
                            sc.lt(top, LO, False)
                        if rel == 'below':
                            sc.lt(L, LO)
                        elif rel == 'above':
                            sc.lt(top, L)
                        else:
                            if hasmin:
                                sc.lt(L, LO, False)
                            sc.lt(top, L, False)
                            if rel == 'eqmin':
                                sc.lt(LO, L, False)
                            elif rel == 'eqmax':
                                sc.lt(L, top, False)
                        sch = sc.schema(base, opts)
                        if olab == 'config':
                            o = sc.st.heap[sch[1]]
                            info = sc.dct((C('package'), S('PKG', 'str')),
                                          (C('config'), sc.dct((C('$Max' + base), M))))
                            sc.st.heap[sch[1]] = ('dict', o[1] + ((C('info'), info, ONE),))
                        return sch, V
                    return build
                tag = f'{base}.{d}.{olab}'
                if hasmin:
                    su.case(tag + '.below', f'{d} of a {base} shorter than its minimum', d, mk('below'), 'reject')
                    su.case(tag + '.eqmin', f'{d} of a {base} of exactly its minimum length', d, mk('eqmin'), 'accept')
                su.case(tag + '.above', f'{d} of a {base} longer than its maximum ({olab})', d, mk('above'), 'reject')
                su.case(tag + '.eqmax', f'{d} of a {base} of exactly its maximum length ({olab})', d, mk('eqmax'),
                        'accept')
                su.case(tag + '.inside', f'{d} of a {base} inside its length range', d, mk('inside'), 'accept')
    P, V = S('P', 'str'), S('V', 'str')
    for d in ('encode', 'decode'):
        for extra, lab in (([], ''), ([opt_str('{', S('LO', 'int')), opt_str('}', S('HI', 'int'))], '+size')):
            def mk(match, extra=extra):
                def build(sc):
                    sc.lt(C(0), ('app', 'len', (P,), 'int'))
                    sc.eq(('app', 'charat', (P, C(0)), 'str'), C('$'), False)
                    L = ('app', 'len', (V,), 'int')
                    LO, HI = S('LO', 'int'), S('HI', 'int')
                    if extra:
                        sc.lt(LO, C(0), False)
                        sc.lt(C(0), HI)
                        sc.lt(L, LO, False)
                        sc.lt(HI, L, False)
                    else:
                        sc.lt(L, C(256))
                    sc.match(P, V, match)
                    return sc.schema('String', [('cat', (C('%'), P))] + extra), V
                return build
            su.case(f'String.{d}.pattern{lab}.mismatch', f'{d} of a String that does not match its pattern', d,
                    mk(False), 'reject')
            su.case(f'String.{d}.pattern{lab}.match', f'{d} of a String that matches its pattern', d, mk(True), 'accept')
    # a pattern taken from the package configuration ('$NAME')
    for d in ('encode', 'decode'):
        def mk(match):
            def build(sc):
                sc.lt(('app', 'len', (V,), 'int'), C(256))
                sc.match(P, V, match)
                sch = sc.schema('String', [C('%$TypeName')])
                o = sc.st.heap[sch[1]]
                info = sc.dct((C('package'), S('PKG', 'str')), (C('config'), sc.dct((C('$TypeName'), P))))
                sc.st.heap[sch[1]] = ('dict', o[1] + ((C('info'), info, ONE),))
                return sch, V
            return build
        su.case(f'String.{d}.pattern-config.mismatch', f'{d} of a String that does not match its configured pattern', d,
                mk(False), 'reject')
        su.case(f'String.{d}.pattern-config.match', f'{d} of a String that matches its configured pattern', d, mk(True),
                'accept')


def typeref(su):
    """the library type TypeRef takes its pattern from the namespace id and type name of the configuration"""
    confs = {'default': None, 'config': {'$NSID': '^[a-z]{2}$', '$TypeName': '^T[0-9]+$'}, 'plain': {'$NSID': 'n[0-9]', '$TypeName': 'Ty'}}
    texts = {'default': {'Ab-c': True, 'ns:Ab': True, '$Ab': True, 'ab': False, 'ns:ab': False, ':Ab': None, 'ns:': False, 'a b:Ab': False, 'ns:Ab:Ab': False, 'Ab ': False, 'String': True},
             'config': {'T1': True, 'ab:T20': True, 'abc:T1': False, 'T': False, 'a:T1': False, 'ab:T1x': False, 'abT1': False, 'T1:ab': False, 'ab:ab:T1': False},
             'plain': {'Ty': True, 'n1:Ty': True, 'n:Ty': False, 'n1Ty': False, 'n1:': False, 'n1:T': False}}
    for c, conf in confs.items():
        for t, good in texts[c].items():
            if good is None:
                continue
            for d in ('encode', 'decode'):
                def build(sc, conf=conf, t=t):
                    sc.nested = lambda dd, ty, v, st: 'real'
                    sch = sc.schema('ArrayOf', [C('*TypeRef')], [], [sc.lst(C('TypeRef'), C('String'), sc.lst(), C(''), sc.lst())])
                    o = sc.st.heap[sch[1]]
                    if conf:
                        info = sc.dct((C('package'), S('PKG', 'str')), (C('config'), sc.dct(*[(C(k), C(v)) for k, v in conf.items()])))
                        sc.st.heap[sch[1]] = ('dict', ((C('info'), info, ONE),) + o[1])
                    return sch, sc.lst(C(t))
                su.case(f'TypeRef.{d}.{c}.{t}', f'{d} of {t!r} as a TypeRef ({c} patterns)', d, build, 'accept' if good else 'reject')


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    cases(su)
    typeref(su)
