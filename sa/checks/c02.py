"""C02: semantic formats are enforced when encoding and when decoding."""
from suite import *     # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Scenario analysis: for every format keyword the package registers as validated or serialised, a value outside '
        'the format (length, numeric range, text the named validator refuses, non-text serialisation) must have no '
        'normal exit state in either direction, and a value inside must have no exception exit. Library validators '
        '(jsonschema, ipaddress, base64, datetime, re) are abstracted to an uninterpreted verdict on the value they are '
        'given.')
DEC = S('DEC', 'bytes')
V = S('V', 'str')


def lenof(t):
    return ('app', 'len', (t,), 'int')


def re_verdict(sc, yes):
    """every regular-expression test on text derived from the value gives this verdict"""
    old = sc.oracle

    def oracle(atom, st, I):
        if atom[0] == 'truthy' and atom[1][0] == 'app' and atom[1][1] in ('re.match', 're.fullmatch', 're.search'):
            if any(x in (V, DEC, S('B', 'bytes')) for x in subterms(atom[1])):
                return yes
        return old(atom, st, I)
    sc.oracle = oracle


def end_anchor(pat, flags=0):
    """how a regular expression ties its match to the end of the text: 'none', 'dollar' (before a final newline), 'end'"""
    import re._constants as k
    import re._parser as p
    order = ['none', 'dollar', 'end']

    def seq(items):
        items = list(items)
        if not items:
            return 'none'
        op, av = items[-1]
        if op is k.AT:
            return {k.AT_END: 'dollar', k.AT_END_STRING: 'end'}.get(av, 'none')
        if op is k.SUBPATTERN:
            return seq(av[-1])
        if op is k.BRANCH:
            return min((seq(b) for b in av[1]), key=order.index)
        return 'none'
    try:
        return seq(p.parse(pat, flags))
    except Exception:
        return None


def tail_verdict(sc, newline):
    """text = a valid value followed by further characters (or one final newline)"""
    old = sc.oracle

    def oracle(atom, st, I):
        if atom[0] == 'truthy' and atom[1][0] == 'app' and atom[1][1] in ('re.match', 're.fullmatch', 're.search'):
            if any(x == V for x in subterms(atom[1])):
                if atom[1][1] == 're.fullmatch':
                    return False
                pat = atom[1][2][0]
                a = end_anchor(pat[2]) if pat[0] == 'c' and isinstance(pat[2], str) else None
                if a is None:
                    st.lose('regular expression not constant')
                    return None
                return a == 'none' or (newline and a == 'dollar')
        return old(atom, st, I)
    sc.oracle = oracle


def js_verdict(sc, yes, fmt=None):
    old = sc.oracle

    def oracle(atom, st, I):
        if atom[0] == 'truthy' and atom[1][0] == 'app' and atom[1][1] == '!jsonschema':
            inst, sch, fc = atom[1][2]
            if yes:
                return True
            if inst == V and fc == TRUE and ('tup', (C('format'), C(fmt))) in sch[1]:
                return False
            return True
        return old(atom, st, I)
    sc.oracle = oracle


def short(sc, v=V, top=200):
    sc.lt(lenof(v), C(top))
    sc.lt(C(0), lenof(v))


def addr_model(sc, ok, packed=DEC):
    def m(I, st, args, kwargs, node):
        a = args[0] if args else NONE
        k = I.kind(a, st)
        if k in ('int', 'bool', 'bytes') and ok != 'encode':
            return [(st, ('app', '!addr', (a,), '@addr'), None)]
        if k in ('list', 'dict', 'NoneType', 'float') or ok is False:
            return [(st, None, I.exc('ipaddress.AddressValueError'))]
        return [(st, ('app', '!addr', (a,), '@addr'), None)]
    for fam in ('4', '6'):
        sc.models[f'ipaddress.IPv{fam}Address'] = m

    class RW(dict):
        def __contains__(self, key):
            return key[0] == 'attr' and key[1][0] == 'app' and key[1][1] == '!addr' and key[2] in (
                'packed', 'compressed', 'exploded')

        def __getitem__(self, key):
            return packed if key[2] == 'packed' else ('app', '!text', (key[1],), 'str')

        def get(self, key, d=None):
            return self[key] if key in self else d
    sc.rewrite = RW()
    sc.models['socket.inet_aton'] = lambda I, st, a, k, n: [(st, packed, None)] if ok else \
        [(st, None, I.exc('OSError'))]


def hex_model(sc, ok):
    def m(I, st, args, kwargs, node):
        if ok:
            return [(st, DEC, None)]
        return [(st, None, I.exc('binascii.Error'))]
    for n in ('base64.b16decode', 'base64.b64decode', 'base64.urlsafe_b64decode', 'binascii.unhexlify',
              'binascii.a2b_base64', 'binascii.a2b_hex'):
        sc.models[n] = m
    sc.models['bytes.fromhex'] = lambda I, st, a, k, n: [(st, DEC, None)] if ok else [(st, None, I.exc('ValueError'))]


def width(pattern):
    import re._parser as p
    return p.parse(pattern).getwidth()[0]


def strict_base64(sc):
    """text with data after its padding: the library drops that data unless it is told to validate"""
    def strict(args, kwargs, pos):
        v = kwargs.get('validate', args[pos] if len(args) > pos else C(False))
        return v == TRUE

    def m(pos):
        def f(I, st, args, kwargs, node):
            kw = dict(kwargs) if not isinstance(kwargs, dict) else kwargs
            return [(st, None, I.exc('binascii.Error'))] if strict(args, kw, pos) else [(st, DEC, None)]
        return f
    hex_model(sc, True)
    sc.models['base64.b64decode'] = m(2)
    sc.models['binascii.a2b_base64'] = lambda I, st, a, k, n: [(st, None, I.exc('binascii.Error'))] \
        if dict(k).get('strict_mode') == TRUE else [(st, DEC, None)]


def keyword_table(I, name):
    from suite import Anchor
    v = I.modattr('jadn.definitions', name)
    st = I.new_state()
    if v[0] != 'ref' or st.heap[v[1]][0] != 'dict':
        raise Anchor(f'jadn.definitions.{name}')
    return {k[2]: e[2] for k, e, n in st.heap[v[1]][1] if k[0] == 'c' and e[0] == 'c'}


def cases(su):
    I = su.I
    js = keyword_table(I, 'FORMAT_JS_VALIDATE')
    val = keyword_table(I, 'FORMAT_VALIDATE')
    ser = keyword_table(I, 'FORMAT_SERIALIZE')
    both = ('encode', 'decode')
    # ---- text formats checked by jsonschema
    for fmt in js:
        for d in both:
            def mk(yes, fmt=fmt):
                def build(sc):
                    short(sc)
                    js_verdict(sc, yes, fmt)
                    return sc.schema('String', [C('/' + fmt)]), V
                return build
            su.case(f'{fmt}.{d}.invalid', f'{d} of text that is not a valid {fmt}', d, mk(False), 'reject')
            su.case(f'{fmt}.{d}.valid', f'{d} of a valid {fmt}', d, mk(True), 'accept')
    for fmt in ('email', 'hostname'):
        if fmt not in val:
            continue
        for d in both:
            def mk(yes, fmt=fmt, long=False):
                def build(sc):
                    if long:
                        sc.lt(lenof(V), C(256))
                        sc.lt(C(253), lenof(V))
                    else:
                        short(sc)
                    re_verdict(sc, yes)
                    return sc.schema('String', [C('/' + fmt)]), V
                return build
            su.case(f'{fmt}.{d}.invalid', f'{d} of text that is not a valid {fmt}', d, mk(False), 'reject')
            su.case(f'{fmt}.{d}.valid', f'{d} of a valid {fmt}', d, mk(True), 'accept')
            for nl in (False, True):
                def tail(sc, fmt=fmt, nl=nl):
                    short(sc)
                    tail_verdict(sc, nl)
                    return sc.schema('String', [C('/' + fmt)]), V
                su.case(f'{fmt}.{d}.trailing-{"newline" if nl else "text"}',
                        f'{d} of a valid {fmt} followed by {"a newline" if nl else "other text"}', d, tail, 'reject')
            if fmt == 'hostname':
                su.case(f'{fmt}.{d}.long', f'{d} of a host name longer than 253 characters', d, mk(True, long=True),
                        'reject')
    text_shapes(su, val)
    # ---- integers
    for fmt, bits in (('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64)):
        lo, hi = C(-2 ** (bits - 1)), C(2 ** (bits - 1) - 1)
        n = S('N', 'int')
        for d in both:
            def mk(rel, fmt=fmt, lo=lo, hi=hi):
                def build(sc):
                    if rel == 'below':
                        sc.lt(n, lo)
                    elif rel == 'above':
                        sc.lt(hi, n)
                    elif rel == 'just-below':
                        return sc.schema('Integer', [C('/' + fmt)]), self_eq(sc, C(lo[2] - 1))
                    elif rel == 'just-above':
                        return sc.schema('Integer', [C('/' + fmt)]), self_eq(sc, C(hi[2] + 1))
                    else:
                        sc.lt(n, lo, False)
                        sc.lt(hi, n, False)
                    return sc.schema('Integer', [C('/' + fmt)]), n
                return build

            def self_eq(sc, c):
                sc.lt(n, c, False)
                sc.lt(c, n, False)
                return n
            su.case(f'{fmt}.{d}.below', f'{d} of an integer below the {fmt} range', d, mk('below'), 'reject')
            su.case(f'{fmt}.{d}.above', f'{d} of an integer above the {fmt} range', d, mk('above'), 'reject')
            su.case(f'{fmt}.{d}.just-below', f'{d} of the integer just below the {fmt} range', d, mk('just-below'),
                    'reject')
            su.case(f'{fmt}.{d}.just-above', f'{d} of the integer just above the {fmt} range', d, mk('just-above'),
                    'reject')
            su.case(f'{fmt}.{d}.inside', f'{d} of an integer inside the {fmt} range', d, mk('inside'), 'accept')
            # together with a declared range: both hold
            LO = S('LO', 'int')

            def comb(which, fmt=fmt, lo=lo, hi=hi):
                def build(sc):
                    if which == 'format':
                        sc.lt(hi, n)
                        sc.lt(n, LO, False)
                    else:
                        sc.lt(n, hi)
                        sc.lt(lo, n)
                        sc.lt(n, LO)
                    return sc.schema('Integer', [opt_str('{', LO), C('/' + fmt)]), n
                return build
            su.case(f'{fmt}.{d}.minimum+format', f'{d} of an integer outside {fmt} but above the declared minimum', d,
                    comb('format'), 'reject')
            su.case(f'{fmt}.{d}.format+minimum', f'{d} of an {fmt} integer below the declared minimum', d,
                    comb('range'), 'reject')
    # ---- binary formats with a fixed size
    sizes = {'eui': (6, 8), 'uuid': (16,), 'ipv4-addr': (4,), 'ipv6-addr': (16,)}
    B = S('B', 'bytes')
    for fmt, ok in sizes.items():
        def size_facts(sc, t, rel, ok=ok):
            L = lenof(t)
            if rel == 'short':
                sc.lt(L, C(min(ok)))
            elif rel == 'long':
                sc.lt(C(max(ok)), L)
                sc.lt(L, C(200))
            elif rel == 'between':
                sc.lt(C(min(ok)), L)
                sc.lt(L, C(max(ok)))
            else:
                sc.lt(L, C(rel), False)
                sc.lt(C(rel), L, False)
        rels = ['short', 'long'] + (['between'] if len(ok) > 1 else [])

        def enc(rel, fmt=fmt, size_facts=size_facts):
            def build(sc):
                size_facts(sc, B, rel)
                addr_model(sc, 'encode')
                re_verdict(sc, True)
                return sc.schema('Binary', [C('/' + fmt)]), B
            return build

        def dec(rel, fmt=fmt, size_facts=size_facts, valid=True):
            def build(sc):
                size_facts(sc, DEC, rel)
                sc.lt(C(0), lenof(V))
                addr_model(sc, valid)
                hex_model(sc, valid)
                re_verdict(sc, valid)
                return sc.schema('Binary', [C('/' + fmt)]), V
            return build
        for rel in rels:
            su.case(f'{fmt}.encode.{rel}', f'encode of a byte string of the wrong length as {fmt}', 'encode', enc(rel),
                    'reject')
            if fmt == 'eui':
                su.case(f'{fmt}.decode.{rel}', f'decode of an {fmt} of the wrong length', 'decode', dec(rel), 'reject')
        for rel in ok:
            su.case(f'{fmt}.encode.{rel}', f'encode of {rel} bytes as {fmt}', 'encode', enc(rel), 'accept')
            su.case(f'{fmt}.decode.{rel}', f'decode of a valid {fmt}', 'decode', dec(rel), 'accept')
        su.case(f'{fmt}.decode.invalid', f'decode of text that is not an {fmt}', 'decode', dec(ok[0], valid=False),
                'reject')
    for fmt in ('b', 'x', 'X'):
        def dec(valid, fmt=fmt):
            def build(sc):
                sc.lt(C(0), lenof(V))
                sc.lt(lenof(V), C(100))
                sc.lt(lenof(DEC), C(100))
                sc.clean_alphabet(V)
                hex_model(sc, valid)
                return sc.schema('Binary', [C('/' + fmt)]), V
            return build
        su.case(f'{fmt}.decode.invalid', f'decode of text that is not in encoding {fmt}', 'decode', dec(False), 'reject')
        if fmt == 'b':
            for n, pat in (('padded', '[A-Za-z0-9_-]{6}=='), ('padded-1', '[A-Za-z0-9_-]{7}='), ('plain', '[A-Za-z0-9_-]{8}'),
                           ('unpadded', '[A-Za-z0-9_-]{6}'), ('unpadded-1', '[A-Za-z0-9_-]{7}')):
                def good(sc, pat=pat):
                    v = sc.text('SV', pat)
                    sc.lt(lenof(DEC), C(100))
                    sc.clean_alphabet(v)
                    sc.rewrite = {lenof(v): C(width(pat))}
                    hex_model(sc, True)
                    return sc.schema('Binary', [C('/b')]), v
                su.case(f'b.decode.valid.{n}', f'decode of base64url text ({n})', 'decode', good, 'accept')
            for n, pat in (('2', '[A-Za-z0-9_-]{2}==[A-Za-z0-9_-]{2}=='), ('3', '[A-Za-z0-9_-]{3}=[A-Za-z0-9_-]{4}'),
                           ('short', '[A-Za-z0-9_-]{2}==[A-Za-z0-9_-]{2}')):
                def padded(sc, pat=pat):
                    v = sc.text('SV', pat)
                    sc.clean_alphabet(v)
                    strict_base64(sc)
                    return sc.schema('Binary', [C('/b')]), v
                su.case(f'b.decode.after-padding.{n}', 'decode of base64 text that goes on after its padding', 'decode', padded, 'reject')
        if fmt != 'b':
            su.case(f'{fmt}.decode.valid', f'decode of text in encoding {fmt}', 'decode', dec(True), 'accept')
    # ---- serialised formats: anything but text is refused when decoding
    for fmt, base in ser.items():
        if base not in ('Binary', 'Array') and fmt != 'datetime-ms':
            continue
        for k in ('int', 'float', 'bool', 'list', 'dict', 'NoneType'):
            def nontext(sc, k=k, fmt=fmt, base=base):
                v = NONE if k == 'NoneType' else sc.lst(S('E1'), S('E2')) if k == 'list' else \
                    sc.dct((S('K'), S('E1'))) if k == 'dict' else S('V', k)
                addr_model(sc, True)
                hex_model(sc, True)
                fl = array_fields(sc, fmt) if base == 'Array' else []
                return sc.schema(base, [C('/' + fmt)], fl), v
            su.case(f'{fmt}.decode.nontext.{k}', f'decode of a {k} value as {fmt}', 'decode', nontext, 'reject')
    # ---- address + prefix length
    for fmt, size, top in (('ipv4-net', 4, 32), ('ipv6-net', 16, 128)):
        A, P = S('A', 'bytes'), S('P', 'int')

        def net(rel, fmt=fmt, size=size, top=top):
            def build(sc):
                addr_model(sc, 'encode')
                sc.nested = net_nested
                la = lenof(A)
                sc.lt(la, C(size), rel == 'addr-short')
                sc.lt(C(size), la, rel == 'addr-long')
                if rel == 'neg':
                    sc.lt(P, C(0))
                elif rel == 'big':
                    sc.lt(C(top), P)
                else:
                    sc.lt(P, C(0), False)
                    sc.lt(C(top), P, False)
                if rel == 'one':
                    v = sc.lst(A)
                elif rel == 'three':
                    v = sc.lst(A, P, P)
                elif rel == 'swapped':
                    v = sc.lst(P, A)
                elif rel == 'text':
                    v = sc.lst(S('T', 'str'), P)
                else:
                    v = sc.lst(A, P)
                return sc.schema('Array', [C('/' + fmt)], array_fields(sc, fmt)), v
            return build
        for rel in ('addr-short', 'addr-long', 'neg', 'big', 'one', 'three', 'swapped', 'text'):
            su.case(f'{fmt}.encode.{rel}', f'encode of an {fmt} with a bad part ({rel})', 'encode', net(rel), 'reject')
        su.case(f'{fmt}.encode.ok', f'encode of a valid {fmt}', 'encode', net('ok'), 'accept')

        def dnet(rel, fmt=fmt, size=size, top=top):
            def build(sc):
                addr_model(sc, rel != 'badaddr')
                sc.lt(lenof(DEC), C(size), False)
                sc.lt(C(size), lenof(DEC), False)
                PX = ('app', 'int', (S('PT', 'str'),), 'int')
                # text is "ADDR/PT"; int(PT) = the prefix length
                sc.text('PT', PREFIX[rel] if rel in PREFIX else r'0|[1-9][0-9]{0,9}')
                if rel == 'neg':
                    sc.lt(PX, C(0))
                elif rel == 'big':
                    sc.lt(C(top), PX)
                else:
                    sc.lt(PX, C(0), False)
                    sc.lt(C(top), PX, False)
                sc.split_clean = True
                sc.nested = net_nested
                text = ('cat', (S('AT', 'str'), C('/'), S('PT', 'str')))
                return sc.schema('Array', [C('/' + fmt)], array_fields(sc, fmt)), text
            return build
        for rel in ['badaddr', 'big'] + list(PREFIX):
            su.case(f'{fmt}.decode.{rel}', f'decode of an {fmt} with a bad part ({rel})', 'decode', dnet(rel), 'reject')
        su.case(f'{fmt}.decode.ok', f'decode of a valid {fmt}', 'decode', dnet('ok'), 'accept')
        # the address field itself is of the address type, as in the library types of JADN
        afmt = fmt.replace('net', 'addr')
        for how in ('type',):
            def typed(direction, ok, fmt=fmt, afmt=afmt, size=size, how=how, top=top):
                def build(sc):
                    addr_model(sc, ('encode' if direction == 'encode' else True) if ok else False)
                    sc.lt(lenof(DEC), C(size), False)
                    sc.lt(C(size), lenof(DEC), False)
                    sc.lt(lenof(A), C(size), False)
                    sc.lt(C(size), lenof(A), False)
                    sc.text('PT', '0|[1-9][0-9]{0,9}')
                    for px in (('app', 'int', (S('PT', 'str'),), 'int'), P):
                        sc.lt(px, C(0), False)
                        sc.lt(C(top), px, False)
                    sc.split_clean = True
                    sc.nested = lambda dd, ty, v, st: 'real'
                    opts = [C('/' + afmt)]
                    fl = [sc.field(C(1), C('addr'), C('Binary'), opts) if how == 'field' else sc.field(C(1), C('addr'), C('Addr')), sc.field(C(2), C('prefix'), C('Integer'), [C('[0')])]
                    extra = [sc.lst(C('Addr'), C('Binary'), sc.lst(*opts), C(''), sc.lst())] if how == 'type' else []
                    v = sc.lst(A, P) if direction == 'encode' else ('cat', (S('AT', 'str'), C('/'), S('PT', 'str')))
                    return sc.schema('Array', [C('/' + fmt)], fl, extra), v
                return build
            for direction in ('encode', 'decode'):
                su.case(f'{fmt}.{direction}.typed.{how}', f'{direction} of a valid {fmt} whose address is a {afmt} by its {how}', direction, typed(direction, True), 'accept')
            su.case(f'{fmt}.decode.typed.{how}.bad', f'decode of an {fmt} with a bad address whose address is a {afmt} by its {how}', 'decode', typed('decode', False), 'reject')
    # ---- tagged UUID
    T, U = S('T', 'str'), S('U', 'bytes')

    def tag(rel):
        def build(sc):
            L = lenof(U)
            sc.lt(L, C(16), rel == 'short')
            sc.lt(C(16), L, rel == 'long')
            v = {'swapped': lambda: sc.lst(U, T), 'one': lambda: sc.lst(T), 'three': lambda: sc.lst(T, U, U)}.get(
                rel, lambda: sc.lst(T, U))()
            sc.nested = lambda dd, ty, v, st: S('TEXT' + show(v), 'str')
            return sc.schema('Array', [C('/tag-uuid')], array_fields(sc, 'tag-uuid')), v
        return build
    if 'tag-uuid' in val:
        for rel in ('short', 'long', 'swapped', 'one', 'three'):
            su.case(f'tag-uuid.encode.{rel}', f'encode of a tagged UUID with a bad part ({rel})', 'encode', tag(rel),
                    'reject')
        su.case('tag-uuid.encode.ok', 'encode of a valid tagged UUID', 'encode', tag('ok'), 'accept')
    # ---- date-time in milliseconds
    n = S('N', 'int')

    def dt(ok, d, offset=True):
        def build(sc):
            M = S('MOMENT', '@datetime')
            sc.rewrite = {('attr', M, 'tzinfo'): S('TZ', '@tz') if offset else NONE,
                          ('app', 'datetime.utcoffset', (M,), 'any'): S('OFF', '@td') if offset else NONE}
            sc.truth['none', S('TZ', '@tz')] = False
            sc.truth['truthy', S('TZ', '@tz')] = True
            sc.models['datetime.datetime.utcoffset'] = lambda I, st, a, k, nd: [(st, S('OFF', '@td') if offset else NONE, None)]
            sc.truth['none', S('OFF', '@td')] = False

            def m(I, st, args, kwargs, node):
                return [(st, S('MOMENT', '@datetime'), None)] if ok else [(st, None, I.exc('ValueError'))]
            sc.models['datetime.datetime.fromisoformat'] = m
            sc.models['datetime.datetime.strptime'] = m
            sc.models['datetime.datetime.fromtimestamp'] = m
            sc.models['datetime.datetime.utcfromtimestamp'] = m
            sc.models['datetime.datetime.timestamp'] = lambda I, st, a, k, nd: [(st, S('SECS', 'float'), None)]
            sc.models['datetime.datetime.isoformat'] = lambda I, st, a, k, nd: [(st, S('ISO', 'str'), None)]
            re_verdict(sc, False)
            return sc.schema('Integer', [C('/datetime-ms')]), (n if d == 'encode' else V)
        return build
    for d in both:
        su.case(f'datetime-ms.{d}.invalid', f'{d} of a value that is no date-time', d, dt(False, d), 'reject')
        su.case(f'datetime-ms.{d}.valid', f'{d} of a date-time', d, dt(True, d), 'accept', result=exact_ms)
    su.case('datetime-ms.decode.local', 'decode of a date-time without a UTC offset, which is no RFC 3339 date-time', 'decode',
            dt(True, 'decode', offset=False), 'reject')
    for k in ('str', 'float', 'bool', 'bytes', 'NoneType', 'list'):
        su.case(f'datetime-ms.encode.kind.{k}', f'encode of a {k} value as datetime-ms', 'encode',
                lambda sc, k=k: (sc.schema('Integer', [C('/datetime-ms')]), NONE if k == 'NoneType' else S('W', k)),
                'reject')


PREFIX = {
    'neg': '-[1-9][0-9]{0,3}', 'minus-zero': '-0', 'plus': r'\+[0-9]{1,3}', 'blank': r'[ \t\n][0-9]{1,3}',
    'final-blank': r'[0-9]{1,3}[ \t\n]', 'underscore': '[1-9]_[0-9]', 'not-ascii': '[\u0661-\u0669][\u0660-\u0669]?',
    'letters': '[a-z]{1,4}', 'empty': '', 'fraction': r'[0-9]{1,2}\.[0-9]{1,2}', 'hex': '0x[0-9a-f]{1,2}',
}
HEX = '[0-9a-fA-F]'
UUID_OK = f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}'
UUID_BAD = {
    'variant-ncs': f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[0-7]{HEX}{{3}}-{HEX}{{12}}',
    'variant-ms': f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[c-fC-F]{HEX}{{3}}-{HEX}{{12}}',
    'version-0': f'{HEX}{{8}}-{HEX}{{4}}-0{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}',
    'version-high': f'{HEX}{{8}}-{HEX}{{4}}-[9a-fA-F]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}',
    'no-hyphens': f'{HEX}{{12}}[1-5]{HEX}{{3}}[89abAB]{HEX}{{15}}',
    'moved-hyphen': f'{HEX}{{4}}-{HEX}{{8}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}',
    'short': f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{0,11}}',
    'long': f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{13,40}}',
    'not-hex': f'[g-zG-Z]{HEX}{{7}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}',
    'not-hex-last': f'{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{11}}[g-zG-Z]',
    'braces': f'[{{]{HEX}{{8}}-{HEX}{{4}}-[1-5]{HEX}{{3}}-[89abAB]{HEX}{{3}}-{HEX}{{12}}[}}]',
    'leading-space': f'[ ]{UUID_OK}',
}
LABEL = '[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?'
LABEL_BAD = {
    'leading-hyphen': '-[a-zA-Z0-9-]{0,20}',
    'trailing-hyphen': '[a-zA-Z0-9-]{0,20}-',
    'empty': '',
    'too-long': '[a-zA-Z0-9]{64,100}',
    'underscore': '[a-z]{0,9}_[a-z]{0,9}',
    'space': '[a-z]{0,9}[ ][a-z]{0,9}',
    'newline': '[a-z]{1,9}\\n',
    'punctuation': '[a-z]{0,9}[!-,/:-@\\[-`{-~][a-z]{0,9}',
    'non-ascii-letter': '[a-z]{0,9}[\u00e0-\u017f][a-z]{0,9}',
    'non-ascii-digit': '[a-z]{0,9}[\u0660-\u0669][a-z]{0,9}',
}
ATEXT = "[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]"
EMAIL_OK = {
    'dot-atom': f'{ATEXT}{{1,20}}@(?:[a-z0-9]{{1,9}}\\.){{1,3}}[a-z]{{2,9}}',
    'dotted': f'{ATEXT}{{1,9}}(?:\\.{ATEXT}{{1,9}}){{1,3}}@(?:[a-z0-9]{{1,9}}\\.){{1,3}}[a-z]{{2,9}}',
    'upper-case-local': '[A-Z]{1,9}@(?:[a-z0-9]{1,9}\\.){1,3}[a-z]{2,9}',
    'upper-case-domain': '[a-z]{1,9}@(?:[A-Z0-9]{1,9}\\.){1,3}[A-Z]{2,9}',
    'hyphen-domain': '[a-z]{1,9}@[a-z]{1,9}-[a-z]{1,9}\\.[a-z]{2,9}',
}
EMAIL_BAD = {
    'no-at': '[^@]{1,60}',
    'empty-local': '@[a-z0-9.]{1,40}',
    'empty-domain': '[a-z0-9.]{1,40}@',
    'space-in-local': '[a-z]{1,9}[ ][a-z]{1,9}@[a-z]{1,9}\\.[a-z]{2,9}',
    'leading-dot': '\\.[a-z]{1,9}@[a-z]{1,9}\\.[a-z]{2,9}',
    'trailing-dot': '[a-z]{1,9}\\.@[a-z]{1,9}\\.[a-z]{2,9}',
    'double-dot': '[a-z]{1,9}\\.\\.[a-z]{1,9}@[a-z]{1,9}\\.[a-z]{2,9}',
    'two-ats': '[a-z]{1,9}@[a-z]{1,9}@[a-z]{1,9}\\.[a-z]{2,9}',
    'domain-hyphen-first': '[a-z]{1,9}@-[a-z]{1,9}\\.[a-z]{2,9}',
    'domain-hyphen-last': '[a-z]{1,9}@[a-z]{1,9}-\\.[a-z]{2,9}',
    'domain-double-dot': '[a-z]{1,9}@[a-z]{1,9}\\.\\.[a-z]{2,9}',
    'domain-underscore': '[a-z]{1,9}@[a-z]{1,9}_[a-z]{1,9}\\.[a-z]{2,9}',
    'comma': '[a-z]{1,9},[a-z]{1,9}@[a-z]{1,9}\\.[a-z]{2,9}',
    'local-non-ascii': '[\u0131\u017f\u00e0-\u00f6]@[a-z]{1,9}\\.[a-z]{2,9}',
    'domain-non-ascii': '[a-z]{1,9}@[\u0131\u017f\u00e0-\u00f6]{1,9}\\.[a-z]{2,9}',
    'bad-octet': '[a-z]{1,9}@\\[(?:25[6-9]|2[6-9][0-9]|[3-9][0-9][0-9])\\.1\\.1\\.1\\]',
}


def text_shapes(su, val):
    """formats whose check is written in this package as a regular expression: the texts of a declared language"""
    both = ('encode', 'decode')

    def uuid(pat, ok):
        def build(sc):
            v = sc.text('SV', pat)
            sc.lt(lenof(DEC), C(16), False)
            sc.lt(C(16), lenof(DEC), False)
            hex_model(sc, True)
            return sc.schema('Binary', [C('/uuid')]), v
        return build
    su.case('uuid.decode.text.valid', 'decode of a text UUID (versions 1 to 5, RFC 4122 variant)', 'decode',
            uuid(UUID_OK, True), 'accept')
    for n, pat in UUID_BAD.items():
        su.case(f'uuid.decode.text.{n}', f'decode of text that is no RFC 4122 UUID ({n})', 'decode', uuid(pat, False),
                'reject')
    for d in both:
        def host(pats, dot=False):
            def build(sc):
                parts = []
                for i, p in enumerate(pats):
                    if i:
                        parts.append(C('.'))
                    if p == '':
                        continue
                    parts.append(sc.text(f'LABEL{i}', p) if not p.isalpha() else C(p))
                if dot:
                    parts.append(C('.'))
                sc.split_clean = True
                v = ('cat', tuple(parts)) if len(parts) > 1 else parts[0]
                sc.lt(lenof(v), C(250))
                return sc.schema('String', [C('/hostname')]), v
            return build
        if 'hostname' in val:
            su.case(f'hostname.{d}.text.one', f'{d} of a host name with one label', d, host([LABEL]), 'accept')
            su.case(f'hostname.{d}.text.two', f'{d} of a host name with two labels', d, host([LABEL, LABEL]), 'accept')
            su.case(f'hostname.{d}.text.dot', f'{d} of a host name with a final dot', d, host([LABEL, LABEL], True),
                    'accept')
            for n, pat in LABEL_BAD.items():
                for pos, pats in (('first', [pat, LABEL]), ('last', [LABEL, pat]), ('only', [pat])):
                    if n == 'empty' and pos != 'first':
                        continue
                    su.case(f'hostname.{d}.text.{n}.{pos}', f'{d} of a host name with a bad label ({n}, {pos})', d,
                            host(pats), 'reject')
        if 'email' in val:
            def mail(pat):
                return lambda sc: (sc.schema('String', [C('/email')]), sc.text('MAIL', pat))
            for n, pat in EMAIL_OK.items():
                su.case(f'email.{d}.text.{n}', f'{d} of a valid email address ({n})', d, mail(pat), 'accept')
            for n, pat in EMAIL_BAD.items():
                su.case(f'email.{d}.text.{n}', f'{d} of text that is no email address ({n})', d, mail(pat), 'reject')


def exact_ms(o, *a):
    """milliseconds are not obtained by cutting off the fraction of a float"""
    if o.val is None:
        return None
    for t in subterms(o.val):
        if t[0] == 'app' and t[1] in ('int', 'math.floor', 'math.trunc') and len(t[2]) == 1:
            x = t[2][0]
            frac = any(y[0] == 'c' and y[1] == 'float' for y in subterms(x)) or (
                x[0] == 'lin' and isinstance(x[2], float))
            if not frac and (x[0] == 'lin' and any(y == S('SECS', 'float') for y, _ in x[1]) or
                             x[0] == 'app' and x[1] in ('Mult', 'Div') and S('SECS', 'float') in x[2]):
                return 'milliseconds come from a truncated float'
    return None


def net_nested(d, typ, v, st):
    """fields of an address/prefix array use plain built-in types: nested codec returns the value it is given"""
    return v if v[0] in ('s', 'app', 'lin', 'c') else 'ok'


def array_fields(sc, fmt):
    if fmt == 'tag-uuid':
        return [sc.field(C(1), C('tag'), C('String')), sc.field(C(2), C('uuid'), S('UT', 'str'))]
    return [sc.field(C(1), C('addr'), C('Binary')), sc.field(C(2), C('prefix'), C('Integer'), [C('[0')])]


def run(rep):
    rep.rule = RULE
    su = Suite(rep)
    cases(su)
