"""Abstract schemas for the schema checker: one family per rule, with the numbers and names of the rule left open."""
from opscen import *    # noqa
import extmodels


def install_models(sc):
    """the two validators bundled as data files accept; that they are consulted is recorded"""
    sc.models['jadn.codec:Codec'] = m_metacodec


def m_metacodec(I, st, args, kwargs, node):
    return [(st, extmodels.newobj(st, '!codec', schema=args[0] if args else kwargs.get('schema', NONE)), None)]


def c_encode(I, st, ref, args, kwargs):
    v = args[1] if len(args) > 1 else kwargs.get('aval', NONE)
    st.event('meta', args[0], v)
    return [(st, v, None)]


extmodels.METHODS['!codec'] = {'encode': c_encode, 'decode': c_encode}

N, M, K = S('N', 'int'), S('M', 'int'), S('K', 'int')
X, Y = S('X', 'float'), S('Y', 'float')


def one(*types):
    return {'types': list(types)}


def fld(ftype, *opts, base='Record', more=()):
    """a structured type whose first field is the one of interest"""
    return one(T('R', base, [], D('D1'), [F(1, S('f1', 'str'), ftype, list(opts), D('D2'))] + list(more)))


def less(a, b):
    return lambda sc: sc.lt(a, b)


def atleast(a, b):
    return lambda sc: sc.lt(a, b, False)


def free(sc):
    pass


def opts(ch, x):
    return opt_str(ch, x)


BUILTIN = ['Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf',
           'Record']
FIELDED = ['Choice', 'Array', 'Map', 'Record']
PRIM = BUILTIN[:5]
# options each base type may have, from the JADN specification (and README): written out here, not read from the package
ALLOWED = {
    'Binary': '/{}', 'Boolean': '', 'Integer': '/{}', 'Number': '/yz', 'String': '/%{}', 'Enumerated': '=#>X', 'Choice': '=XC',
    'Array': 'X/{}', 'ArrayOf': '*{}qsb', 'Map': '=X{}o', 'MapOf': '+*{}o', 'Record': 'X{}o',
}
SAMPLE = {'=': '=', '*': '*String', '+': '+String', '#': '#R', '>': '>R', '%': '%^x$', 'y': 'y1.5', 'z': 'z2.5', '{': '{1',
          '}': '}9', 'q': 'q', 's': 's', 'b': 'b', 'o': 'o', 'C': 'CO', 'X': 'X'}
FORMATS = {
    'String': ['date-time', 'date', 'time', 'duration', 'idn-email', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference',
               'iri', 'iri-reference', 'uri-template', 'json-pointer', 'relative-json-pointer', 'regex', 'email', 'hostname'],
    'Binary': ['eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X'],
    'Array': ['tag-uuid', 'ipv4-net', 'ipv6-net'],
    'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'],
    'Number': ['f16', 'f32', 'f64'],
}
NAME = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf', 'z': 'maxf',
        '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence', 'C': 'combine', 'X': 'extend'}


def needs(base):
    return {'ArrayOf': ['*String'], 'MapOf': ['+String', '*String']}.get(base, [])


def fields_of(base):
    return [F(1, S('f1', 'str'), 'String', [], D('D2'))] if base in FIELDED else \
        [[1, S('f1', 'str'), D('D2')]] if base == 'Enumerated' else []


def typ(base, opts_, name='T'):
    return T(name, base, opts_, D('D1'), fields_of(base) if not any(isinstance(o, str) and o[0] in '#>' for o in opts_) else [])


def cases():
    """(key, what, schema, facts, 'reject' | 'accept')"""
    # ---- options of a type and of a field of builtin type
    for where_ in ('type', 'field'):
        def mk(base, o):
            if where_ == 'type':
                return one(typ(base, o))
            return fld(base, *o)
        for base in BUILTIN:
            if where_ == 'field' and base in FIELDED:
                continue                # no fields of an anonymous structured type
            for ch in NAME:
                o = SAMPLE.get(ch, '/x')
                if ch == '/':
                    continue
                opt = needs(base)
                if o[0] not in [x[0] for x in opt]:
                    opt = opt + [o]
                ok = ch in ALLOWED[base]
                if where_ == 'field' and ch == 'q' and base != 'ArrayOf':
                    pass
                yield (f'{where_}.{base}.{NAME[ch]}', f'{base} {where_} with option {NAME[ch]}', mk(base, opt), free,
                       'accept' if ok else 'reject')
            for need in needs(base):
                o = [x for x in needs(base) if x != need]
                yield (f'{where_}.{base}.no-{NAME[need[0]]}', f'{base} {where_} without {NAME[need[0]]}', mk(base, o), free, 'reject')
            for fb, fmts in FORMATS.items():
                for fmt in fmts:
                    if base != fb and fmt not in (fmts[0], fmts[-1]):
                        continue
                    yield (f'{where_}.{base}./{fmt}', f'{base} {where_} with format {fmt}', mk(base, needs(base) + ['/' + fmt]), free,
                           'accept' if base == fb else 'reject')
            if '/' in ALLOWED[base]:
                yield (f'{where_}.{base}./bogus', f'{base} {where_} with an undefined format', mk(base, needs(base) + ['/bogus']), free,
                       'reject')
            if '{' in ALLOWED[base]:
                o = needs(base) + [opts('{', N), opts('}', M)]
                yield (f'{where_}.{base}.range-bad', f'{base} {where_}, maxv < minv', mk(base, o), less(M, N), 'reject')
                yield (f'{where_}.{base}.range-ok', f'{base} {where_}, minv <= maxv', mk(base, o), atleast(M, N), 'accept')
            if 'y' in ALLOWED[base]:
                o = [opts('y', X), opts('z', Y)]
                yield (f'{where_}.{base}.frange-bad', f'{base} {where_}, maxf < minf', mk(base, o), less(Y, X), 'reject')
                yield (f'{where_}.{base}.frange-ok', f'{base} {where_}, minf <= maxf', mk(base, o), atleast(Y, X), 'accept')
        for k, o in (('minv', ['%^x$', opts('{', N)]), ('maxv', ['%^x$', opts('}', M)]), ('both', [opts('{', N), '%^x$', opts('}', M)])):
            yield (f'{where_}.String.pattern-{k}', f'String {where_} with pattern and size', mk('String', o), atleast(M, N), 'reject')
        yield (f'{where_}.unknown-option', f'String {where_} with an undefined option', mk('String', ['?1']), free, 'reject')
    yield ('type.enum-pointer', 'Enumerated derived by both enum and pointer', one(T('E', 'Enumerated', ['#R', '>R'])), free, 'reject')
    yield ('field.enum-pointer', 'Enumerated field derived by both enum and pointer', fld('Enumerated', '#R', '>R'), free, 'reject')
    for ch in ('[', ']', '&', '<', 'K', 'L'):
        yield (f'type.fieldopt-{ord(ch)}', 'field option on a type', one(typ('String', [ch + ('1' if ch in '[]&' else '')])), free, 'reject')
    # ---- names and base types
    a, b, c = S('A', 'str'), S('B', 'str'), S('Cc', 'str')

    def names(eqs):
        def f(sc):
            sc.distinct(a, b, c)
            for n in (a, b, c):
                for w in BUILTIN:
                    sc.eq(n, C(w), False)
        return f
    d = T
    yield ('names.dup', 'two types of the same name', one(d(a, 'String'), d(b, 'Integer'), d(a, 'Record')), names(0), 'reject')
    yield ('names.dup.same', 'two equal type definitions', one(d(a, 'String'), d(a, 'String')), names(0), 'reject')
    yield ('names.ok', 'types of distinct names', one(d(a, 'String'), d(b, 'Integer'), d(c, 'Record')), names(0), 'accept')
    for n in ('Foo', 'FOO', 'foo', 'F-o', '$Foo', 'Foo$x'):
        yield (f'names.dup.{n}', f'two types named {n}', one(d('Bar', 'String'), d(n, 'String'), d('Baz', 'Integer'), d(n, 'Integer')), free, 'reject')
        yield (f'items.dup.{n}', f'two fields named {n}', one(T('R', 'Record', [], '', [F(1, n, 'String'), F(2, 'g', 'Integer'), F(3, n, 'Integer')])), free, 'reject')
    for x, y in (('Foo', 'FOO'), ('F-o', 'F_o'), ('Foo', 'Foo1'), ('Foo', '$Foo'), ('String1', 'Strin'), ('string', 'STRING'), ('record', 'enumerated')):
        yield (f'names.near.{x}.{y}', f'types {x} and {y}', one(d(x, 'String'), d(y, 'String')), free, 'accept')
        for base in ('Map', 'Record'):
            yield (f'fields.near.{base}.{x}.{y}', f'fields {x} and {y}', one(T('R', base, [], '', [F(1, x, 'String'), F(2, y, 'Integer')])), free, 'accept')
        yield (f'items.near.{x}.{y}', f'items {x} and {y}', one(T('E', 'Enumerated', [], '', [[1, x, ''], [2, y, '']])), free, 'accept')
    for w in BUILTIN:
        yield (f'names.reserved.{w}', f'type named {w}', one(d('A', 'String'), d(w, 'String')), free, 'reject')
    yield ('base.unknown', 'base type that is not a builtin type', one(d('A', 'String'), d('B', 'A')), free, 'reject')
    yield ('base.case', 'base type in lower case', one(d('A', 'string')), free, 'reject')
    # ---- fields
    f1, f2, f3 = S('f1', 'str'), S('f2', 'str'), S('f3', 'str')

    def ids(*rel):
        def f(sc):
            sc.distinct(f1, f2, f3)
            sc.distinct(N, M, K)
        return f
    for base in ('Map', 'Choice'):
        def mkf(*fs):
            return one(T('A', base, [], '', [F(i, n, 'String') for i, n in fs]))
        yield (f'fields.{base}.ok', f'{base} with distinct ids and names', mkf((N, f1), (M, f2), (K, f3)), ids(), 'accept')
        for k, fs in (('12', ((N, f1), (N, f2), (K, f3))), ('13', ((N, f1), (M, f2), (N, f3))), ('23', ((N, f1), (M, f2), (M, f3)))):
            yield (f'fields.{base}.dup-id-{k}', f'{base} with a repeated field id', mkf(*fs), ids(), 'reject')
        for k, fs in (('12', ((N, f1), (M, f1), (K, f3))), ('13', ((N, f1), (M, f2), (K, f1))), ('23', ((N, f1), (M, f2), (K, f2)))):
            yield (f'fields.{base}.dup-name-{k}', f'{base} with a repeated field name', mkf(*fs), ids(), 'reject')
    yield ('items.ok', 'Enumerated with distinct ids and names', one(T('E', 'Enumerated', [], '', [[N, f1, ''], [M, f2, ''], [K, f3, '']])),
           ids(), 'accept')
    yield ('items.dup-id', 'Enumerated with a repeated id', one(T('E', 'Enumerated', [], '', [[N, f1, ''], [M, f2, ''], [N, f3, '']])), ids(), 'reject')
    yield ('items.dup-name', 'Enumerated with a repeated name', one(T('E', 'Enumerated', [], '', [[N, f1, ''], [M, f2, ''], [K, f1, '']])), ids(), 'reject')
    for base in ('Array', 'Record'):
        def mko(*fs):
            return one(T('A', base, [], '', [F(i, n, 'String') for i, n in fs]))

        def differs_from(k):
            def f(sc):
                sc.distinct(f1, f2, f3)
                sc.eq(N, C(k), False)
                for j in (1, 2, 3):
                    if j != k:
                        sc.eq(N, C(j), False)
            return f
        yield (f'ordinal.{base}.ok', f'{base} with ids 1..3', mko((1, f1), (2, f2), (3, f3)), ids(), 'accept')
        for k in (1, 2, 3):
            fs = [(1, f1), (2, f2), (3, f3)]
            fs[k - 1] = (N, fs[k - 1][1])
            yield (f'ordinal.{base}.{k}', f'{base} whose field {k} has another id', mko(*fs), differs_from(k), 'reject')
        yield (f'ordinal.{base}.only', f'{base} whose only field has another id than 1', mko((N, f1)), differs_from(1), 'reject')
        yield (f'ordinal.{base}.one', f'{base} with one field', mko((1, f1)), ids(), 'accept')
        yield (f'ordinal.{base}.zero', f'{base} with ids from 0', mko((0, f1), (1, f2)), ids(), 'reject')
        yield (f'ordinal.{base}.gap', f'{base} with ids 1, 3', mko((1, f1), (3, f2)), ids(), 'reject')
        yield (f'ordinal.{base}.repeat', f'{base} with ids 1, 2, 2', mko((1, f1), (2, f2), (2, f3)), ids(), 'reject')
        yield (f'ordinal.{base}.swap', f'{base} with ids out of order', mko((2, f1), (1, f2)), ids(), 'reject')
    for base in FIELDED:
        for t in FIELDED:
            yield (f'anonymous.{base}.{t}', f'{base} field of anonymous type {t}', fld(t, base=base), free, 'reject')
            if base != 'Array':
                yield (f'anonymous.{base}.{t}.later', f'second {base} field of anonymous type {t}',
                       fld('String', base=base, more=[F(2, 'g', t)]), free, 'reject')
        for extra, k in ((['x'], 'long'), (None, 'short')):
            f = F(1, 'f', 'String')
            f = f + extra if extra else f[:4]
            yield (f'length.{base}.{k}', f'{base} field with {len(f)} columns', one(T('A', base, [], '', [f])), free, 'reject')
            yield (f'length.{base}.{k}.later', f'second {base} field with {len(f)} columns',
                   one(T('A', base, [], '', [F(1, 'e', 'String'), [2, 'h'] + f[2:]])), free, 'reject')
    yield ('length.items.long', 'Enumerated item with 4 columns', one(T('E', 'Enumerated', [], '', [[1, 'a', '', ''], [2, 'b', '', '']])), free, 'reject')
    yield ('length.items.short', 'Enumerated item with 2 columns', one(T('E', 'Enumerated', [], '', [[1, 'a'], [2, 'b']])), free, 'reject')
    for base in PRIM + ['ArrayOf', 'MapOf']:
        yield (f'nofields.{base}', f'{base} with fields', one(T('A', base, needs(base), '', [F(1, 'f', 'String')])), free, 'reject')
    for o in ('#R', '>R'):
        yield (f'derived-fields.{NAME[o[0]]}', 'derived Enumerated with items of its own', one(T('E', 'Enumerated', [o], '', [[1, 'a', '']])), free, 'reject')
    # ---- field options
    mult = [opts('[', N), opts(']', M)]
    yield ('mult.min-neg', 'negative minimum multiplicity', fld('String', opts('[', N)), less(N, C(0)), 'reject')
    yield ('mult.max-neg', 'negative maximum multiplicity', fld('String', opts(']', M)), less(M, C(0)), 'reject')
    yield ('mult.min-gt-default', 'minimum multiplicity above the default maximum', fld('String', opts('[', N)), less(C(1), N), 'reject')

    def rel(*fs):
        def f(sc):
            for x in fs:
                x(sc)
        return f
    yield ('mult.max-lt-min', 'maximum below minimum multiplicity', fld('String', *mult), rel(less(C(0), M), less(M, N)), 'reject')
    yield ('mult.ok', 'minimum <= maximum multiplicity', fld('String', *mult), rel(atleast(N, C(0)), atleast(M, N), less(C(0), M)), 'accept')
    yield ('mult.unbounded', 'unbounded maximum multiplicity', fld('String', opts('[', N), ']0'), atleast(N, C(0)), 'accept')
    for base in FIELDED:
        yield (f'mult.{base}', f'bad multiplicity in {base}', fld('String', *mult, base=base), rel(less(C(0), M), less(M, N)), 'reject')
        yield (f'mult.{base}.later', f'bad multiplicity of the second field of {base}',
               fld('String', base=base, more=[F(2, 'g', 'String', mult)]), rel(less(C(0), M), less(M, N)), 'reject')
    tag = [T('Ch', 'Choice', [], '', [F(1, 'x', 'String')])]

    def tagged(n, base='Map'):
        return one(T('R', base, [], '', [F(1, 'a', 'String'), F(2, 'b', 'Ch', [opts('&', n)])]), *tag)

    def notin(n, *cs):
        def f(sc):
            for c_ in cs:
                sc.eq(n, C(c_), False)
        return f
    yield ('tagid.ok', 'tag that is a field of the type', tagged(C(1)), free, 'accept')
    for base in ('Map', 'Record', 'Array'):
        for n in (1, 2, 3, 4):
            k = n + (8 if base == 'Map' else 0)
            fl = [F(j + (8 if base == 'Map' else 0), 'abc'[j - 1], 'Ch' if j == 2 else 'String', [f'&{k}'] if j == 2 else []) for j in (1, 2, 3)]
            if n != 2:
                yield (f'tagid.{base}.at{n}', f'field 2 of a {base} tagged by {"field" if n < 4 else "a missing field"} {n}', one(T('R', base, [], '', fl), *tag), free,
                       'accept' if n < 4 else 'reject')
    yield ('tagid.bad', 'tag that is no field of the type', tagged(N), notin(N, 0, 1, 2), 'reject')
    yield ('tagid.bad-const', 'tag that is no field of the type', tagged(C(7)), free, 'reject')
    yield ('tagid.zero', 'tag 0 that is no field of the type', tagged(C(0)), free, 'reject')
    yield ('tagid.record', 'tag that is no field of the Record', tagged(N, 'Record'), notin(N, 0, 1, 2), 'reject')
    for ch in NAME:
        if ch == '/':
            continue
        yield (f'usertype.{NAME[ch]}', f'type option {NAME[ch]} on a field of a defined type', fld('Str', SAMPLE[ch], more=()), free, 'reject')
        if ch != 'q':
            yield (f'usertype.{NAME[ch]}-many', f'type option {NAME[ch]} on a repeated field of a defined type', fld('Str', SAMPLE[ch], ']0'), free, 'reject')
            yield (f'usertype.{NAME[ch]}-undefined', f'type option {NAME[ch]} on a field of a type defined later', {'types': fld('Str', SAMPLE[ch])['types'] + [T('Str', 'String')]}, free, 'reject')
    yield ('usertype.format', 'format on a field of a defined type', fld('Str', '/ipv4'), free, 'reject')
    yield ('usertype.unique-many', 'unique on a repeated field of a defined type', fld('Str', 'q', ']0'), free, 'accept')
    yield ('usertype.unique-more', 'unique and another type option on a repeated field', fld('Str', 'q', '{1', ']0'), free, 'reject')
    for ch in 'KL':
        yield (f'usertype.fo-{ch}', 'field option on a field of a defined type', fld('Str', ch), free, 'accept')
    for t in PRIM + ['Enumerated', 'ArrayOf', 'MapOf']:
        yield (f'dir.{t}', f'dir on a field of type {t}', fld(t, '<', *needs(t)), free, 'reject')
    yield ('dir.ok', 'dir on a field of a defined type', fld('Sub', '<'), free, 'accept')
    # ---- a well-formed schema with everything, and the second of two types being the bad one
    for n, fam in FAMILIES.items():
        if n not in ('bounds',):
            yield (f'good.{n}', f'the well-formed {n} schema', fam(), free, 'accept')
    yield ('good.short', 'a schema with columns left out', {'types': [['S', 'String'], ['I', 'Integer', ['{0']], ['A', 'ArrayOf', ['*S'], D('D')]]}, free, 'accept')
    yield ('good.empty', 'a schema without types', {'types': []}, free, 'accept')
    good = T('G', 'Record', [], '', [F(1, 'a', 'String')])
    for k, t in (('opt', T('B', 'Boolean', ['{1'])), ('range', T('B', 'Integer', [opts('{', N), opts('}', M)])),
                 ('dup', T('B', 'Map', [], '', [F(1, 'a', 'String'), F(1, 'b', 'String')]))):
        for pos in (0, 1, 2):
            ts = [good, T('H', 'String'), T('J', 'Enumerated', [], '', [[1, 'x', '']])]
            ts[pos] = t
            yield (f'position.{k}.{pos}', f'ill-formed type at position {pos}', one(*ts), less(M, N), 'reject')
