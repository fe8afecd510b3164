"""What a schema means, independently of which JADN extensions it is written with."""
from opscen import *    # noqa

FIELDED = ('Array', 'Choice', 'Map', 'Record')
BUILTIN = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
FOPT = '[]&<KL'
MAXDEPTH = 8


class Odd(Exception):
    """a schema this reading does not cover"""


class Ill(Exception):
    """the schema is not what the property demands"""


def text(o):
    """option text: Python text or cat term -> (first character, rest)"""
    if isinstance(o, str):
        if not o:
            raise Ill('empty option')
        return o[0], o[1:]
    if isinstance(o, tuple) and o[:1] == ('cat',) and o[1][0][0] == 'c':
        h = o[1][0][2]
        rest = mk_cat(([C(h[1:])] if h[1:] else []) + list(o[1][1:]))
        return h[0], norm(rest)
    raise Odd(f'option {o!r}')


def norm(v):
    return v[2] if isinstance(v, tuple) and v[:1] == ('c',) else v


def options(lst):
    """{character: value}"""
    out = {}
    for o in lst:
        c, r = text(o)
        if c in out:
            raise Ill(f'option {c} twice')
        out[c] = r
    return out


def known(x):
    """no part the analysis lost"""
    if isinstance(x, (list, tuple)) and not is_term(x):
        return not (len(x) == 3 and x and x[0] == '*') and all(known(e) for e in x)
    if is_term(x):
        return not any(t[0] in ('ref', 'lost', 'unk') or t[0] == 's' and t[1][:1] in '#@' for t in subterms(x))
    return True


class Schema:
    def __init__(self, types, original=None):
        self.types = [list(t) + [[]] * (5 - len(t)) if len(t) > 3 else list(t) + [[], '', []][len(t) - 2:] for t in types]
        self.by = {}
        for t in self.types:
            if t[0] in self.by:
                raise Ill(f'type {t[0]} defined twice')
            self.by[t[0]] = t
        self.names = original or set(self.by)

    # ---- meaning
    def fields(self, t):
        return [list(f) for f in (t[4] or [])]

    def items(self, name, ptr):
        """items of an enumeration derived from type `name`"""
        t = self.by.get(name)
        if t is None:
            raise Ill(f'derived enumeration of the undefined {name}')
        if not ptr:
            if t[1] == 'Enumerated':
                return self.enum_items(t)
            if t[1] not in FIELDED:
                raise Odd('enumeration of a type without fields')
            return [(f[0], f[1]) for f in self.fields(t)]

        def walk(t, base, d=0):
            if d > MAXDEPTH:
                raise Odd('recursive path')
            for f in self.fields(t):
                if '<' in options(f[3]):
                    s = self.by.get(f[2])
                    if s and s[1] in FIELDED:
                        yield from walk(s, base + [C(f[1]) if isinstance(f[1], str) else f[1], C('/')], d + 1)
                    else:
                        raise Odd('collection of a plain type')
                else:
                    yield norm(mk_cat(base + [C(f[1]) if isinstance(f[1], str) else f[1]]))
        if t[1] not in FIELDED:
            raise Odd('pointers into a type without fields')
        return [(n, p) for n, p in enumerate(walk(t, []), 1)]

    def enum_items(self, t):
        o = options(t[2])
        for c in '#>':
            if c in o:
                return self.items(o[c], c == '>')
        return [(f[0], f[1]) for f in self.fields(t)]

    def ref(self, name, d=0):
        """meaning of a reference to a type by name (as field type, or in vtype/ktype)"""
        if d > MAXDEPTH:
            raise Odd('deep')
        if is_term(name) and name[0] == 'cat' and name[1][0][0] == 'c' and name[1][0][2][:1] in '#>':
            c, r = text(name)
            return ('Enumerated', frozenset(), tuple(self.items(r, c == '>')))
        if isinstance(name, str) and name[:1] in ('#', '>'):
            return ('Enumerated', frozenset(), tuple(self.items(name[1:], name[0] == '>')))
        if name in BUILTIN:
            return (name, frozenset())
        t = self.by.get(name)
        if t is None:
            raise Ill(f'reference to {show_(name)}, which is not defined')
        if name in self.names and t[1] != 'Enumerated':
            return ('type', name)
        if t[1] == 'Enumerated':
            return ('Enumerated', frozenset(x for x in options(t[2]) if x not in '#>'), tuple(self.enum_items(t)))
        return self.meaning(t[1], t[2], self.fields(t), d + 1)

    def isenum(self, name):
        return name[:1] in ('#', '>') if isinstance(name, str) and name[:1] in ('#', '>') else name in self.by and \
            self.by[name][1] == 'Enumerated'

    def meaning(self, base, opts, fields=(), d=0):
        o = options(opts)
        if base == 'Enumerated':
            for c in '#>':
                if c in o:
                    return ('Enumerated', frozenset(x for x in o if x not in '#>'), tuple(self.items(o[c], c == '>')))
            return ('Enumerated', frozenset(o), tuple((f[0], f[1]) for f in fields))
        rest = {k: v for k, v in o.items() if k not in '*+'}
        if base == 'MapOf':
            if '+' not in o or '*' not in o:
                raise Ill('MapOf without ktype or vtype')
            k = self.ref(o['+'], d)
            if k[0] == 'Enumerated':
                v = self.ref(o['*'], d)
                keep = dict(rest)
                if '=' in k[1]:
                    keep['='] = ''
                return ('Map', self.plain(keep), tuple((i, n, (), v) for i, n in k[2]))
            return ('MapOf', self.plain(rest), k, self.ref(o['*'], d))
        if base == 'ArrayOf':
            if '*' not in o:
                raise Ill('ArrayOf without vtype')
            return ('ArrayOf', self.plain(rest), self.ref(o['*'], d))
        if base in FIELDED:
            return (base, self.plain(rest), tuple(self.field(f, d) for f in fields))
        if base in BUILTIN:
            return (base, self.plain(rest))
        raise Odd(f'base type {base}')

    def plain(self, o):
        """options of a type, without defaults"""
        return frozenset((k, number(k, v)) for k, v in o.items() if not (k == '{' and v == '0'))

    def key_type(self, name):
        """type of the key of a type"""
        t = self.by.get(name)
        if t is None:
            raise Odd(f'link to {name}')
        if t[1] == 'MapOf':
            return self.ref(options(t[2])['+'])
        for f in self.fields(t):
            o = options(f[3])
            if 'K' in o:
                return self.field_type(f[2], {k: v for k, v in o.items() if k not in FOPT})
        raise Odd(f'link to {name}, which has no key')

    def field_type(self, ftype, topt):
        if not topt:
            return self.ref(ftype)
        if ftype not in BUILTIN:
            raise Odd(f'options {topt} on a reference')
        return self.meaning(ftype, [join(k, v) for k, v in topt.items()])

    def field(self, f, d=0, links=True):
        if len(f) < 5:
            raise Ill(f'field {f} has {len(f)} columns')
        o = options(f[3])
        topt = {k: v for k, v in o.items() if k not in FOPT}
        minc, maxc = o.get('[', '1'), o.get(']', '1')
        rep = maxc != '1'
        uniq = rep and f[2] != 'ArrayOf' and 'q' in topt
        if rep and f[2] == 'ArrayOf' and 'q' in topt:
            raise Odd('unique repeated lists')
        if uniq:
            topt.pop('q')
        t = self.key_type(f[2]) if 'L' in o else self.field_type(f[2], topt)
        if rep:
            size = {} if maxc == '0' else {'}': maxc}
            size['{'] = minc if minc != '0' else '1'
            if uniq:
                size['q'] = ''
            t = ('ArrayOf', self.plain(size), t)
        fo = [('[', '0')] if minc == '0' else []
        if not rep and minc not in ('0', '1'):
            raise Odd('minimum without maximum')
        for c in '&<':
            if c in o:
                fo.append((c, o[c]))
        return (f[0], f[1], tuple(fo), t)

    def whole(self, t):
        return self.meaning(t[1], t[2], self.fields(t))


def number(k, v):
    if k in '{}[]' and isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            return v
    if k in '{}[]' and isinstance(v, tuple) and v[:2] == ('app', 'str'):
        return v[2][0]
    if k in 'yz' and isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return v
    return v


def join(k, v):
    return k + v if isinstance(v, str) else mk_cat([C(k), v])


def show_(x):
    return x if isinstance(x, str) else show(x) if is_term(x) else repr(x)


def readable(m):
    """meaning as text"""
    if is_term(m):
        return show(m)
    if isinstance(m, frozenset):
        return '{' + ', '.join(sorted(readable(x) for x in m)) + '}'
    if isinstance(m, tuple):
        return '(' + ', '.join(readable(x) for x in m) + ')'
    return str(m)


def extensions_left(s):
    """uses of extensions in a schema -> texts"""
    def enumref(r):
        return isinstance(r, str) and r[:1] in ('#', '>') or \
            is_term(r) and r[0] == 'cat' and r[1][0][0] == 'c' and r[1][0][2][:1] in '#>'
    out = []
    for t in s.types:
        o = options(t[2])
        if '#' in o or '>' in o:
            out.append(('DerivedEnum', f'{show_(t[0])} is still a derived enumeration'))
        for c in '*+':
            if c in o and enumref(o[c]):
                out.append(('DerivedEnum', f'{show_(t[0])} still refers to a derived enumeration'))
        if t[1] == 'MapOf' and '+' in o and (enumref(o['+']) or o['+'] in s.by and s.by[o['+']][1] == 'Enumerated'):
            k = s.by.get(o['+']) if not enumref(o['+']) else None
            if k is not None and not set(options(k[2])) & set('#>'):
                out.append(('MapOfItems', f'{show_(t[0])} is still a MapOf with an enumerated key'))
            out.append(('MapOfEnum', f'{show_(t[0])} is still a MapOf with an enumerated key'))
        if t[1] in FIELDED:
            for f in s.fields(t):
                fo = options(f[3])
                w = f'{show_(t[0])}/{show_(f[1])}'
                if [c for c in fo if c not in FOPT]:
                    out.append(('AnonymousType', f'{w} still has type options {sorted(c for c in fo if c not in FOPT)}'))
                if fo.get(']', '1') != '1' or fo.get('[', '1') not in ('0', '1'):
                    out.append(('Multiplicity', f'{w} is still repeated'))
                if 'K' in fo or 'L' in fo:
                    out.append(('Link', f'{w} still is a key or link'))
    return out


def compare(orig, got, exts):
    """-> text describing what is wrong, '' if nothing; orig and got are lists of types"""
    a = Schema(orig)
    try:
        b = Schema(got, set(a.by))
        if [t[0] for t in b.types[:len(a.types)]] != [t[0] for t in a.types]:
            return f'the types are {[show_(t[0]) for t in b.types]}'
        for e, w in extensions_left(b):
            if e in exts and not (e in ('DerivedEnum', 'MapOfEnum') and 'AnonymousType' not in exts and False):
                return w
        for n, t in enumerate(a.types):
            u = b.types[n]
            if u[3] != t[3]:
                return f'the description of {show_(t[0])} changed'
            x, y = a.whole(t), b.whole(u)
            if x != y:
                return f'{show_(t[0])} means {readable(y)} in place of {readable(x)}'
            if t[1] in FIELDED:
                da, db = [f[4] for f in a.fields(t)], [f[4] for f in b.fields(u)]
                if da != db:
                    return f'field descriptions of {show_(t[0])} changed'
            if t[1] == 'Enumerated' and t[4] and [f[2] for f in a.fields(t)] != [f[2] for f in b.fields(u)]:
                return f'item descriptions of {show_(t[0])} changed'
        for t in b.types[len(a.types):]:
            b.whole(t)
            if t[1] not in BUILTIN:
                return f'{show_(t[0])} has the base type {show_(t[1])}'
    except Ill as e:
        return str(e)
    return ''
