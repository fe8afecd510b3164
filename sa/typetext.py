"""What the writers have to say about a type or a field, from the definition of the type strings."""
from textround import *     # noqa
from strtok import items_of, text_of    # noqa
from rmatch import Ch, Tok, Undecided   # noqa

NUMERIC = '{}[]'


def opt_terms(opts, b):
    """option character -> term of its value"""
    d = {}
    for o in opts:
        if isinstance(o, tuple):
            _, ch, n = o
            if n.startswith('T:'):
                v = b.text(n)
                d[ch[0]] = mk_cat([C(ch[1:]), v]) if ch[1:] else v
            elif n.startswith('!'):
                d[ch] = S(n[1:], 'float')
            elif ch == '%':
                d[ch] = S(n, 'str')
            else:
                d[ch] = S(n.lstrip('~+'), 'int')
        elif o[0] in NUMERIC:
            d[o[0]] = C(int(o[1:]))
        elif o[0] in 'yz':
            d[o[0]] = C(float(o[1:]))
        else:
            d[o[0]] = C(o[1:])
    return d


def text(v):
    return v if v[0] != 'c' and kind_of(v) == 'str' else C(str(v[2])) if v[0] == 'c' else ('app', 'str', (v,), 'str')


def kind_of(v):
    return 'str' if v[0] == 'cat' or v[0] == 'sym' and v[2] == 'str' or v[0] == 'app' and v[3] == 'str' else 'num'


def ref_text(v):
    """element or key type"""
    p = list(v[1]) if v[0] == 'cat' else [v]
    if p[0][0] == 'c' and p[0][2][:1] in ('#', '>'):
        rest = ([C(p[0][2][1:])] if p[0][2][1:] else []) + p[1:]
        return [C('Enum[' if p[0][2][0] == '#' else 'Pointer[')] + rest + [C(']')]
    return p


def type_text(base, opts, b, tag=None):
    """the words that say a type and its options, as a list of terms"""
    o = opt_terms(opts, b)
    out = [base if isinstance(base, tuple) else C(base)] + (tag or [])
    if '=' in o:
        out.append(C('.ID'))
    if base in ('ArrayOf', 'MapOf'):
        out += [C('(')] + (ref_text(o['+']) + [C(', ')] if base == 'MapOf' else []) + ref_text(o['*']) + [C(')')]
    if 'C' in o:
        out.append(C('(' + {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['C'][2]] + ')'))
    if '#' in o:
        out += [C('(Enum['), o['#'], C('])')]
    if '>' in o:
        out += [C('(Pointer['), o['>'], C('])')]
    if '%' in o:
        out += [C('{pattern="'), o['%'], C('"}')]
    if base in ('Integer', 'Number'):
        lo, hi = (o.get(k) for k in ('{}' if base == 'Integer' else 'yz'))
        if lo is not None or hi is not None:
            out += [C('{'), C('*') if lo is None else text(lo), C('..'), C('*') if hi is None else text(hi), C('}')]
    else:
        lo, hi = o.get('{', C(0)), o.get('}', C(-1))
        if lo != C(0) or hi != C(-1):
            out += [C('{'), text(lo), C('..'), C('*') if hi == C(-1) else text(hi), C('}')]
    if '/' in o:
        out += [C(' /'), o['/']]
    for ch, w in (('q', ' unique'), ('s', ' set'), ('b', ' unordered'), ('o', ' sequence'), ('X', ' extend')):
        if ch in o:
            out.append(C(w))
    return out


def char(o):
    return (o[1] if isinstance(o, tuple) else o)[0]


def field_text(f, t, b):
    """words for the type of a field, and for how many there are"""
    mine = [x for x in f[3] if char(x) in FIELD_CH]
    o = opt_terms(mine, b)
    tag = None
    if '&' in o:
        n = [x[1] for x in t[4] if str(x[0]) == str(o['&'][2])][0]
        tag = [C('(TagId[')] + [b.term(n), C('])')]
    base = f[2] if f[2] in BASES else b.term(f[2])
    w = type_text(base, [x for x in f[3] if char(x) not in FIELD_CH], b, tag)
    if 'K' in o or 'L' in o:
        w = [C('Key(' if 'K' in o else 'Link(')] + w + [C(')')]
    return w, mult_text(o), '<' in o


BASES = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')


class Words(Build):
    """texts written into tables and diagrams hold none of the characters that structure them"""
    shapes = {'d': r'[^/\s|*\\:<>&"](|[^|*\\:<>&"\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]*[^|*\\:<>&"\s])', 'v': r'[A-Za-z0-9_$]([-A-Za-z0-9_$+.,;=()\[\]{}@!?#% ]*[-A-Za-z0-9_$)])?',
              'P': r'[^"\x27\\/|*<>&{}\s:]+'}

    def text(self, s):
        k, _, r = s.partition(':') if s[1:2] == ':' else ('', '', s)
        if k in self.shapes:
            v = S(r, 'str')
            return self.sc.shape(v, self.shapes[k]) or v
        return super().text(s)

    def finish(self, types):
        """declare what differs in a well-formed schema"""
        fixed = []

        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            elif isinstance(x, str) and x[:1] in '$*+ABCDEFGHIJKLMNOPQRSTUVWXYZ' and x[1:2] != ':' and x not in fixed and x not in BASES:
                fixed.append(x)
                if x[1:] not in BASES:
                    fixed.append(x[1:])
        walk(types)
        self.sc.distinct(*self.nm.types, *[C(x) for x in BUILTIN], *[C(x) for x in dict.fromkeys(fixed) if x not in BUILTIN])
        self.sc.distinct(*self.nm.fields)

    def term(self, s):
        v = self.text(s) if isinstance(s, str) else s
        return v if is_term(v) else C(v)

    def opt(self, o):
        if o[1] == '%':
            v = S(o[2], 'str')
            self.sc.shape(v, self.shapes['P'])
            return mk_cat([C('%'), v])
        return super().opt(o)


def mult_text(o):
    lo, hi = o.get('[', ONE), o.get(']', ONE)
    if lo == ONE and hi == ONE:
        return [ONE_TEXT]
    return [text(lo), C('..'), C('*') if hi == C(0) else text(hi)]


ONE_TEXT = C('1')
FIELD_CH = '[]&<KL'


def named(t):
    """the fields have names of their own"""
    chars = {(o[1] if isinstance(o, tuple) else o)[0] for o in t[2]}
    return not (t[1] == 'Array' or '=' in chars or 'C' in chars)
