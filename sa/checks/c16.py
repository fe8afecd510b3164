"""C16: the JSON Schema of a schema constrains what the schema constrains."""
import re

from textround import *     # noqa
from framework import Anchor
from suite import describe, where   # noqa

LEVEL = 'other'
FLOOR = 300
RULE = ('Abstract interpretation of json_schema_dumps on abstract schemas that cover every base type, option and position (type, '
        'field, element, key) with open names, bounds, patterns and descriptions, in every enumeration style. The document has a '
        'definition for each type and no other, and each definition makes exactly the assertions an independent reading of the type '
        'gives: kind, bounds, patterns, formats, items, properties, required properties, elements, uniqueness, references.')
Y = 'jadn.translate.jsonschema_w'
DRAFT = 'http://json-schema.org/draft-07/schema#'
KIND = {'Binary': 'string', 'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
INT = {'i8': (-128, 127), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1)}
JS_FORMAT = ['date-time', 'date', 'time', 'duration', 'idn-email', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference', 'uri-template', 'json-pointer',
             'relative-json-pointer', 'regex', 'email', 'hostname']
MAX = {'String': ('$MaxString', 255), 'Array': ('$MaxElements', 100), 'ArrayOf': ('$MaxElements', 100), 'Map': ('$MaxElements', 100), 'MapOf': ('$MaxElements', 100), 'Record': ('$MaxElements', 100)}
NUM = '{}[]'
NOTES = ('title', '$comment', 'examples')
ANY = ('any',)          # not looked at
CONF = ['$MaxBinary', '$MaxString', '$MaxElements', '$Sys', '$TypeName', '$FieldName', '$NSID', '$TypeRef']


def parse(opts, b):
    d = {}
    for o in opts:
        if isinstance(o, tuple):
            _, ch, n = o
            if n.startswith('T:'):
                d[ch[0]] = ch[1:] + n
            elif n.startswith('!'):
                d[ch] = S(n[1:], 'float')
            elif ch == '%':
                d[ch] = S(n, 'str')
            else:
                d[ch] = S(n.lstrip('~+'), 'int')
        elif o[0] in NUM:
            d[o[0]] = C(int(o[1:]))
        elif o[0] in 'yz':
            d[o[0]] = C(float(o[1:]))
        else:
            d[o[0]] = C(o[1:]) if o[0] in '/%' else o[1:] if o[0] in '*+#>C' else True
    return d


class Oracle:
    """what the definition of a type has to assert"""

    def __init__(self, types, b, style, config):
        self.by, self.b, self.style, self.config = {t[0]: t for t in types}, b, style, config
        self.imported = set()

    def note(self, d, desc):
        if desc:
            d['description'] = self.b(desc)
        return d

    def limit(self, b):
        if b not in MAX:
            return None
        return self.config.get(MAX[b][0], C(MAX[b][1]))

    def bounds(self, b, o, lo, hi):
        d = {}
        if o.get('{') not in (None, C(0)):
            d[lo] = o['{']
        m = o.get('}', self.limit(b))
        if m is not None:
            d[hi] = m
        return d

    def ref(self, name):
        if ':' in name and name[:2] != 'T:':
            ns, n = name.split(':')
            self.imported.add((ns, n))
            return {'$ref': C(f'#/imports/{ns}/{n}')}
        return {'$ref': mk_cat([C('#/definitions/'), self.term(name)])}

    def term(self, name):
        v = self.b(name)
        return v if is_term(v) else C(v)

    def derived(self, o):
        """items of a derived enumeration: id, value, description"""
        if '#' in o:
            return [(f[0], self.term(f[1]), f[-1]) for f in self.by[o['#']][4]]

        def walk(n, base):
            for f in (self.by[n][4] if self.by[n][1] in FIELDED else []):
                if '<' not in f[3]:
                    yield mk_cat(base + [self.term(f[1])]), f[4]
                elif f[2] in self.by:
                    yield from walk(f[2], base + [self.term(f[1]), C('/')])
        return [(i, n, d) for i, (n, d) in enumerate(walk(o['>'], []), 1)]

    def items(self, t):
        o = parse(t[2], self.b)
        if '#' in o or '>' in o:
            return self.derived(o), '=' in o
        return [(i[0], self.term(i[1]), i[2]) for i in t[4]], '=' in o

    def enum(self, items, ids, kind=None):
        d = {'type': C(kind)} if kind else {}
        vals = [(self.term(i) if isinstance(i, str) else C(i)) if ids else v for i, v, _ in items]
        if self.style == 'const':
            d['oneOf'] = [self.note({'const': v}, ANY) if ids else self.note({'const': v}, i[2]) for v, i in zip(vals, items)]
            if ids:
                for x in d['oneOf']:
                    x['description'] = ANY
        elif self.style == 'regex' and not ids:
            d['type'] = C('string')
            d['pattern'] = self.alt(vals)
        else:
            d['enum'] = ('set', vals)
        return d

    def alt(self, vals):
        out = [C('^(')]
        for i, v in enumerate(vals):
            out += [C('|')] if i else []
            for p in (v[1] if v[0] == 'cat' else [v]):
                out.append(C(re_escape(p[2])) if p[0] == 'c' else p)
        return mk_cat(out + [C(')$')])

    def value(self, n):
        """element or key type"""
        if n[:1] in '#>' and n[1:2]:
            return self.enum(self.derived({n[0]: n[1:]}), False)
        if n == 'Binary':
            return {'type': C('string'), 'contentEncoding': C('base64url')}
        if n in KIND:
            return {'type': C(KIND[n]), 'maxLength': ANY} if n == 'String' else {'type': C(KIND[n])}
        return self.ref(n)

    def key(self, f, o):
        if '=' in o:
            i = self.term(f[0]) if isinstance(f[0], str) else C(f[0])
            return C(str(i[2])) if i[0] == 'c' else ('app', 'str', (i,), 'str')
        return self.term(f[1])

    def field(self, f):
        o = parse(f[3], self.b)
        to = [x for x in f[3] if (x[1] if isinstance(x, tuple) else x[0]) not in '[]&<KL']
        if f[2] in FIELDED + ('ArrayOf', 'MapOf', 'Enumerated') or f[2] in KIND:
            t = self.type(['', f[2], [x for x in to if x != 'q' or f[2] == 'ArrayOf'], f[4], []])
        else:
            t = self.note(self.ref(f[2]), f[4])
        lo, hi = o.get('[', ONE), o.get(']', ONE)
        if hi == ONE:
            return t
        d = self.note({'type': C('array'), 'items': t}, f[4])
        d['minItems'] = lo if lo not in (C(0),) else ONE
        if hi != C(0):
            d['maxItems'] = hi
        if 'q' in o:
            d['uniqueItems'] = C(True)
        return d

    def type(self, t):
        _, b, opts, desc, fields = t
        o = parse(opts, self.b)
        d = {}
        fmt = o['/'][2] if '/' in o else ''
        if b in KIND:
            d = {'type': C(KIND[b])}
            if b == 'String':
                d.update(self.bounds(b, o, 'minLength', 'maxLength'))
                if '%' in o:
                    d['pattern'] = self.config.get(o['%'][2], o['%']) if o['%'][0] == 'c' else o['%']
                if fmt:
                    d['format'] = C(fmt)
            elif b == 'Binary':
                d.update({'contentEncoding': C('base16') if fmt == 'x' else ANY if fmt else C('base64url'), 'pattern': ANY, 'format': ANY, 'minLength': ANY, 'maxLength': ANY})
            elif b == 'Number':
                for ch, k in (('y', 'minimum'), ('z', 'maximum')):
                    if ch in o:
                        d[k] = o[ch]
                d['format'] = ANY
            elif b == 'Integer':
                d['format'] = ANY
                for n, (ch, k) in enumerate((('{', 'minimum'), ('}', 'maximum'))):
                    v = [x for x in (o.get(ch), C(INT[fmt][n]) if fmt in INT else None) if x is not None]
                    if len(v) == 2:
                        v = [(max, min)[n](v, key=lambda x: x[2])] if v[0][0] == 'c' else [ANY]
                    if v:
                        d[k] = v[0]
            return self.note(d, desc)
        if b == 'Enumerated':
            it, ids = self.items(t)
            return self.note(self.enum(it, ids, 'integer' if ids else 'string'), desc)
        if b == 'Choice' and 'C' in o:
            return self.note({{'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['C']]: [self.field(f) for f in fields]}, ANY if desc else '') if not desc else \
                {{'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['C']]: [self.field(f) for f in fields], 'description': ANY}
        if b == 'Array':
            if fmt:
                return self.note({'type': C('string'), 'pattern': ANY, 'format': ANY}, desc)
            d = {'type': C('array'), 'additionalItems': C(False), 'items': [self.field(f) for f in fields], **self.bounds(b, o, 'minItems', 'maxItems')}
            return self.note(d, desc)
        if b == 'ArrayOf':
            d = {'type': C('array'), 'items': self.value(o['*']), **self.bounds(b, o, 'minItems', 'maxItems')}
            if 'q' in o or 's' in o:
                d['uniqueItems'] = C(True)
            return self.note(d, desc)
        d = {'type': C('object')}
        if b == 'MapOf':
            d.update(self.bounds(b, o, 'minProperties', 'maxProperties'))
            v, k = self.value(o['*']), o['+']
            items = None
            if k[:1] in '#>' and k[1:2]:
                items = [n for _, n, _ in self.derived({k[0]: k[1:]})]
            elif k in self.by and self.by[k][1] == 'Enumerated':
                it, ids = self.items(self.by[k])
                items = [(self.key((i, n), {'=': 1}) if ids else n) for i, n, _ in it]
            if items is None:
                d['additionalProperties'] = v
                base = self.by[k][1] if k in self.by else k
                if ':' in k and k[:2] != 'T:':
                    d['propertyNames'] = ANY
                elif base in ('String', 'Binary'):
                    d['propertyNames'] = self.value(k)
            else:
                d['additionalProperties'] = C(False)
                if self.style == 'regex':
                    d['patternProperties'] = {self.alt(items): v}
                else:
                    d['properties'] = {i: v for i in items}
            return self.note(d, desc)
        d['additionalProperties'] = C(False)
        d['properties'] = {self.key(f, o): self.field(f) for f in fields}
        if b == 'Choice':
            d.update({'minProperties': ONE, 'maxProperties': ONE})
        else:
            d.update(self.bounds(b, o, 'minProperties', 'maxProperties'))
            req = [self.key(f, o) for f in fields if parse(f[3], self.b).get('[', ONE) != C(0)]
            if req:
                d['required'] = ('set', req)
        return self.note(d, desc)


def re_escape(s):
    return ''.join('\\' + c if c in '\\^$.|?*+()[]{}/' else c for c in s)


def is_default(k, v, st):
    return (k in ('minLength', 'minItems', 'minProperties') and v == C(0)) or (k == 'description' and v == C('')) or \
        (k == 'required' and v[0] == 'ref' and not st.heap[v[1]][1]) or (k == 'uniqueItems' and v == C(False))


def diff(want, got, st, path=''):
    """first assertion that differs, '' if none"""
    if want == ANY:
        return ''
    if isinstance(want, dict):
        if got[0] != 'ref' or st.heap[got[1]][0] != 'dict':
            return f'{path or "the definition"} is {show(got)}'
        entries = {}
        for k, v, n in st.heap[got[1]][1]:
            if n != ONE:
                return f'!{path}'
            entries[k] = v
        if want.get('$ref') and set(entries) - {C('$ref')}:
            entries = {k: v for k, v in entries.items() if k in (C('$ref'), C('description'))}
        wk = {k if is_term(k) else C(k): v for k, v in want.items()}
        notes = [C(n) for n in NOTES] if any(not is_term(k) for k in want) else []
        for k, v in wk.items():
            if k not in entries and k[0] == 'cat' and any(is_sub(x) for x in entries):
                m = [x for x in entries if regex_text(x) == regex_text(k)]
                if m:
                    r = diff(v, entries.pop(m[0]), st, path + '/pattern')
                    if r:
                        return r
                    continue
            if k not in entries:
                if v == ANY or v == ():
                    continue
                return f'{path}: {txt(k)} missing'
            r = diff(v, entries[k], st, f'{path}/{txt(k)}')
            if r:
                return r
        for k, v in entries.items():
            if k not in wk and k not in notes and not (k[0] == 'c' and is_default(k[2], v, st)):
                return f'{path}: {txt(k)} is {show(v)} although nothing like it is declared'
        return ''
    if isinstance(want, (list, tuple)) and (isinstance(want, list) or want[0] == 'set'):
        vs = values(got, st)
        if vs is None:
            return f'!{path}'
        if isinstance(want, tuple):
            w = want[1]
            miss = [x for x in w if x not in vs]
            extra = [x for x in vs if x not in w]
            return f'{path}: {show(miss[0])} missing' if miss else f'{path}: {show(extra[0])} is not one of them' if extra else ''
        if len(vs) != len(want):
            return f'{path} has {len(vs)} entries for {len(want)}'
        for i, (w, v) in enumerate(zip(want, vs)):
            r = diff(w, v, st, f'{path}/{i}')
            if r:
                return r
        return ''
    if path.endswith('/pattern') and want[0] in ('c', 'cat') and got[0] in ('c', 'cat'):
        want, got = regex_text(want), regex_text(got)
    if got != want and not equal_num(want, got):
        return f'{path} is {show(got)}, not {show(want)}'
    return ''


def murky(v, st):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'unk' or v[0] == 'app' and v[1] not in ('str', 'json.dumps', 'len', 'float', '!sub'):
        return True
    if v[0] == 'ref':
        o = st.heap[v[1]]
        if o[0] == 'dict':
            return any(murky(k, st) or murky(e, st) or n != ONE for k, e, n in o[1])
        return o[0] == 'obj' or any(murky(e, st) or n != ONE for e, n in o[1])
    return any(murky(x, st) for x in v if isinstance(x, tuple))


def is_sub(v):
    return v[0] == 'cat' and any(p[0] == 'app' and p[1] == '!sub' for p in v[1])


def regex_text(v):
    """the texts a pattern of alternatives stands for: escapes that mean the character itself are dropped"""
    parts = []
    for p in (v[1] if v[0] == 'cat' else [v]):
        if p[0] == 'app' and p[1] == '!sub':
            p = p[2][0]
        parts += list(p[1]) if p[0] == 'cat' else [C(re.sub(r'\\([- #&~/"<>=!,:;@%])', r'\1', p[2]))] if p[0] == 'c' else [p]
    return mk_cat(parts)


def txt(k):
    return k[2] if k[0] == 'c' else show(k)


def equal_num(a, b):
    return a[0] == 'c' and b[0] == 'c' and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)) and not isinstance(a[2], bool) and not isinstance(b[2], bool) and a[2] == b[2]


R = T('T:R', 'Record', [], '', [F(1, 'f:r', 'T:V', [], 'd:RD'), F(2, 'f:s', 'T:R2', ['<'], ''), F(3, 'f:t', 'T:V', ['[0'], '')])
R2 = T('T:R2', 'Map', [], '', [F(4, 'f:u', 'T:V', [], ''), F(5, 'f:w', 'T:V', [], 'd:WD')])
V = T('T:V', 'Boolean')
STYLES = ('enum', 'const', 'regex')


def refs(x, out):
    if isinstance(x, str) and x[:2] == 'T:':
        out.add(x)
    elif isinstance(x, str) and x[1:3] == 'T:':
        out.add(x[1:])
    elif isinstance(x, (list, tuple)):
        for y in x:
            refs(y, out)
    return out


def complete(types):
    """define the types that are referred to"""
    types = list(types)
    todo = True
    while todo:
        have = {t[0] for t in types}
        todo = [n for n in sorted(refs(types, set())) if n not in have]
        for n in todo:
            types.append({'T:R': R, 'T:R2': R2, 'T:V': V, 'T:K': T('T:K', 'String', [O('}', 'KM')]), 'T:C': T('T:C', 'Choice', ['='], '', [F(1, 'f:ca', 'T:V'), F(2, 'f:cb', 'T:V')])}[n])
    return types


def skip_opts(opts):
    return any(o == '}0' for o in opts)


def js_cases():
    for b, table in TOPTS.items():
        if b == 'Array':
            table = table + [['/ipv4-net'], [O('{', 'N')], [O('}', 'M')]]
        if b == 'Integer':
            table = table + [['/i16'], ['/i32'], ['/i8', '{-200', '}100'], ['/i16', '{5'], ['/i32', '}-7'], ['{0', '}0'], ['/i64']]
        if b == 'String':
            table = [o for o in table] + [['/' + f] for f in JS_FORMAT] + [['%$FieldName'], ['%$TypeName', '}5'], ['%a.b', '{2']]
        if b == 'Binary':
            table = table + [['/' + f] for f in ('X', 'b', 'ipv4-addr', 'ipv6-addr')]
        if b == 'ArrayOf':
            table = table + [['*' + x] for x in ('Boolean', 'Integer', 'Number', 'Binary')] + [[O('*', 'T:V'), 's', O('{', 'N'), O('}', 'M')]]
        if b == 'MapOf':
            table = table + [['+Integer', O('*', 'T:V')], ['+Binary', '*Binary'], ['+Number', '*Number'], ['+String', '*Boolean', '{2', '}7'], [O('+', 'T:V'), O('*', 'T:K')]]
        if b == 'Map':
            table = table + [['=', 'X'], ['=', 'o', '{2', '}7']]
        for i, o in enumerate(table):
            if b != 'Integer' and skip_opts(o):
                continue
            derived = any('#' in str(x) or '>' in str(x) for x in o)
            fields = [] if b not in FIELDED + ('Enumerated',) else two(b) if b != 'Enumerated' else [['i:1', 'v:e1', 'd:ED'], [77, 'red', '']] if not derived else []
            styles = STYLES if derived or b == 'Enumerated' else STYLES[:1]
            yield f'type.{b}.{i}', f'a {b} with {show_o(o)}', [T('T:A', b, o, 'd:TD', fields)], styles
            if i == 0:
                yield f'type.{b}.plain', f'a {b} without a description', [T('T:A', b, o, '', fields)], styles
            # as a field
            if b in FIELDED or (b == 'Enumerated' and not derived):
                continue
            for j, (p, po) in enumerate(DETAIL):
                for k, m in enumerate(([], ['[0'], ['[0', ']0'], [O('[', '+LO'), O(']', '+HI')])):
                    if k and (i + j) % 3:
                        continue
                    yield f'inner.{p}{"".join(po)}.{b}.{i}.{k}', f'a {b} field of a {p} {po} with {show_o(o + m)}', [T('T:A', p, po, '', [F(1, 'f:a', b, o + m, 'd:FD'), F(2, 'f:b', 'T:V', [], '')])], styles[:1] if k else styles
    for p, po in DETAIL:
        for i, fo in enumerate(FOPTS):
            yield f'field.{p}{"".join(po)}.{i}', f'a field of a {p} {po} with {show_o(fo)}', [T('T:A', p, po, 'd:TD', [F(1, 'f:a', 'T:V', fo, 'd:FD'), F(2, 'f:b', 'T:V', fo, ''), F(3, 'f:c', 'T:K', [], '')])], STYLES[:1]
        yield f'none.{p}{"".join(po)}', f'a {p} {po} without fields', [T('T:A', p, po, 'd:TD', [])], STYLES[:1]
        yield f'ids.{p}{"".join(po)}', f'ids of a {p} {po}', [T('T:A', p, po, '', [F('i:1', 'f:a', 'T:V', [], 'd:FD'), F('i:2', 'f:b', 'T:K', ['[0'], ''), F(77, 'f:c', 'T:K', ['&1', '[0'], '')])], STYLES[:1]
    for eo in ([], ['=']):
        for n, items in (('open', [['i:1', 'v:e1', 'd:ED'], ['i:2', 'v:e2', '']]), ('chars', [[1, 'a.b', 'd:ED'], [2, 'c+d', ''], [3, 'x|y', ''], [4, '(z)', ''], [5, 'a b-c', ''], [6, '[q]', ''], [7, 'r$', ''], [8, 's/t', ''], [9, 'u*?', ''], [10, '{v}^', '']]),
                         ('one', [[0, 'zero', '']]), ('many', [[i, f'item{i}', ''] for i in range(30)])):
            if n == 'open' and not eo:
                items = [['i:1', 'l:e1', 'd:ED'], ['i:2', 'l:e2', '']]
            yield f'enum.{n}{"".join(eo)}', f'items {n} {eo}', [T('T:A', 'Enumerated', eo, 'd:TD', items)], STYLES
            yield f'enumkey.{n}{"".join(eo)}', f'a MapOf with keys of items {n} {eo}', [T('T:A', 'MapOf', [O('+', 'T:E'), O('*', 'T:V')], 'd:TD', []), T('T:E', 'Enumerated', eo, '', items)], STYLES
    for ch in '#>':
        for b in FIELDED:
            yield f'derived.{ch}.{b}', f'an enumeration derived ({ch}) from a {b}', [T('T:A', 'Enumerated', [O(ch, 'T:E')], 'd:TD', []), T('T:B', 'ArrayOf', [O('*' + ch, 'T:E')], '', []),
                                      T('T:D', 'MapOf', [O('+' + ch, 'T:E'), O('*' + ch, 'T:E')], '', []), T('T:E', b, [], '', [F(1, 'f:a', 'T:V', [], 'd:FD'), F(2, 'f:b', 'T:R', ['<', '[0'], ''), F(3, 'f:c', 'T:V', ['[0'], '')]), R, R2], STYLES
    yield 'several', 'several types', [T('T:A', 'Record', [], 'd:TD', two('Record')), T('T:B', 'Enumerated', [], '', [[1, 'l:x', ''], [2, 'y', 'd:ED']]), T('T:C', 'ArrayOf', [O('*', 'T:A')], 'd:UD'),
                                       T('T:D', 'Record', [], '', []), T('T:E', 'Map', ['='], '', two('Map'))], STYLES
    yield 'recursive', 'types that refer to each other', [T('T:A', 'Record', [], '', [F(1, 'f:a', 'T:B', ['[0'], ''), F(2, 'f:b', 'T:A', ['[0', ']0'], '')]), T('T:B', 'ArrayOf', [O('*', 'T:A')])], STYLES[:1]
    yield 'no types', 'no types', [], STYLES[:1]


INFO = {
    'none': None, 'package': {'package': 't:P'}, 'config': {'package': 't:P', 'config': {'$MaxString': ('cfg', 'CS'), '$MaxElements': ('cfg', 'CE'), '$FieldName': ('cfgs', 'CF')}},
    'all': {'package': 't:P', 'title': 't:T', 'version': 't:V', 'description': 't:D', 'comments': 't:C', 'copyright': 't:Y', 'license': 't:L'},
}


def m_sub(I, st, args, kwargs, node):
    if len(args) == 3 and all(a[0] == 'c' for a in args) and not kwargs:
        return [(st, C(re.sub(*[a[2] for a in args])), None)]
    return [(st, ('app', '!sub', (args[2],), 'str'), None)]


def m_escape(I, st, args, kwargs, node):
    if args[0][0] == 'c':
        return [(st, C(re.escape(args[0][2])), None)]
    return [(st, ('app', '!sub', (args[0],), 'str'), None)]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def case(key, what, types, style, info=None, exports=(), namespaces=None, imports='any'):
        sc = FnScenario(I, key)
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = None
        full = complete(types)
        b = Build(sc, SAFEDESC, ITEM)
        dumped = []

        def m_dumps(I_, st, args, kwargs, node):
            st.event('json', args[0])
            return [(st, ('app', 'json.dumps', (args[0],), 'str'), None)]
        sc.models['json.dumps'] = m_dumps
        sc.models['re.sub'] = m_sub
        sc.models['re.escape'] = m_escape
        try:
            doc = {'types': b(full)}
            cfg = {}
            if info or exports or namespaces:
                inf = {}
                for k, v in (info or {}).items():
                    if isinstance(v, dict):
                        cfg = {x: S(y[1], 'int' if y[0] == 'cfg' else 'str') for x, y in v.items()}
                        for y in cfg.values():
                            if y[2] == 'int':
                                sc.lt(y, ONE, False)
                        inf[k] = cfg
                    else:
                        inf[k] = b(v)
                if exports:
                    inf['exports'] = list(exports)
                if namespaces:
                    inf['namespaces'] = namespaces
                doc = {'info': inf, **doc}
            b.done()
            sc.distinct(S('P', 'str'), *[C(c) for c in CONF])
            for n in 'NM':
                sc.lt(S(n, 'int'), ONE, False)
            sc.lt(S('LO', 'int'), ONE, False)
            conf = {'$FieldName': C('^[$a-z][_$A-Za-z0-9]{0,63}$'), '$TypeName': C('^[$A-Z][-$A-Za-z0-9]{0,63}$'), **cfg}
            orc = Oracle(full, b, style, conf)
            want = {'definitions': {orc.term(t[0]): orc.type(t) for t in full}, '$schema': C(DRAFT)}
            if namespaces:
                uri = dict(namespaces)
                want['imports'] = {k: {n: {'$ref': C(f'{uri[k]}/definitions/{n}')} if imports == 'ref' else {} for m, n in sorted(orc.imported) if m == k} for k in uri}
            if info:
                want['$id'] = b(info['package'])
                for k in ('title', 'version', 'description', 'comments', 'copyright', 'license'):
                    if k in info:
                        want[k] = b(info[k])
            outs = sc.call(Y, 'json_schema_dumps', [doc], {'enum_style': C(style), **({'import_style': C(imports)} if namespaces else {})})
        except (Budget, RecursionError, NotFollowed) as e:
            rep.undecided(key, what, '', f'{type(e).__name__}: {e}')
            return
        rep.analysed |= I.analysed
        for o in outs:
            if o.lost:
                continue
            p = ''
            if o.exc is not None:
                p = f'fails with {show(o.exc)}'
            else:
                ev = [e for e in o.st.events if e[0] == 'json' and mentions(o.val, e[1])]
                if len(ev) != 1 and not (o.val[0] == 'app' and o.val[1] == 'json.dumps'):
                    rep.undecided(key, what, '', 'result not followed')
                    return
                top = o.val[2][0] if o.val[0] == 'app' else ev[0][1]
                p = judge(want, top, o.st, exports, full, b)
                if p[:1] == '!' or (p and murky(top, o.st)):
                    rep.undecided(key, what, '', f'result not followed: {p}')
                    return
            if p:
                rep.bad(key, f'{what}: {p}', where(I, o), describe(I, o))
                return
        if not outs or any(o.lost for o in outs):
            rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
        else:
            rep.holds(key, f'{what} on {len(outs)} paths', where(I, outs[0]))

    def mentions(v, x):
        return v == x or (isinstance(v, tuple) and any(mentions(y, x) for y in v if isinstance(y, tuple)))

    def judge(want, top, st, exports, full, b):
        if top[0] != 'ref' or st.heap[top[1]][0] != 'dict':
            return '!document'
        ent = {k[2]: v for k, v, n in st.heap[top[1]][1] if k[0] == 'c'}
        for k in ('definitions', '$schema', '$id', 'title', 'version', 'description', 'comments', 'copyright', 'license', 'imports'):
            if k in want and k not in ent:
                return f'{k} missing'
            if k in ent and k not in want and ent[k] not in (C(''),):
                return f'{k} is {show(ent[k])} although nothing like it is declared'
            if k in want:
                w = want[k]
                r = diff(w, ent[k], st, k)
                if r:
                    return r
        if len(exports) == 1:
            return diff({'$ref': C(f'#/definitions/{exports[0]}')}, st.alloc(('dict', tuple((C(k), v, ONE) for k, v in ent.items() if k == '$ref'))), st, 'root')
        if exports:
            r = diff({'type': C('object'), 'properties': {C(e.lower().replace('-', '_')): {'$ref': C(f'#/definitions/{e}')} for e in exports}, 'additionalProperties': C(False)},
                     st.alloc(('dict', tuple((C(k), v, ONE) for k, v in ent.items() if k in ('type', 'properties', 'additionalProperties')))), st, 'root')
            if r:
                return r
        return ''

    for key, what, types, styles in js_cases():
        for s in styles:
            case(f'{key}.{s}', f'{what}, style {s}', types, s)
    for n, info in INFO.items():
        types = [T('T:A', 'String', [O('{', 'N')], ''), T('T:B', 'String', ['%$FieldName'], ''), T('T:D', 'ArrayOf', [O('*', 'T:A')]), T('T:E', 'Map', [], '', two('Map')),
                 T('T:F', 'Record', [O('}', 'M')], '', [F(1, 'f:a', 'String', ['[0'], ''), F(2, 'f:b', 'MapOf', ['+String', O('*', 'T:A'), ']0'], '')])]
        case(f'info.{n}', f'information {n}', types, 'enum', info)
        for ex in (('Abc',), ('Abc', 'De-F'), ('De-F', 'Abc', 'Gh')):
            case(f'exports.{n}.{len(ex)}', f'exports {ex}, information {n}', [T('Abc', 'Record', [], 'd:TD', [F(1, 'f:a', 'Gh', [], 'd:FD')]), T('De-F', 'String'), T('Gh', 'Boolean'), T('Ij', 'Boolean')], 'enum', info, ex)
    for form in ({'ab': 'http://ab.c', 'x': 'http://x.y/z'}, [['ab', 'http://ab.c'], ['x', 'http://x.y/z']]):
        for imp in ('any', 'ref'):
            for i, types in enumerate(([T('T:A', 'Record', [], '', [F(1, 'f:a', 'ab:Tn', [], 'd:FD'), F(2, 'f:b', 'x:Un', ['[0', ']0'], ''), F(3, 'f:c', 'ab:Wn', ['[0'], '')])],
                                       [T('T:A', 'ArrayOf', ['*ab:Tn']), T('T:B', 'MapOf', ['+ab:Kn', '*x:Un'])],
                                       [T('T:A', 'Choice', ['CO'], '', [F(1, 'f:a', 'ab:Tn', [], ''), F(2, 'f:b', 'T:V', [], '')])], [T('T:A', 'String')])):
                case(f'imports.{type(form).__name__}.{imp}.{i}', f'imported types ({i}), namespaces as a {type(form).__name__}, import style {imp}', types, 'enum', {'package': 't:P'}, (), form, imp)
