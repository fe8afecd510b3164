"""C21: dumps() writes the schema as JSON: parsing the text gives the schema back."""
import itertools
import json

from unfoldscen import *      # noqa

LEVEL = 'other'
FLOOR = 60
RULE = ('Abstract interpretation of dumps() on families of abstract schemas and of nested lists and objects (every text, number and '
        'name open, so any character and any value), with and without stripping. The text it returns - constant pieces and the '
        'places where open values are written - must be a JSON document, and what that document says must be the argument: the '
        'same keys in the same order, the same lists, texts, numbers, truth values and nulls.')
CO = 'jadn.core'


class Bad(Exception):
    pass


class Lost(Exception):
    pass


HOLE = '\ue000'


class Text:
    """text of constants and holes, as a string with one private character for each hole"""

    def __init__(self, term, I, st):
        self.holes, self.s, self.i = [], '', 0
        self.I, self.st = I, st
        for p in (term[1] if term[0] == 'cat' else (term,)):
            if p[0] == 'c' and isinstance(p[2], str):
                self.s += p[2]
            else:
                self.s += HOLE
                self.holes.append(p)
        self.n = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in ' \t\n\r':
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ''

    def near(self):
        return repr(self.s[max(0, self.i - 20):self.i + 20].replace(HOLE, '*'))

    def take(self, c):
        if self.peek() != c:
            raise Bad(f'{c!r} expected at {self.near()}')
        self.i += 1

    def hole(self, quoted):
        h = self.holes[self.n]
        self.n += 1
        self.i += 1
        if quoted:
            if h[0] == 's' and self.I.kind(h, self.st) == 'str' and not any(
                    a[0] not in ('eq', 'isinst') and any(h in subterms(x) for x in a[1:] if isinstance(x, tuple)) for a in self.st.facts):
                raise Bad(f'{show(h)} is written between quotes as it is: a quote or a backslash in it breaks the text')
            raise Lost(f'{show(h)} inside quotes')
        return h

    def value(self):
        c = self.peek()
        if not c:
            raise Bad('the text ends early')
        if c == '{':
            self.take('{')
            out = []
            while self.peek() != '}':
                if out:
                    self.take(',')
                k = self.key()
                self.take(':')
                out.append((k, self.value()))
            self.take('}')
            if len({repr(k) for k, _ in out}) != len(out):
                raise Bad('a name is written twice')
            return {k if isinstance(k, (str, tuple)) else repr(k): v for k, v in out}
        if c == '[':
            self.take('[')
            out = []
            while self.peek() != ']':
                if out:
                    self.take(',')
                out.append(self.value())
            self.take(']')
            return out
        if c == '"':
            return self.string()
        if c == HOLE:
            return self.scalar(self.hole(False))
        j = self.i
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] in '+-.') and self.s[j] != HOLE:
            j += 1
        w = self.s[self.i:j]
        if j < len(self.s) and self.s[j] == HOLE:
            raise Lost('number in pieces')
        try:
            v = json.loads(w, parse_constant=self.constant)
        except ValueError:
            raise Bad(f'{self.near()} is no JSON') from None
        self.i = j
        return v

    def constant(self, w):
        raise Bad(f'{w} is no JSON')

    def string(self):
        j = self.i + 1
        while j < len(self.s) and self.s[j] != '"':
            if self.s[j] == HOLE:
                self.hole(True)
            j += 2 if self.s[j] == '\\' else 1
        w = self.s[self.i:j + 1]
        try:
            v = json.loads(w)
        except ValueError as e:
            raise Bad(f'{w!r} is no JSON text ({e})') from None
        self.i = j + 1
        return v

    def key(self):
        c = self.peek()
        if c == '"':
            return self.string()
        if c == HOLE:
            h = self.hole(False)
            k = self.scalar(h)
            if is_term(k) and self.I.kind(k, self.st) != 'str':
                raise Bad(f'the name {show(k)} is no text')
            return k
        raise Bad(f'a name is expected at {self.near()}')

    def scalar(self, h):
        if h[0] == 'app' and h[1] == 'json.dumps':
            x = h[2][0]
            if x[0] in ('s', 'c', 'app', 'cat'):
                return concrete(x, self.st)
            v = concrete(x, self.st)
            if known(v):
                return v
            raise Lost(f'json.dumps of {show(x, self.st)}')
        if h[0] == 'app' and h[1] in ('str', 'repr', 'format') and len(h[2]) == 1:
            if self.I.kind(h[2][0], self.st) == 'int':
                return h[2][0]
            if self.I.kind(h[2][0], self.st) == 'str':
                raise Bad(f'{show(h)} is no JSON')
            if self.I.kind(h[2][0], self.st) == 'bool':
                raise Bad(f'{show(h)} writes True or False')
        if h[0] == 's' and self.I.kind(h, self.st) == 'str':
            raise Bad(f'{show(h)} is written as it is')
        raise Lost(f'{show(h, self.st)}')

    def document(self):
        v = self.value()
        if self.peek():
            raise Bad(f'more text follows: {self.near()}')
        return v


def same(a, b, path='value'):
    """difference between the argument and what the text says"""
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = [norm(k) if is_term(k) else k for k in a], list(b)
        if ka != [norm(k) if is_term(k) else k for k in kb]:
            return f'{path}: names {kb} in place of {list(a)}'
        for (k, x), y in zip(a.items(), b.values()):
            r = same(x, y, f'{path}.{show_(k)}')
            if r:
                return r
        return ''
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(b)} elements in place of {len(a)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f'{path}[{i}]')
            if r:
                return r
        return ''
    x, y = (norm(v) if is_term(v) else v for v in (a, b))
    if is_term(x) or is_term(y):
        return '' if x == y else f'{path}: {show_(y)} in place of {show_(x)}'
    return '' if type(x) is type(y) and x == y else f'{path}: {y!r} in place of {x!r}'


LEAVES = {'text': S('tx', 'str'), 'int': S('n', 'int'), 'float': S('x', 'float'), 'bool': S('b', 'bool'), 'null': None, 'true': True, 'false': False,
          'zero': 0, 'half': 0.5, 'empty': '', 'quote': 'a "b" \\c', 'nonascii': 'é\u2028\x01', 'e[]': [], 'e{}': {}, 'big': 10 ** 25, 'q': '"', 'bs': '\\', 'nl': 'a\nb', 'q2': "x'y", 'minus': -1, 'exp': 1e300, 'small': -2.5e-10, 'del': '\x7f', 'name': ('cat', (C('$'), S('tx', 'str')))}


def nested(thorough):
    L = list(LEAVES.items())
    k1, k2 = S('k1', 'str'), S('k2', 'str')
    for n, v in L:
        yield f'one.{n}', {'a': v}
        yield f'key.{n}', {k1: v, k2: [v]}
        yield f'list.{n}', {'a': [v, v], 'b': v}
        yield f'list2.{n}', {'a': [[v], [v, v], []]}
        yield f'list3.{n}', {'a': [[[v]], [v, [v]], v]}
        yield f'mixed.{n}', {'a': [v, [v], {k1: v}, {}]}
        yield f'deep.{n}', {'a': {k1: {k2: v, 'q': [v]}, 'z': [[[v, [v]]]]}}
        yield f'bare.{n}', v
        for k in (3, 6, 11):
            yield f'last{k}.{n}', {'a': [1] * k + [v], 'b': [v] + ['x'] * k, 'c': [[1]] * k + [[v] * k], 'd': {'q': [[v]] + [['']] * k}}
        yield f'top.{n}', [v, [v], {k1: [v]}]
    for (n, v), (m, w) in itertools.product(L, L):
        if thorough or hash_(n + m) % 4 == 0:
            yield f'pair.{n}.{m}', {'a': [v, w], k1: [[v], w], 'c': [[w, [v]], [v]], 'd': {'x': v, k2: w}}
    # every arrangement of lists up to depth three
    for i, shape in enumerate(shapes(3, thorough)):
        yield f'shape.{i}', {'types': shape}


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def shapes(depth, thorough):
    base = [S('tx', 'str'), [], {}, {'k': S('n', 'int')}]
    level = [[]] + [[a] for a in base] + [[a, b] for a in base for b in base]
    for s in level:
        yield s
    nxt = [[a] for a in level] + [[a, b] for a, b in itertools.product(level[:6], level[::3])] + [[S('tx', 'str'), a] for a in level]
    for s in nxt:
        yield s
    for s in nxt if thorough else nxt[::3]:
        yield [s]
        yield [S('n', 'int'), s, s]
        yield {'k': s}


def described():
    return {'info': {'package': S('Pk', 'str'), 'version': S('Vs', 'str'), 'exports': [S('TA', 'str')], 'config': {'$MaxString': S('n', 'int')},
                     'namespaces': {S('k1', 'str'): S('u', 'str')}, 'comments': [S('c1', 'str'), S('c2', 'str')], 'flag': None, 'ok': True},
            'types': [T(S('TA', 'str'), 'Record', [('cat', (C('%'), S('rx', 'str')))], S('D1', 'str'), [F(S('id', 'int'), S('f1', 'str'), S('TB', 'str'), ['[0'], S('D2', 'str'))]),
                      T('E', 'Enumerated', [], '', [[1, S('it', 'str'), S('D3', 'str')]]), T('S', 'String', [], '')]}


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    vals = [(f'schema.{n}', f()) for n, f in {**FAMILIES, 'short': short, 'described': described}.items()] + list(nested(rep.tier == 'thorough'))
    for key, v in vals:
        for strip in (False, True):
            if strip and key.startswith('shape') and hash_(key) % 2:
                continue

            def go(sc, v=v, strip=strip):
                sc.distinct(S('k1', 'str'), S('k2', 'str'))
                sc.distinct(*[S('k1', 'str')] + [C(x) for x in 'abcdqxz'])
                sc.distinct(*[S('k2', 'str')] + [C(x) for x in 'abcdqxz'])
                return sc.call(CO, 'dumps', [sc.py(v)], {'strip': strip})

            def result(o, v=v):
                r = o.val
                if r is None or r[0] not in ('c', 'cat', 'app') or r[0] == 'c' and not isinstance(r[2], str):
                    return f'{show(r, o.st)} is no text'
                try:
                    got = Text(r, su.I, o.st).document()
                except Bad as e:
                    return str(e)
                except Lost as e:
                    o.st.lose(str(e))
                    return ''
                return same(v, got)
            su.fcase(f'{key}.{"strip" if strip else "full"}', f'JSON text of {key}{", stripped" if strip else ""}', go, 'accept', result)
