"""Regular expressions as languages: derivatives with intersection and complement, built from the pattern's parse tree.

`language(pattern, flags, mode)` is the set of whole texts for which re.match / re.fullmatch / re.search succeeds;
`relation(a, b)` decides whether language a lies inside b, outside b, or straddles it.  Nothing is matched: the
question is decided on the (finite) set of derivatives.
"""
import re
import re._constants as k
import re._parser as p

MAXCH = 0x110000


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- character sets: sorted tuple of (lo, hi) inclusive
def cs(*ranges):
    rs = sorted((a, b) for a, b in ranges if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


ALL = cs((0, MAXCH - 1))


def cneg(s):
    out, lo = [], 0
    for a, b in s:
        if lo < a:
            out.append((lo, a - 1))
        lo = b + 1
    if lo < MAXCH:
        out.append((lo, MAXCH - 1))
    return tuple(out)


def cand(s, t):
    out = []
    for a, b in s:
        for c, d in t:
            if max(a, c) <= min(b, d):
                out.append((max(a, c), min(b, d)))
    return cs(*out)


def cor(s, t):
    return cs(*s, *t)


def chas(s, c):
    return any(a <= c <= b for a, b in s)


def _pred(f):
    out, start = [], None
    for c in range(MAXCH):
        if f(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXCH - 1))
    return tuple(out)


_CAT = {}


def category(cat, ascii_):
    key = (cat, ascii_)
    if key not in _CAT:
        name = str(cat)
        neg = 'NOT_' in name
        if 'DIGIT' in name:
            s = cs((48, 57)) if ascii_ else _pred(str.isdecimal)
        elif 'SPACE' in name:
            s = cs((9, 13), (32, 32)) if ascii_ else _pred(str.isspace)
        elif 'WORD' in name:
            s = cs((48, 57), (65, 90), (95, 95), (97, 122)) if ascii_ else _pred(lambda c: c.isalnum() or c == '_')
        else:
            raise Unsupported(name)
        _CAT[key] = cneg(s) if neg else s
    return _CAT[key]


_FOLD = None


def fold_table():
    """lower-case form -> characters with that form, as the re module compares them"""
    global _FOLD
    if _FOLD is None:
        _FOLD = {}
        for c in range(MAXCH):
            lo = chr(c).lower()
            if len(lo) == 1:
                _FOLD.setdefault(ord(lo), set()).add(c)
        try:
            from re._casefix import _EXTRA_CASES
            for c, others in _EXTRA_CASES.items():
                for o in others:
                    _FOLD.setdefault(c, {c}).add(o)
        except ImportError:
            pass
        _FOLD = {c: s for c, s in _FOLD.items() if len(s) > 1 or c not in s}
    return _FOLD


def fold(s, ascii_):
    extra = []
    if ascii_:
        for a, b in s:
            for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                x, y = max(a, lo), min(b, hi)
                if x <= y:
                    extra.append((x + d, y + d))
        return cs(*s, *extra)
    for lo, chars in fold_table().items():
        if chas(s, lo) or any(chas(s, c) for c in chars):
            extra.append((lo, lo))
            extra.extend((c, c) for c in chars)
    return cs(*s, *extra)


# ---------------------------------------------------------------- expressions
EMPTY, EPS = ('0',), ('e',)


def ch(s):
    return ('ch', s) if s else EMPTY


ANY = ch(ALL)


def cat(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == '.':
        return ('.', a[1], cat(a[2], b))
    return ('.', a, b)


def star(a):
    if a in (EMPTY, EPS):
        return EPS
    if a[0] == '*':
        return a
    return ('*', a)


TOP = star(ANY)


def alt(*xs):
    s = set()
    chars = ()
    for x in xs:
        for y in (x[1] if x[0] == '|' else (x,)):
            if y == TOP:
                return TOP
            if y[0] == 'ch':
                chars = cor(chars, y[1])
            elif y != EMPTY:
                s.add(y)
    if chars:
        s.add(ch(chars))
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    return ('|', frozenset(s))


def conj(*xs):
    s = set()
    for x in xs:
        for y in (x[1] if x[0] == '&' else (x,)):
            if y == EMPTY:
                return EMPTY
            if y != TOP:
                s.add(y)
    if not s:
        return TOP
    if len(s) == 1:
        return next(iter(s))
    return ('&', frozenset(s))


def neg(a):
    if a[0] == '~':
        return a[1]
    if a == EMPTY:
        return TOP
    if a == TOP:
        return EMPTY
    return ('~', a)


def nullable(a):
    t = a[0]
    if t == 'e' or t == '*':
        return True
    if t == '.':
        return nullable(a[1]) and nullable(a[2])
    if t == '|':
        return any(nullable(x) for x in a[1])
    if t == '&':
        return all(nullable(x) for x in a[1])
    if t == '~':
        return not nullable(a[1])
    return False


def deriv(a, c, memo):
    key = (a, c)
    r = memo.get(key)
    if r is not None:
        return r
    t = a[0]
    if t == 'ch':
        r = EPS if chas(a[1], c) else EMPTY
    elif t in ('0', 'e'):
        r = EMPTY
    elif t == '.':
        r = cat(deriv(a[1], c, memo), a[2])
        if nullable(a[1]):
            r = alt(r, deriv(a[2], c, memo))
    elif t == '*':
        r = cat(deriv(a[1], c, memo), a)
    elif t == '|':
        r = alt(*[deriv(x, c, memo) for x in a[1]])
    elif t == '&':
        r = conj(*[deriv(x, c, memo) for x in a[1]])
    else:
        r = neg(deriv(a[1], c, memo))
    memo[key] = r
    return r


def sets_of(a, out, seen):
    if id(a) in seen:
        return
    seen.add(id(a))
    if a[0] == 'ch':
        out.add(a[1])
    elif a[0] in ('|', '&'):
        for x in a[1]:
            sets_of(x, out, seen)
    else:
        for x in a[1:]:
            if isinstance(x, tuple):
                sets_of(x, out, seen)


def representatives(a):
    """one character of every class of characters the expression cannot tell apart"""
    out = set()
    sets_of(a, out, set())
    cuts = {0}
    for s in out:
        for lo, hi in s:
            cuts.add(lo)
            cuts.add(hi + 1)
    reps = {}
    for c in sorted(x for x in cuts if x < MAXCH):
        sig = tuple(chas(s, c) for s in out)
        reps.setdefault(sig, c)
    return sorted(reps.values())


def witness(a, limit=40000):
    """a shortest text of the language, or None when it is empty; raises Unsupported when too large"""
    reps = representatives(a)
    memo = {}
    seen = {a: None}
    todo = [a]
    while todo:
        nxt = []
        for x in todo:
            if nullable(x):
                s = ''
                while seen[x] is not None:
                    x, c = seen[x]
                    s = chr(c) + s
                return s
            for c in reps:
                d = deriv(x, c, memo)
                if d != EMPTY and d not in seen:
                    seen[d] = (x, c)
                    nxt.append(d)
                    if len(seen) > limit:
                        raise Unsupported('language too large')
        todo = nxt
    return None


def empty(a):
    return witness(a) is None


# ---------------------------------------------------------------- from patterns
class Conv:
    def __init__(self, flags):
        self.flags = flags

    def seq(self, items, flags):
        """expression for a sequence; returns (expr, start anchored, end) where end in (None, 'dollar', 'end')"""
        acc = EPS
        items = list(items)
        for i, (op, av) in enumerate(items):
            if op is k.AT:
                if av in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
                    if acc != EPS:
                        raise Unsupported('anchor inside')
                    if av is k.AT_BEGINNING and flags & re.M:
                        raise Unsupported('multi-line')
                    self.bos = True
                    continue
                if av in (k.AT_END, k.AT_END_STRING):
                    if flags & re.M and av is k.AT_END:
                        raise Unsupported('multi-line')
                    rest = self.seq(items[i + 1:], flags)
                    if rest != EPS:
                        raise Unsupported('text after the end')
                    self.ends.append('dollar' if av is k.AT_END else 'end')
                    return cat(acc, ('$' if av is k.AT_END else 'Z',))
                raise Unsupported('word boundary')
            if op in (k.ASSERT, k.ASSERT_NOT):
                direction, sub = av
                x = self.seq(sub, flags)
                if has_end(x):
                    raise Unsupported('anchor in look-around')
                if direction > 0:
                    rest = self.seq(items[i + 1:], flags)
                    la = cat(x, TOP)
                    return cat(acc, ('la', la if op is k.ASSERT else neg(la), rest))
                lb = cat(TOP, x)
                acc = conj(acc, lb if op is k.ASSERT else neg(lb))
                continue
            acc = cat(acc, self.one(op, av, flags))
        return acc

    def chars(self, items, flags):
        s, negate = (), False
        for op, av in items:
            if op is k.NEGATE:
                negate = True
            elif op is k.LITERAL:
                s = cor(s, cs((av, av)))
            elif op is k.RANGE:
                s = cor(s, cs(av))
            elif op is k.CATEGORY:
                s = cor(s, category(av, bool(flags & re.A)))
            else:
                raise Unsupported(str(op))
        if flags & re.I:
            s = fold(s, bool(flags & re.A))
        return cneg(s) if negate else s

    def one(self, op, av, flags):
        if op is k.LITERAL:
            return ch(self.chars([(op, av)], flags))
        if op is k.NOT_LITERAL:
            return ch(cneg(self.chars([(k.LITERAL, av)], flags)))
        if op is k.ANY:
            return ANY if flags & re.S else ch(cneg(cs((10, 10))))
        if op is k.IN:
            return ch(self.chars(av, flags))
        if op is k.CATEGORY:
            return ch(category(av, bool(flags & re.A)))
        if op is k.BRANCH:
            return alt(*[self.seq(b, flags) for b in av[1]])
        if op is k.SUBPATTERN:
            _, add, sub, items = av
            return self.seq(items, (flags | add) & ~sub)
        if op in (k.MAX_REPEAT, k.MIN_REPEAT, getattr(k, 'POSSESSIVE_REPEAT', None)):
            lo, hi, items = av
            x = self.seq(items, flags)
            if has_end(x):
                raise Unsupported('anchor in repeat')
            r = EPS
            if hi is k.MAXREPEAT:
                r = star(x)
            else:
                for _ in range(int(hi) - int(lo)):
                    r = alt(EPS, cat(x, r))
            for _ in range(int(lo)):
                r = cat(x, r)
            return r
        if op is k.ATOMIC_GROUP:
            return self.seq(av, flags)
        raise Unsupported(str(op))


def has_end(a):
    out = []

    def go(x):
        if x[0] in ('$', 'Z', 'la'):
            out.append(x)
        for y in (x[1] if x[0] in ('|', '&') else x[1:]):
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                go(y)
    go(a)
    return bool(out)


def finish(a, tail):
    """replace end markers and look-aheads, appending what may follow the matched part"""
    t = a[0]
    if t == '$':
        return alt(EPS, ch(cs((10, 10)))) if tail else EPS
    if t == 'Z':
        return EPS
    if t == 'la':
        return conj(a[1], finish(a[2], tail))
    if t == '|':
        return alt(*[finish(x, tail) for x in a[1]])
    if t == '.':
        if has_end(a[1]):
            raise Unsupported('anchor inside')
        return cat(a[1], finish(a[2], tail))
    if t == '&' and has_end(a):
        raise Unsupported('anchor inside')
    return cat(a, TOP) if tail else a


_LANG = {}


def language(pattern, flags=0, mode='fullmatch'):
    key = (pattern, int(flags), mode)
    if key in _LANG:
        r = _LANG[key]
        if isinstance(r, Exception):
            raise r
        return r
    try:
        tree = p.parse(pattern, flags)
        c = Conv(tree.state.flags)
        c.ends, c.bos = [], False
        a = c.seq(tree, tree.state.flags)
        r = finish(a, mode != 'fullmatch')
        if mode == 'search' and not c.bos:
            r = cat(TOP, r)
        elif mode == 'search' and any(op is k.BRANCH for op, _ in tree):
            raise Unsupported('anchored alternative')
    except (Unsupported, re.error, OverflowError, RecursionError) as e:
        _LANG[key] = e if isinstance(e, Unsupported) else Unsupported(str(e))
        raise _LANG[key]
    _LANG[key] = r
    return r


_REL = {}


def relation(a, b):
    """'in' when every text of a is in b, 'out' when none is, 'some' otherwise"""
    key = (a, b)
    if key not in _REL:
        if empty(conj(a, neg(b))):
            _REL[key] = 'in'
        elif empty(conj(a, b)):
            _REL[key] = 'out'
        else:
            _REL[key] = 'some'
    return _REL[key]
