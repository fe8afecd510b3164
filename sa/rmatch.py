"""Regular-expression matching with groups on partly known texts.

A text is a sequence of known characters and opaque tokens; of a token are known the characters it may contain, the
characters it may start and end with and whether it may be empty.  The pattern's parse tree is followed with the
backtracking order of the re module.  A match is reported only when it is the match for every text the sequence stands
for; otherwise Undecided is raised.
"""
import re
import re._constants as k
import re._parser as p

import rx
from rx import cs, cand, cor, cneg, chas, ALL


class Undecided(Exception):
    pass


class Info:
    def __init__(self, alphabet, first=None, last=None, minlen=1, no=()):
        self.alphabet, self.minlen = alphabet, minlen
        self.first = alphabet if first is None else first
        self.last = alphabet if last is None else last
        self.no = no                # substrings that do not occur
        self.lang = None
        self.seps = {}


def may_start(items, i, c):
    """the text from item i on may begin with this character"""
    while i < len(items):
        x = items[i]
        if isinstance(x, Ch):
            return chr(x.c) == c
        if chas(x.info.first, ord(c)):
            return True
        if x.info.minlen:
            return False
        i += 1
    return False


def begins_in(items, i, sep):
    """an occurrence of a text may begin in token i"""
    info = items[i].info
    if not free_of(info, sep):
        return True
    for k_ in range(1, len(sep)):
        if chas(info.last, ord(sep[k_ - 1])) and may_start(items, i + 1, sep[k_]):
            return True
    return False


def info_of(lang):
    """Info of the texts of a language"""
    if lang in _INFO:
        return _INFO[lang]
    reps = rx.representatives(lang)
    memo = {}
    out = set()
    rx.sets_of(lang, out, set())
    classes = []
    for c in reps:
        cls = ALL
        for s in out:
            cls = cand(cls, s if chas(s, c) else cneg(s))
        classes.append((c, cls))
    seen, todo = {lang}, [lang]
    edges = []
    while todo:
        x = todo.pop()
        for c, cls in classes:
            d = rx.deriv(x, c, memo)
            if d != rx.EMPTY:
                edges.append((x, cls, d))
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
                    if len(seen) > 3000:
                        raise rx.Unsupported('language too large')
    live = {x for x in seen if rx.nullable(x)}
    change = True
    while change:
        change = False
        for x, cls, d in edges:
            if d in live and x not in live:
                live.add(x)
                change = True
    al = fi = la = ()
    for x, cls, d in edges:
        if d in live:
            al = cor(al, cls)
            if x == lang:
                fi = cor(fi, cls)
            if rx.nullable(d):
                la = cor(la, cls)
    r = _INFO[lang] = Info(al, fi, la, 0 if rx.nullable(lang) else 1)
    r.lang = lang
    return r


def free_of(info, sep):
    """the texts do not contain this separator"""
    if sep in info.no:
        return True
    if not all(chas(info.alphabet, ord(c)) for c in sep):
        return True
    if info.lang is None:
        return False
    r = info.seps.get(sep)
    if r is None:
        s = rx.EPS
        for c in reversed(sep):
            s = rx.cat(rx.ch(rx.cs((ord(c), ord(c)))), s)
        try:
            r = rx.relation(info.lang, rx.cat(rx.TOP, rx.cat(s, rx.TOP))) == 'out'
        except rx.Unsupported:
            r = False
        info.seps[sep] = r
    return r


_INFO = {}


class Ch:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Tok:
    __slots__ = ('term', 'info')

    def __init__(self, term, info):
        self.term, self.info = term, info


class Pos:
    """between items; mid: somewhere inside item i; taint: not every text gets here this way"""
    __slots__ = ('i', 'mid', 'taint', 'ne')

    def __init__(self, i, mid=False, taint=False, ne=False):
        self.i, self.mid, self.taint, self.ne = i, mid, taint, ne       # ne: item i is not empty

    def tainted(self):
        return Pos(self.i, self.mid, True, self.ne)


class Matcher:
    def __init__(self, pattern, flags, items):
        self.tree = p.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.ngroups = self.tree.state.groups
        self.items = items
        self.conv = rx.Conv(self.flags)
        self.steps = 0

    def cls(self, op, av, flags):
        """character class of a one-character item, or None"""
        if op is k.LITERAL:
            return self.conv.chars([(op, av)], flags)
        if op is k.NOT_LITERAL:
            return cneg(self.conv.chars([(k.LITERAL, av)], flags))
        if op is k.ANY:
            return ALL if flags & re.S else cneg(cs((10, 10)))
        if op is k.IN:
            return self.conv.chars(av, flags)
        if op is k.CATEGORY:
            return rx.category(av, bool(flags & re.A))
        return None

    def single(self, items, flags):
        """class of a body that always consumes exactly one character"""
        items = list(items)
        if len(items) != 1:
            return None
        op, av = items[0]
        if op is k.SUBPATTERN and av[0] is None:
            return self.single(av[3], flags)
        return self.cls(op, av, flags)

    def whole(self, items, flags, i):
        """class with which a repeated body would eat token i one character after another"""
        items, info = list(items), self.items[i].info
        if len(items) == 1:
            op, av = items[0]
            if op is k.SUBPATTERN and av[0] is None:
                return self.whole(av[3], flags, i)
            if op is k.BRANCH:
                first = list(av[1][0])
                if len(first) == 1:
                    c = self.cls(*first[0], flags)
                    if c is not None and subset(info.alphabet, c):
                        return c
        if len(items) == 2 and items[0][0] is k.ASSERT_NOT and items[0][1][0] > 0:
            c = self.single(items[1:], flags)
            text = [av for op, av in items[0][1][1] if op is k.LITERAL]
            if c is not None and subset(info.alphabet, c) and text and len(text) == len(items[0][1][1]) and not flags & re.I:
                if not begins_in(self.items, i, ''.join(map(chr, text))):
                    return c
        return None

    # one character of class c at pos -> positions
    def char(self, c, pos):
        if pos.i >= len(self.items):
            return
        it = self.items[pos.i]
        if isinstance(it, Ch):
            if chas(c, it.c):
                yield Pos(pos.i + 1, False, pos.taint)
            return
        first = it.info.alphabet if pos.mid else it.info.first
        if cand(c, first):
            yield Pos(pos.i, True, True)
            if cand(cand(c, first), it.info.last):
                yield Pos(pos.i + 1, False, True)
        if not pos.mid and it.info.minlen == 0 and not pos.ne:
            yield from self.char(c, Pos(pos.i + 1, False, True))

    def seq(self, items, j, pos, groups, flags):
        self.steps += 1
        if self.steps > 60000:
            raise Undecided('too many steps')
        if j >= len(items):
            yield pos, groups
            return
        op, av = items[j]
        for q, g in self.one(op, av, pos, groups, flags):
            yield from self.seq(items, j + 1, q, g, flags)

    def one(self, op, av, pos, groups, flags):
        c = self.cls(op, av, flags)
        if c is not None:
            for q in self.char(c, pos):
                yield q, groups
            return
        if op is k.AT:
            r = self.at(av, pos, flags)
            if r is True:
                yield pos, groups
            elif r is None:
                yield pos.tainted(), groups
            return
        if op is k.SUBPATTERN:
            n, add, sub, items = av
            f = (flags | add) & ~sub
            items = list(items)
            for q, g in self.seq(items, 0, pos, groups, f):
                if n is not None:
                    g = dict(g)
                    g[n] = (pos, q)
                yield q, g
            return
        if op is k.BRANCH:
            for b in av[1]:
                yield from self.seq(list(b), 0, pos, groups, flags)
            return
        if op in (k.MAX_REPEAT, k.MIN_REPEAT):
            lo, hi, items = av
            items = list(items)
            hi = None if hi is k.MAXREPEAT else int(hi)
            yield from self.repeat(items, int(lo), hi, op is k.MIN_REPEAT, pos, groups, flags, 0)
            return
        if op in (k.ASSERT, k.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                c = self.single(list(sub), flags)
                if c is None:
                    raise Undecided('look-behind')
                r = self.behind(c, pos)
                if r is None:
                    yield pos.tainted(), groups
                elif r == (op is k.ASSERT):
                    yield pos, groups
                return
            res = None
            for q, g in self.seq(list(sub), 0, pos, groups, flags):
                if not q.taint or pos.taint:
                    res = True
                    break
                res = False
            if op is k.ASSERT:
                if res is not None:
                    yield (pos if res else pos.tainted()), groups
            elif res is None:
                yield pos, groups
            elif res is False:
                yield pos.tainted(), groups
            return
        raise Undecided(str(op))

    def behind(self, c, pos):
        """the character before this position is in the class: True, False or None"""
        if pos.mid:
            x = self.items[pos.i].info.alphabet
            return False if not cand(x, c) else True if subset(x, c) else None
        res = set()
        i = pos.i - 1
        while i >= 0:
            x = self.items[i]
            if isinstance(x, Ch):
                res.add(chas(c, x.c))
                break
            res |= {False} if not cand(x.info.last, c) else {True} if subset(x.info.last, c) else {True, False}
            if x.info.minlen:
                break
            i -= 1
        else:
            res.add(False)
        return res.pop() if len(res) == 1 else None

    def repeat(self, items, lo, hi, lazy, pos, groups, flags, n):
        self.steps += 1
        if self.steps > 60000:
            raise Undecided('too many steps')
        if hi is not None and n >= hi:
            yield pos, groups
            return
        if lazy and n >= lo:
            yield pos, groups
        it = self.items[pos.i] if pos.i < len(self.items) else None
        c = self.single(items, flags)
        if isinstance(it, Tok) and c is None:
            c = self.whole(items, flags, pos.i)
        if isinstance(it, Tok) and c is not None:
            info = it.info
            if subset(info.alphabet, c):
                sure = 1 if (info.minlen or pos.mid or pos.ne) else 0
                tainted = hi is not None or n + sure < min(lo, n + 1)
                after = Pos(pos.i + 1, False, pos.taint or tainted)
                inside = Pos(pos.i, True, pos.taint or tainted)
                m = n + sure if hi is None else n + 1
                # all of the token, further on first
                if lazy:
                    if not pos.mid:
                        yield inside_taint(inside), groups
                    yield from self.repeat(items, lo, hi, lazy, after, groups, flags, m)
                else:
                    yield from self.repeat(items, lo, hi, lazy, after, groups, flags, m)
                    if not pos.mid:
                        yield inside_taint(inside), groups
            else:
                first = info.alphabet if pos.mid else info.first
                if cand(c, first):
                    # some of the token
                    yield Pos(pos.i, True, True), groups
                    if cand(c, info.last):
                        yield from self.repeat(items, lo, hi, lazy, Pos(pos.i + 1, False, True), groups, flags, n + 1)
                if not pos.mid and info.minlen == 0 and not pos.ne:
                    # the token is empty; stopping right after it is stopping before it
                    for q, g in self.repeat(items, lo, hi, lazy, Pos(pos.i + 1, False, True), groups, flags, n):
                        if q.mid or q.i != pos.i + 1:
                            yield q, g
        else:
            for q, g in self.seq(items, 0, pos, groups, flags):
                if q.i == pos.i and q.mid == pos.mid:
                    continue            # empty iteration
                yield from self.repeat(items, lo, hi, lazy, q, g, flags, n + 1)
        if not lazy and n >= lo:
            yield pos, groups

    def at(self, av, pos, flags):
        n = len(self.items)
        if av in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
            if pos.mid:
                return False
            if pos.i == 0:
                return True
            if all(isinstance(x, Tok) and x.info.minlen == 0 for x in self.items[:pos.i]):
                return None
            return False
        if av in (k.AT_END, k.AT_END_STRING):
            if pos.mid:
                return False
            rest = self.items[pos.i:]
            if not rest:
                return True
            if av is k.AT_END and isinstance(rest[-1], Ch) and rest[-1].c == 10:
                if len(rest) == 1:
                    return True
                rest = rest[:-1]
            if all(isinstance(x, Tok) and x.info.minlen == 0 for x in rest) and not pos.ne:
                return None
            if av is k.AT_END and isinstance(rest[-1], Tok) and chas(rest[-1].info.last, 10):
                return None
            return False
        raise Undecided(str(av))

    def run(self, mode):
        starts = [Pos(0)]
        if mode == 'search':
            starts = []
            for i in range(len(self.items) + 1):
                starts.append(Pos(i))
                if i < len(self.items) and isinstance(self.items[i], Tok):
                    starts.append(Pos(i, True, True))
        tree = list(self.tree)
        for s in starts:
            if mode == 'search' and not s.mid and s.i < len(self.items) and isinstance(self.items[s.i], Tok) and \
                    self.items[s.i].info.minlen == 0:
                try:
                    r = self.first(tree, s, mode)
                except Undecided:
                    # when the token is empty this start is the next one
                    if self.first(tree, Pos(s.i, False, True, True), mode) is not None:
                        raise
                    continue
            else:
                r = self.first(tree, s, mode)
            if r is not None:
                return r
        return None

    def first(self, tree, s, mode):
        for q, g in self.seq(tree, 0, s, {}, self.flags):
            if mode == 'fullmatch':
                r = self.at(k.AT_END_STRING, q, self.flags)
                if r is False:
                    continue
                if r is None:
                    raise Undecided('end')
            if q.taint or q.mid:
                raise Undecided('depends on the text')
            for a, b in g.values():
                if a.mid or b.mid:
                    raise Undecided('group inside a token')
            return s, q, g
        return None


def inside_taint(pos):
    return Pos(pos.i, True, True)


def subset(a, b):
    return cand(a, b) == tuple(a)


def match(pattern, flags, items, mode):
    """None, or ({0: (start, end), n: (start, end)} as item indices, number of groups); raises Undecided"""
    try:
        m = Matcher(pattern, flags, items)
        r = m.run(mode)
    except (rx.Unsupported, re.error, RecursionError) as e:
        raise Undecided(str(e))
    if r is None:
        return None, m.ngroups
    s, q, g = r
    out = {0: (s.i, q.i)}
    for n, (a, b) in g.items():
        out[n] = (a.i, b.i)
    return out, m.ngroups
