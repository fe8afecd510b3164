"""Operations on partly known texts: slices, splits, strips and regular-expression matches at token boundaries."""
import re

import rx
import rmatch
from rmatch import Ch, Tok, Undecided
from terms import *     # noqa

SPACE = rx.category('CATEGORY_SPACE', False)
STRIP = rx._pred(str.isspace)
LINES = rx.cs((10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029))


class NotFollowed(Exception):
    """a text could not be followed and the scenario has no use for less"""


def unfollowed(I, note):
    I.tok_notes.append(note)
    if getattr(I, 'tok_strict', False):
        raise NotFollowed(note)


def ok(st, v):
    return [(st, v, None)]


def items_of(I, v, st):
    """[Ch | Tok] of a text"""
    if v[0] == 'c' and v[1] == 'str':
        return [Ch(ord(c)) for c in v[2]]
    if v[0] == 'cat':
        out = []
        for x in v[1]:
            out += items_of(I, x, st)
        return out
    try:
        lang = I.shape_of(v, st)
        if lang is None:
            raise Undecided(f'nothing known about {show(v)}')
        return [Tok(v, rmatch.info_of(lang))]
    except rx.Unsupported as e:
        raise Undecided(str(e))


def text_of(items):
    out, buf = [], []
    for x in items:
        if isinstance(x, Ch):
            buf.append(chr(x.c))
        else:
            if buf:
                out.append(C(''.join(buf)))
                buf = []
            out.append(x.term)
    if buf:
        out.append(C(''.join(buf)))
    return mk_cat(out)


def width(items):
    n = C(0)
    for x in items:
        n = lin_add(n, ONE if isinstance(x, Ch) else ('app', 'len', (x.term,), 'int'))
    return n


def known(v):
    return v[0] == 'c' and v[1] == 'str'


def regex(I, name, args, kwargs, st):
    """re.match and friends -> results or None"""
    a = dict(zip(('pattern', 'repl', 'string', 'count', 'flags') if name == 're.sub' else ('pattern', 'string', 'flags'), args))
    a.update(kwargs)
    pat, text = a.get('pattern'), a.get('string')
    if pat is None or text is None or not known(pat):
        return None
    fl = I.re_flags(a['flags']) if 'flags' in a else 0
    if fl is None:
        return None
    mode = name[3:]
    try:
        items = items_of(I, text, st)
        if mode in ('match', 'search', 'fullmatch'):
            r, n = rmatch.match(pat[2], fl, items, mode)
            return ok(st, NONE if r is None else match_obj(I, st, pat, items, r, n))
        if mode == 'findall':
            out, pos = [], 0
            while pos <= len(items):
                r, n = rmatch.match(pat[2], fl, items[pos:], 'search') if pos == 0 else search_from(pat[2], fl, items, pos)
                if r is None:
                    break
                base = pos if pos else 0
                r = {k: (a_ + base, b_ + base) for k, (a_, b_) in r.items()}
                gs = [text_of(items[slice(*r[k])]) if k in r else C('') for k in range(1, n)]
                out.append(text_of(items[slice(*r[0])]) if n == 1 else gs[0] if n == 2 else ('tup', tuple(gs)))
                pos = r[0][1] if r[0][1] > r[0][0] else r[0][1] + 1
            return ok(st, I.new_list(st, tuple((x, ONE) for x in out)))
        if mode == 'sub' and set(a) <= {'pattern', 'string', 'repl', 'flags'} and known(a['repl']) and '\\' not in a['repl'][2]:
            out, pos, last = [], 0, 0
            repl = [Ch(ord(c)) for c in a['repl'][2]]
            while pos <= len(items):
                r, n = rmatch.match(pat[2], fl, items, 'search') if pos == 0 else search_from(pat[2], fl, items, pos)
                if r is None:
                    break
                b0, e0 = r[0][0] + pos, r[0][1] + pos
                if e0 == b0:
                    raise Undecided('empty match')
                out += items[last:b0] + repl
                pos = last = e0
            return ok(st, text_of(out + items[last:]))
        if mode == 'split' and len(a) == 2:
            out, pos, last = [], 0, 0
            while pos <= len(items):
                r, n = rmatch.match(pat[2], fl, items, 'search') if pos == 0 else search_from(pat[2], fl, items, pos)
                if r is None or n != 1:
                    if n != 1:
                        return None
                    break
                b0, e0 = r[0][0] + pos, r[0][1] + pos
                if e0 == b0:
                    return None
                out.append(text_of(items[last:b0]))
                pos = last = e0
            out.append(text_of(items[last:]))
            return ok(st, I.new_list(st, tuple((x, ONE) for x in out)))
    except Undecided as e:
        unfollowed(I, f'{name}({pat[2]!r}, {show(text)[:120]}): {e}')
        return None
    return None


def search_from(pat, fl, items, pos):
    if any(x in pat for x in ('^', '\\A', '\\b', '\\B', '(?<=', '(?<!')):
        raise Undecided('anchored search from inside')
    return rmatch.match(pat, fl, items[pos:], 'search')


def match_obj(I, st, pat, items, r, n):
    groups = tuple(text_of(items[slice(*r[k])]) if k in r else NONE for k in range(n))
    spans = tuple(('tup', (width(items[:r[k][0]]), width(items[:r[k][1]]))) if k in r else ('tup', (C(-1), C(-1)))
                  for k in range(n))
    names = ()
    try:
        names = tuple((C(k), C(v)) for k, v in re.compile(pat[2]).groupindex.items())
    except re.error:
        pass
    return st.alloc(('obj', '!match', (('_groups', ('tup', groups)), ('_spans', ('tup', spans)),
                                       ('_names', ('tup', tuple(('tup', x) for x in names))))))


def number(d, a):
    if a[0] == 'c' and isinstance(a[2], int):
        return a[2]
    for x in d['_names'][1]:
        if x[1][0] == a:
            return x[1][1][2]
    return None


def m_group(I, st, ref, args, kwargs):
    d = dict(st.heap[ref[1]][2])
    g = d['_groups'][1]
    if not args:
        return ok(st, g[0])
    out = []
    for a in args:
        n = number(d, a)
        if n is None or not 0 <= n < len(g):
            return [(st, None, I.exc('IndexError'))]
        out.append(g[n])
    return ok(st, out[0] if len(out) == 1 else ('tup', tuple(out)))


def m_groups(I, st, ref, args, kwargs):
    g = dict(st.heap[ref[1]][2])['_groups'][1][1:]
    return ok(st, ('tup', tuple(args[0] if x == NONE and args else x for x in g)))


def span_part(which):
    def f(I, st, ref, args, kwargs):
        d = dict(st.heap[ref[1]][2])
        n = number(d, args[0]) if args else 0
        if n is None or not 0 <= n < len(d['_spans'][1]):
            return [(st, None, I.exc('IndexError'))]
        sp = d['_spans'][1][n]
        return ok(st, sp if which is None else sp[1][which])
    return f


def m_groupdict(I, st, ref, args, kwargs):
    d = dict(st.heap[ref[1]][2])
    return ok(st, st.alloc(('dict', tuple((x[1][0], d['_groups'][1][x[1][1][2]], ONE) for x in d['_names'][1]))))


METHODS = {'!match': {'group': m_group, 'groups': m_groups, 'start': span_part(0), 'end': span_part(1), 'span': span_part(None),
                      '__getitem__': m_group, 'groupdict': m_groupdict}}


# ---------------------------------------------------------------- methods of str
def strip_items(items, chars, left, right, st):
    cls = STRIP if chars is None else rx.cs(*((ord(c), ord(c)) for c in chars))
    items = list(items)

    def end(get, pop, edge):
        while items:
            x = get()
            if isinstance(x, Ch):
                if not rx.chas(cls, x.c):
                    return
            elif rmatch.subset(x.info.alphabet, cls):
                pass
            elif x.info.minlen and not rx.cand(cls, edge(x.info)):
                return
            else:
                raise Undecided('strip inside a token')
            pop()
    if left:
        end(lambda: items[0], lambda: items.pop(0), lambda i: i.first)
    if right:
        end(lambda: items[-1], lambda: items.pop(), lambda i: i.last)
    return items


def find_sep(items, sep, start=0):
    """index of the first certain occurrence of a known separator, or None when it certainly does not occur"""
    n = len(sep)
    i = start
    while i < len(items):
        if isinstance(items[i], Ch):
            if all(i + j < len(items) and isinstance(items[i + j], Ch) and chr(items[i + j].c) == sep[j] for j in range(n)):
                return i
            # an occurrence starting here and running into a token
            if chr(items[i].c) == sep[0]:
                j = 0
                while j < n and i + j < len(items) and isinstance(items[i + j], Ch) and chr(items[i + j].c) == sep[j]:
                    j += 1
                if j < n and i + j < len(items) and isinstance(items[i + j], Tok) and rmatch.may_start(items, i + j, sep[j]):
                    raise Undecided('separator may straddle a token')
        else:
            if rmatch.begins_in(items, i, sep):
                raise Undecided('separator may be inside a token')
        i += 1
    return None


def rfind_sep(items, sep):
    if len(sep) != 1:
        raise Undecided('rfind')
    for i in range(len(items) - 1, -1, -1):
        x = items[i]
        if isinstance(x, Ch):
            if chr(x.c) == sep:
                return i
        elif rx.chas(x.info.alphabet, ord(sep)):
            raise Undecided('separator may be inside a token')
    return None


def method(I, v, name, args, st):
    """a method of a partly known text -> results or None"""
    if v[0] == 'c' and all(x[0] == 'c' for x in args):
        return None
    if name in ('ljust', 'rjust', 'center') and len(args) == 1 and args[0][0] != 'c' and I.kind(args[0], st) == 'int' and I.kind(v, st) == 'str':
        return ok(st, pad_open(I, v, mk_cat([C({'l': '<', 'r': '>', 'c': '^'}[name[0]]), ('app', 'str', (args[0],), 'str')]), st))
    if not all(x[0] == 'c' for x in args) and name not in ('join',):
        return None
    try:
        if name in ('ljust', 'rjust') and len(args) == 1 and isinstance(args[0][2], int) and I.kind(v, st) == 'str':
            r = fmt(I, v, C(('<' if name == 'ljust' else '>') + str(max(args[0][2], 0))), st)
            return None if r is None else ok(st, r)
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = args[0][2] if args and args[0] != NONE else None
            items = items_of(I, v, st)
            return ok(st, text_of(strip_items(items, chars, name != 'rstrip', name != 'lstrip', st)))
        if name in ('split', 'partition', 'rpartition', 'rsplit') and args and known(args[0]) and args[0][2]:
            sep = args[0][2]
            items = items_of(I, v, st)
            if name == 'rpartition':
                i = rfind_sep(items, sep)
                if i is None:
                    return ok(st, ('tup', (C(''), C(''), v)))
                return ok(st, ('tup', (text_of(items[:i]), C(sep), text_of(items[i + len(sep):]))))
            if name == 'partition':
                i = find_sep(items, sep)
                if i is None:
                    return ok(st, ('tup', (v, C(''), C(''))))
                return ok(st, ('tup', (text_of(items[:i]), C(sep), text_of(items[i + len(sep):]))))
            mx = args[1][2] if len(args) > 1 else -1
            out, last = [], 0
            while mx != 0:
                if name == 'rsplit' and mx > 0:
                    raise Undecided('rsplit')
                i = find_sep(items, sep, last)
                if i is None:
                    break
                out.append(text_of(items[last:i]))
                last = i + len(sep)
                mx -= 1
            out.append(text_of(items[last:]))
            return ok(st, I.new_list(st, tuple((x, ONE) for x in out)))
        if name in ('split', 'rsplit') and (not args or args == [NONE]):
            items = items_of(I, v, st)
            out, cur = [], []
            for x in items:
                if isinstance(x, Ch) and rx.chas(STRIP, x.c):
                    if cur:
                        out.append(text_of(cur))
                    cur = []
                elif isinstance(x, Tok) and rmatch.subset(x.info.alphabet, STRIP):
                    if not x.info.minlen and cur:
                        raise Undecided('possibly empty blank')
                    if cur:
                        out.append(text_of(cur))
                    cur = []
                elif isinstance(x, Tok) and rx.cand(x.info.alphabet, STRIP):
                    raise Undecided('blank inside a token')
                else:
                    cur.append(x)
            if cur:
                if all(isinstance(x, Tok) and not x.info.minlen for x in cur):
                    raise Undecided('possibly empty word')
                out.append(text_of(cur))
            return ok(st, I.new_list(st, tuple((x, ONE) for x in out)))
        if name == 'splitlines' and not args:
            items = items_of(I, v, st)
            out, cur = [], []
            for j, x in enumerate(items):
                if isinstance(x, Ch) and rx.chas(LINES, x.c):
                    if x.c == 10 and j and isinstance(items[j - 1], Ch) and items[j - 1].c == 13:
                        continue
                    out.append(text_of(cur))
                    cur = []
                elif isinstance(x, Tok) and rx.cand(x.info.alphabet, LINES):
                    raise Undecided('line break inside a token')
                else:
                    cur.append(x)
            if cur:
                out.append(text_of(cur))
            return ok(st, I.new_list(st, tuple((x, ONE) for x in out)))
        if name in ('startswith', 'endswith') and len(args) == 1 and known(args[0]):
            items = items_of(I, v, st)
            pat = ('' if name == 'startswith' else r'(?s:.*)') + re.escape(args[0][2]) + ('' if name == 'startswith' else r'\Z')
            r, n = rmatch.match(pat, 0, items, 'match')
            return ok(st, C(r is not None))
        if name in ('find', 'index') and len(args) == 1 and known(args[0]) and args[0][2]:
            items = items_of(I, v, st)
            i = find_sep(items, args[0][2])
            if i is None:
                return ok(st, C(-1)) if name == 'find' else [(st, None, I.exc('ValueError'))]
            return ok(st, width(items[:i]))
        if name == 'removesuffix' or name == 'removeprefix':
            items = items_of(I, v, st)
            x = args[0][2]
            pre = name == 'removeprefix'
            pat = ('' if pre else r'(?s:.*)') + '(' + re.escape(x) + ')' + ('' if pre else r'\Z')
            r, n = rmatch.match(pat, 0, items, 'match')
            if r is None:
                return ok(st, v)
            return ok(st, text_of(items[r[1][1]:] if pre else items[:r[1][0]]))
        if name == 'replace' and len(args) == 2 and known(args[0]) and args[0][2]:
            items = items_of(I, v, st)
            out, last = [], 0
            while True:
                i = find_sep(items, args[0][2], last)
                if i is None:
                    break
                out += [text_of(items[last:i]), args[1]]
                last = i + len(args[0][2])
            return ok(st, mk_cat(out + [text_of(items[last:])]))
        if name == 'count' and len(args) == 1 and known(args[0]) and args[0][2]:
            items, n, last = items_of(I, v, st), 0, 0
            while True:
                i = find_sep(items, args[0][2], last)
                if i is None:
                    return ok(st, C(n))
                n, last = n + 1, i + len(args[0][2])
        if name in ('isdigit', 'isdecimal', 'isnumeric'):
            return None
        if name in ('lower', 'upper'):
            items = items_of(I, v, st)
            out = []
            for x in items:
                if isinstance(x, Ch):
                    out.append(C(getattr(chr(x.c), name)()))
                elif rx.cand(x.info.alphabet, rx._pred(lambda c: getattr(c, name)() != c)):
                    return None
                else:
                    out.append(x.term)
            return ok(st, mk_cat(out))
    except Undecided as e:
        unfollowed(I, f'{name} of {show(v)[:120]}: {e}')
        return None
    return None


def char_at(I, v, k, st):
    """v[k] for a constant index, when certain"""
    try:
        items = items_of(I, v, st)
    except Undecided:
        return None
    if k >= 0:
        for x in items:
            if not isinstance(x, Ch):
                return None
            if k == 0:
                return C(chr(x.c))
            k -= 1
    else:
        for x in reversed(items):
            if not isinstance(x, Ch):
                return None
            k += 1
            if k == 0:
                return C(chr(x.c))
    return None


def slice_(I, v, lo, hi, st):
    """v[lo:hi] when the bounds are widths of parts of the text -> term or None"""
    try:
        items = items_of(I, v, st)
    except Undecided:
        return None
    total = width(items)

    def at(n, default):
        if n == NONE:
            return default
        if n[0] == 'c' and isinstance(n[2], int) and n[2] < 0:
            i = len(items) + n[2]
            return i if i >= 0 and all(isinstance(x, Ch) for x in items[i:]) else None
        for i in range(len(items) + 1):
            if width(items[:i]) == n:
                return i
        if n[0] == 'c' and isinstance(n[2], int) and all(isinstance(x, Ch) for x in items):
            return min(n[2], len(items))
        return None
    a, b = at(lo, 0), at(hi, len(items))
    if a is None or b is None:
        return None
    return text_of(items[a:b])


def pad_open(I, x, spec, st):
    """a field whose width is not known"""
    parts = spec[1] if spec[0] == 'cat' else (spec,)
    al = ''
    if parts[0][0] == 'c':
        if parts[0][2] not in ('<', '>', '^', ' <', ' >', ' ^'):
            return None
        al, parts = parts[0][2][-1], parts[1:]
    if len(parts) != 1 or parts[0][0] != 'app' or parts[0][1] != 'str' or I.kind(parts[0][2][0], st) != 'int' or I.kind(x, st) not in ('str', 'int'):
        return None
    al = al or ('>' if I.kind(x, st) == 'int' else '<')
    pad = ('app', '!pad', (x, parts[0][2][0]), 'str')
    t = I.to_str(x, st)
    return mk_cat([pad] * (al in '>^') + [t] + [pad] * (al in '<^'))


def format_(I, v, args, kwargs, st):
    """str.format of a template whose braces are known"""
    out, spec, depth, n = [], None, 0, 0
    for x in (v[1] if v[0] == 'cat' else (v,)):
        if x[0] != 'c':
            if spec is None:
                out.append(x) if I.kind(x, st) == 'str' else None
                if I.shape_of(x, st) is None:
                    return None
            else:
                spec.append(x)
            continue
        i, t = 0, x[2]
        while i < len(t):
            c = t[i]
            if spec is None and c in '{}' and t[i + 1:i + 2] == c:
                out.append(C(c))
                i += 1
            elif c == '{':
                if spec is not None:
                    return None
                spec = []
            elif c == '}':
                if spec is None:
                    return None
                name, fspec, seen = '', [], False
                for y in spec:
                    if y[0] == 'c' and not seen:
                        a, sep, r = y[2].partition(':')
                        name += a
                        seen = bool(sep)
                        if r:
                            fspec.append(C(r))
                    elif not seen:
                        return None
                    else:
                        fspec.append(y)
                if name == '' or name.isdigit():
                    k = int(name) if name else n
                    n += 1
                    if k >= len(args):
                        return [(st, None, I.exc('IndexError'))]
                    a = args[k]
                elif name in kwargs:
                    a = kwargs[name]
                else:
                    return None
                r = fmt(I, a, mk_cat(fspec) if fspec else C(''), st)
                if r is None:
                    return None
                out.append(r)
                spec = None
            else:
                (out if spec is None else spec).append(C(c)) if spec is None or not spec or spec[-1][0] != 'c' else spec.__setitem__(-1, C(spec[-1][2] + c))
            i += 1
    return None if spec is not None else ok(st, mk_cat(out) if out else C(''))


def percent(I, v, arg, st):
    """v % arg for a known template and conversions to text"""
    if not known(v):
        return None
    args = list(arg[1]) if arg[0] == 'tup' else [arg]
    if arg[0] == 'ref':
        return None
    out, pos = [], 0
    for m in re.finditer(r'%(?:%|(-?)(\d*|\*)([sdi]))', v[2]):
        if '%' in v[2][pos:m.start()]:
            return None
        out.append(C(v[2][pos:m.start()]))
        pos = m.end()
        if m.group(0) == '%%':
            out.append(C('%'))
            continue
        w = m.group(2)
        if w == '*':
            if not args:
                return None
            w = args.pop(0)
            w = str(w[2]) if w[0] == 'c' else w
        if not args:
            return [(st, None, I.exc('TypeError'))]
        x = args.pop(0)
        if m.group(3) != 's' and I.kind(x, st) != 'int':
            return None
        al = '<' if m.group(1) else '>'
        r = fmt(I, I.to_str(x, st), C(al + w if w else '') if isinstance(w, str) else mk_cat([C(al), ('app', 'str', (w,), 'str')]), st)
        if r is None:
            return None
        out.append(r)
    if args:
        return [(st, None, I.exc('TypeError'))]
    if '%' in v[2][pos:]:
        return None
    return ok(st, mk_cat([x for x in out + [C(v[2][pos:])] if x != C('')] or [C('')]))


def fmt(I, x, spec, st):
    """format(x, spec) -> term or None"""
    if spec == C(''):
        return I.to_str(x, st)
    if spec[0] == 'cat' and all(y[0] == 'c' or y[0] == 'app' and y[1] == 'str' and y[2][0][0] == 'c' for y in spec[1]):
        spec = C(''.join(str(y[2]) if y[0] == 'c' else str(y[2][0][2]) for y in spec[1]))
    if not known(spec):
        return pad_open(I, x, spec, st)
    if x[0] == 'c':
        try:
            return C(format(x[2], spec[2]))
        except Exception:
            return None
    m = re.fullmatch(r'(?:( )?([<>]))?(0)?(\d*)', spec[2])
    k = I.kind(x, st)
    if not m or m.group(3) or k not in ('str', 'int'):
        return None
    t = I.to_str(x, st)
    if not m.group(4) or int(m.group(4)) <= 1:
        return t
    al = m.group(2) or ('>' if k == 'int' else '<')
    mode = getattr(I, 'pad_mode', None)
    if mode == 'none':              # every open text is longer than its column
        return t
    pad = ('app', '!pad1' if mode == 'some' else '!pad', (x, C(int(m.group(4)))), 'str')
    return mk_cat([t, pad] if al == '<' else [pad, t])
