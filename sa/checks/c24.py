"""C24: the Markdown tables of a schema show what the schema says."""
from typetext import *     # noqa
from framework import Anchor
from suite import describe, where   # noqa
import re

LEVEL = 'other'
FLOOR = 300
RULE = ('Abstract interpretation of markdown_dumps on abstract schemas that cover every base type, option and position with open names, '
        'bounds, patterns and descriptions. The text is read as Markdown: one table for each type, in order, under a heading that '
        'gives its name, definition and description; one row for each field or item, in order, with id, name, type, '
        'multiplicity and description in the columns of these names; the information elements in front.')
Y = 'jadn.convert.markdown'
HEADS = {'ID': 'id', 'Item': 'name', 'Name': 'name', 'Type': 'type', '#': 'mult', 'Description': 'desc', 'Type Name': 'name', 'Type Definition': 'type'}


def spaces(x):
    return isinstance(x, Ch) and x.c == 32 or isinstance(x, Tok) and x.term[0] == 'app' and x.term[1] in ('!pad', '!pad1')


def strip(items):
    a, e = 0, len(items)
    while a < e and spaces(items[a]):
        a += 1
    while e > a and spaces(items[e - 1]):
        e -= 1
    return items[a:e]


def split(items, ch, esc=False):
    out, cur, i = [], [], 0
    while i < len(items):
        x = items[i]
        if esc and isinstance(x, Ch) and x.c == 92 and i + 1 < len(items) and isinstance(items[i + 1], Ch):
            cur += [x, items[i + 1]]
            i += 2
            continue
        if isinstance(x, Ch) and chr(x.c) == ch:
            out.append(cur)
            cur = []
        else:
            if isinstance(x, Tok) and rx_has(x, ch):
                raise Undecided(f'{ch!r} may be inside {show(x.term)}')
            cur.append(x)
        i += 1
    return out + [cur]


def rx_has(tok, ch):
    import rx
    return rx.chas(tok.info.alphabet, ord(ch))


def plain(items):
    """the text a cell shows: escapes removed, blanks around it removed"""
    out, i = [], 0
    items = strip(items)
    while i < len(items):
        x = items[i]
        if isinstance(x, Ch) and x.c == 92 and i + 1 < len(items) and isinstance(items[i + 1], Ch) and chr(items[i + 1].c) in '|*#_<>&':
            i += 1
            x = items[i]
        out.append(x)
        i += 1
    return key(out)


def key(items):
    """comparable text without emphasis"""
    t = text_of(items)
    parts = [('c', 'str', p[2]) if p[0] == 'c' else p for p in (t[1] if t[0] == 'cat' else (t,))]
    return mk_cat([C(p[2].replace('**', '')) if p[0] == 'c' and isinstance(p[2], str) else p for p in parts])


def said(terms):
    t = mk_cat(list(terms)) if terms else C('')
    return mk_cat([C(p[2].replace('**', '')) if p[0] == 'c' else p for p in (t[1] if t[0] == 'cat' else (t,))])


def trimmed(v):
    if v[0] == 'c':
        return C(v[2].strip())
    p = list(v[1]) if v[0] == 'cat' else [v]
    if p[0][0] == 'c':
        p[0] = C(p[0][2].lstrip())
    if p[-1][0] == 'c':
        p[-1] = C(p[-1][2].rstrip())
    return mk_cat(p)


def descs(desc, b, name=None):
    """ways to show a description, with the name in front when fields have no names of their own"""
    d = b.term(desc)
    raw = ([name, C(':: '), d] if name else [d])
    out = {trimmed(said(raw))}
    parts = mk_cat(raw)
    parts = list(parts[1]) if parts[0] == 'cat' else [parts]
    n = sum(p[2].count('::') for p in parts if p[0] == 'c')
    for i, p in enumerate(parts):
        if p[0] == 'c' and '::' in p[2] and n == 1:
            l, r = p[2].split('::')
            if i + 1 == len(parts) or r.strip():
                out.add(trimmed(said(parts[:i] + [C(l + ' - ' + r.strip() + (' ' if i + 1 < len(parts) and r[-1:] == ' ' and r.strip() else ''))] + parts[i + 1:])))
            else:
                out.add(trimmed(said(parts[:i] + [C(l + ' - ')] + parts[i + 1:])))
    return out


def expected(types, b):
    out = []
    for t in types:
        rows = []
        ids = not named(t)
        head = (b.term(t[0]), said(type_text(t[1], t[2], b)), descs(t[3], b))
        for f in t[4]:
            name = b.term(f[1])
            if t[1] == 'Enumerated':
                rows.append({'id': {text(b.term(f[0]))}, 'name': {C('') if ids else said([name])}, 'desc': descs(f[2], b, name if ids else None)})
            else:
                w, m, dr = field_text(f, t, b)
                if dr:
                    name = mk_cat([name, C('/')])
                rows.append({'id': {text(b.term(f[0]))}, 'name': {C('') if ids else said([name])}, 'type': {said(w)}, 'mult': {said(m)}, 'desc': descs(f[4], b, name if ids else None)})
        out.append((head, rows))
    return out


def read(items, info):
    """lines before the first table entry, and per table the lines above it and its rows"""
    blocks, above, cur = [], [], None
    lines = [strip(line) for line in split(items, '\n')]
    bar = [bool(s) and isinstance(s[0], Ch) and s[0].c == ord('|') for s in lines] + [False]
    for i, s in enumerate(lines):
        if bar[i] and (cur is not None or bar[i + 1]):
            if cur is None:
                cur = []
                blocks.append((above, cur))
                above = []
            cells = split(s, '|', True)
            if len(cells) < 3 or strip(cells[0]) or strip(cells[-1]):
                cells = [[]] + cells + [[]]
            cur.append(cells[1:-1])
        else:
            cur = None
            if s:
                above.append(s)
    return blocks, above


def judge(types, info, val, I, st, b):
    blocks, rest = read(items_of(I, val, st), info)
    want = expected(types, b)
    if len(blocks) != len(want):
        return f'{len(blocks)} tables for {len(want)} types'
    for n, ((head, rows), (above, table)) in enumerate(zip(want, blocks)):
        name, tstr, dd = head
        who = f'table {n + 1}'
        if len(table) < 2:
            return f'{who} has no heading'
        cols = [plain(c) for c in table[0]]
        if not all(c[0] == 'c' and c[2] in HEADS for c in cols):
            return f'{who} has columns {[show(c) for c in cols]}'
        cols = [HEADS[c[2]] for c in cols]
        if len(set(cols)) != len(cols):
            return f'{who} has a column twice'
        for r, row in enumerate(table):
            if len(row) != len(cols):
                return f'{who} has {len(row)} cells in row {r} of {len(cols)} columns'
        if any(any(not (isinstance(x, Ch) and chr(x.c) in '-: ' or isinstance(x, Tok) and x.term[1] == 'Mult') for x in c) or not c for c in table[1]):
            return f'{who} has no line under its heading'
        got = [{k: plain(c) for k, c in zip(cols, row)} for row in table[2:]]
        if rows:
            texts = [plain(x) for x in above]
            if said([C('Type: '), name, C(' ('), tstr, C(')')]) not in texts:
                return f'{who}: nothing says {show(name)} ({show(tstr)}) in front of it: {[show(x) for x in texts]}'
            if dd != {C('')} and not any(d in texts for d in dd):
                return f'{who}: the description of the type is not shown'
        else:
            rows = [{'name': {said([name])}, 'type': {tstr}, 'desc': dd}]
        if 'name' in cols and rows and all(r['name'] == {C('')} for r in rows):
            return f'{who} has a column of names although the fields have none of their own'
        if len(got) != len(rows):
            return f'{who} has {len(got)} rows for {len(rows)}'
        for i, (w, g) in enumerate(zip(rows, got)):
            for k in ('id', 'name', 'type', 'mult', 'desc'):
                v = g.get(k, C(''))
                if v not in w.get(k, {C('')}):
                    return f'{who}, row {i + 1}: {k} is {show(v)}, not {show(sorted(w.get(k, {C("")}), key=repr)[0])}'
    lines = {}
    for x in blocks[0][0] if blocks else rest:
        p = text_of(x)
        h = p[2] if p[0] == 'c' else p[1][0][2] if p[1][0][0] == 'c' else ''
        m = re.match(r'([a-z]+): ', h)
        if m:
            tail = ([C(h[m.end():])] if h[m.end():] else []) + (list(p[1][1:]) if p[0] == 'cat' else [])
            lines[m.group(1)] = mk_cat(tail)
    for k, v in (info or {}).items():
        if k not in lines:
            return f'information {k} missing'
        w = b(v)
        if not has_term(w):
            import json
            if lines[k] != C(json.dumps(w)):
                return f'information {k} is {show(lines[k])}'
        elif is_term(w) and lines[k] not in (('app', 'json.dumps', (w,), 'str'), mk_cat([C('"'), w, C('"')])):
            return f'information {k} is {show(lines[k])}'
    return ''


def has_term(x):
    return is_term(x) or isinstance(x, list) and any(map(has_term, x)) or isinstance(x, dict) and any(map(has_term, x.values()))


def md_cases():
    yield from cases()
    for b, bo in DETAIL + [('Enumerated', []), ('Enumerated', ['='])]:
        for i, d in enumerate(['a|b', '|', 'a || b |', 'x:: a|b', 'a * b', 'a:: b:: c', 'a::b']):
            fs = [[1, 'v:x' if not bo else 'l:x', d], [2, 'a|b', d]] if b == 'Enumerated' else [F(1, 'f:a', 'T:V', [], d), F(2, 'f:b', 'String', ['%' + d.replace(':', ''), '[0'], d)]
            yield f'bars.{b}{"".join(bo)}.{i}', f'texts {d!r} in a {b} {bo}', [T('T:A', b, bo, d, fs), T('T:B', 'String', ['%' + d.replace(':', '')], d)]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def case(key, what, types, info=None):
        sc = FnScenario(I, key)
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = None
        sc.I.open_widths = True
        b = Words(sc, None, None)
        try:
            doc = {**({'info': b(info)} if info is not None else {}), 'types': b(types)}
            b.finish(types)
            outs = sc.call(Y, 'markdown_dumps', [sc.py(doc)])
            rep.analysed |= I.analysed
            for o in outs:
                if o.lost:
                    continue
                p = f'fails with {show(o.exc)}' if o.exc is not None else judge(types, info, o.val, I, o.st, b)
                if p and o.exc is None and 'unk' in repr(o.val):
                    rep.undecided(key, what, '', f'result not followed: {p}')
                    return
                if p:
                    rep.bad(key, f'{what}: {p}', where(I, o), describe(I, o))
                    return
            if not outs or any(o.lost for o in outs):
                rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
            else:
                rep.holds(key, f'{what} on {len(outs)} paths', where(I, outs[0]))
        except (Budget, RecursionError, NotFollowed, Undecided) as e:
            rep.undecided(key, what, '', f'{type(e).__name__}: {e}')

    for key, what, types in md_cases():
        case(key, what, types)
    one = [T('T:A', 'Record', [], 'd:TD', two('Record')), T('T:B', 'Enumerated', ['='], 'd:UD', [[1, 'l:x', 'd:ED']])]
    for k, i in INFOS.items():
        case(f'info.{k}', f'information {k}', one, i)
        case(f'info.{k}.none', f'information {k} without types', [], i)
