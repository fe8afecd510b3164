"""C25: a diagram of a schema has its types and their references."""
import html
import re

from typetext import *     # noqa
from framework import Anchor
from suite import describe, where   # noqa

LEVEL = 'other'
FLOOR = 300
RULE = ('Abstract interpretation of diagram_dumps on abstract schemas that cover every base type, option and position with open names, '
        'bounds and descriptions, in both formats, each level of detail and each style option. The text is read as a diagram: one node '
        'for each type that is shown, with the fields the level of detail asks for; one edge for each reference of a field, element '
        'or key to a type that is shown, with its label, multiplicity and line; nothing else.')
Y = 'jadn.convert.diagram_w'
HIDDEN = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated')
PRIM = HIDDEN[:5]
OPEN = 0xf0000


class Reader:
    """texts with one private character for each open part"""

    def __init__(self):
        self.toks = {}

    def enc(self, v, I=None, st=None):
        out = ''
        for p in (v[1] if v[0] == 'cat' else (v,)):
            if p[0] == 'c':
                out += p[2]
            else:
                out += chr(self.toks.setdefault(p, OPEN + len(self.toks)))
        return out

    def check(self, val, I, st):
        """the open parts hold nothing that structures a diagram"""
        import rx
        for x in items_of(I, val, st):
            if isinstance(x, Tok) and any(rx.chas(x.info.alphabet, ord(c)) for c in '\n"<>&|'):
                raise Undecided(f'{show(x.term)} may hold anything')


def squeeze(s):
    return ' '.join(s.replace('{field}', ' ').split())


def names_of(t, b):
    return [b.term(f[1]) for f in t[4]]


class Plan:
    """nodes and edges there have to be"""

    def __init__(self, types, b, style, rd):
        self.nodes, self.edges, self.alt = [], [], []
        shown = [t[0] for t in types if style['attributes'] or t[1] not in HIDDEN]
        for t in types:
            if t[0] not in shown:
                continue
            info = style['detail'] == 'information'
            label = [b.term(t[0])] + ([C(' : ')] + type_text(t[1], t[2], b) if info else [])
            fs = []
            for f in t[4]:
                if style['detail'] == 'logical':
                    fs.append([b.term(f[1])])
                elif info and t[1] == 'Enumerated':
                    fs.append([text(b.term(f[0])), C(' ')] + ([b.term(f[1])] if named(t) else []))
                elif info:
                    w, m, dr = field_text(f, t, b)
                    fs.append([text(b.term(f[0])), C(' ')] + ([b.term(f[1])] + [C('/')] * dr if named(t) else []) + [C(' : ')] + w + ([] if m == [ONE_TEXT] else [C(' [')] + m + [C(']')]))
                if t[1] != 'Enumerated':
                    o = opt_terms([x for x in f[3] if char(x) in FIELD_CH], b)
                    refs = self.refs(f[3], shown) if f[2] in ('ArrayOf', 'MapOf') else [f[2]] if f[2] in shown else []
                    for r in dict.fromkeys(refs):
                        self.edge(t[0], r, b.term(f[1]), mult_text(o), 'L' in o, style, rd, b)
            self.nodes.append((rd.enc(b.term(t[0])), squeeze(rd.enc(mk_cat(label))), [squeeze(rd.enc(mk_cat(f))) for f in fs]))
            if t[1] in ('ArrayOf', 'MapOf'):
                for ch, n in (('+', 'key'), ('*', 'value')):
                    for r in self.refs([x for x in t[2] if char(x) == ch], shown):
                        self.edge(t[0], r, C(n), [ONE_TEXT], False, style, rd, b)

    def refs(self, opts, shown):
        out = []
        for o in opts:
            r = o[2] if isinstance(o, tuple) and len(o[1]) == 1 else o[1:] if not isinstance(o, tuple) else None
            if char(o) in '+*' and r in shown:
                out.append(r)
        return out

    def edge(self, src, dst, label, mult, link, style, rd, b):
        if link and not style['links']:
            return
        lab = rd.enc(label)
        if style['format'] == 'graphviz':
            lab = lab.replace('-', '_')
        self.edges.append((rd.enc(b.term(src)), rd.enc(b.term(dst)), lab if style['edge_label'] else '', ('1', rd.enc(mk_cat(mult))) if style['edge_mult'] else ('', ''), link))


def puml(lines, style):
    nodes, ids, edges = [], {}, []
    for ln in lines:
        m = re.fullmatch(r'class "(.*)" as (\w+)', ln)
        if m:
            if m[2] in ids:
                return f'two nodes {m[2]}'
            ids[m[2]] = len(nodes)
            nodes.append((squeeze(m[1]), []))
            continue
        m = re.fullmatch(r'(\w+) +(?:"([^"]*)" +)?([-.]+)> +(?:"([^"]*)" +)?(\w+)(?: *: *(.*))?', ln)
        if m:
            link = m[3][0] == '.'
            if link and (len(m[3]) == 1) != bool(style['link_horizontal']):
                return f'a link edge {m[3]}> although link_horizontal is {style["link_horizontal"]}'
            edges.append((m[1], m[5], m[6] or '', (m[2] or '', m[4] or ''), link))
            continue
        m = re.fullmatch(r'(\w+) : (.*)', ln)
        if m:
            if m[1] not in ids:
                return f'a field of {m[1]}, which is no node'
            nodes[ids[m[1]]][1].append(squeeze(m[2]))
            continue
        if ln and not ln.startswith("'"):
            return f'{ln!r} says nothing'
    return nodes, ids, edges


def dot(lines, style):
    text_ = '\n'.join(lines)
    nodes, ids, edges = [], {}, []
    pos = 0
    for m in re.finditer(r'^(\w+) (?:\[((?:[^\[\]<>"\n]|"[^"\n]*")*?)label=<(.*?)>(?=[,\]])([^\n\]<>]*)\]|-> (\w+)(?: \[((?:[^\]"]|"[^"]*")*)\])?;?)$', text_, re.S | re.M):
        if text_[pos:m.start()].strip():
            return f'{text_[pos:m.start()].strip()[:60]!r} says nothing'
        pos = m.end()
        if m[5] is None:
            if m[1] in ids:
                return f'two nodes {m[1]}'
            ids[m[1]] = len(nodes)
            body = m[3]
            stack = []
            for t in re.finditer(r'<(/?)(\w+)[^<>]*?(/?)>', body):
                if t[3]:
                    continue
                if not t[1]:
                    stack.append(t[2])
                elif not stack or stack.pop() != t[2]:
                    return f'unbalanced label {body[:80]!r}'
            if stack or re.search(r'[<>]', re.sub(r'</?\w+[^<>]*>', '', body)) or re.search(r'&(?!\w+;|#\w+;)', body):
                return f'unbalanced label {body[:80]!r}'
            cells = [c.strip() for c in re.findall(r'<td[^<>]*>(.*?)</td>', body, re.S)] or [body]
            cells = [squeeze(html.unescape(re.sub(r'</?\w+[^<>]*>', '', c))) for c in cells]
            nodes.append((cells[0], cells[1:]))
        else:
            at = dict((k, v if v is not None else w) for k, v, w in re.findall(r'(\w+)=(?:"([^"]*)"|([^",\s]+))', m[6] or '') for v, w in [(v or None, w)])
            lab = at.get('label') or ''
            if not re.search(r'label="', m[6] or '') and lab and not re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', lab):
                lab = '?' + lab if not any(ord(c) >= OPEN for c in lab) else lab
            edges.append((m[1], m[5], lab, (at.get('taillabel') or '', at.get('headlabel') or ''), at.get('style') == 'dashed'))
    if text_[pos:].strip():
        return f'{text_[pos:].strip()[:60]!r} says nothing'
    return nodes, ids, edges


def judge(types, info, style, head, val, I, st, b):
    rd = Reader()
    rd.check(val, I, st)
    s = rd.enc(val)
    lines = [x.strip() for x in s.split('\n')]
    start, end, com = {'plantuml': ('@startuml', '@enduml', "'"), 'graphviz': ('digraph G {', '}', '#')}[style['format']]
    while lines and not lines[-1]:
        lines.pop()
    if lines.count(start) != 1 or not lines or lines[-1] != end:
        return f'not between {start} and {end}'
    n = lines.index(start)
    if any(x and not x.startswith(com) for x in lines[:n]):
        return f'{[x for x in lines[:n] if x and not x.startswith(com)][0]!r} is no comment'
    for k, v in (info or {}).items():
        w = b(v)
        t = rd.enc(w) if is_term(w) else str(w)
        if not any(x.startswith(com) and squeeze(x[len(com):]) == squeeze(f'{k}: {t}') for x in lines[:n]):
            return f'information {k} is not shown'
    body = lines[n + 1:-1]
    for h in head:
        if h not in body:
            return f'{h!r} of the style is missing'
        body.remove(h)
    r = (puml if style['format'] == 'plantuml' else dot)(body, style)
    if isinstance(r, str):
        return r
    nodes, ids, edges = r
    plan = Plan(types, b, style, rd)
    if [x[1] for x in plan.nodes] != [x[0] for x in nodes]:
        return f'nodes {[x[0] for x in nodes]!a}, not {[x[1] for x in plan.nodes]!a}'
    for (w, _, wf), (g, gf) in zip(plan.nodes, nodes):
        if wf != gf:
            d = [x for x in wf if x not in gf] or [x for x in gf if x not in wf] or gf
            return f'fields of {g!a}: {len(gf)} for {len(wf)}, {d[0]!a} differs'
    who = {i: plan.nodes[k][0] for i, k in ids.items()}
    got = []
    for a, c, *r in edges:
        if a not in who or c not in who:
            return f'an edge from {a} to {c}, which are no nodes'
        got.append((who[a], who[c], *r))
    for e in plan.edges:
        if e not in got:
            return f'no edge {e!a} among {got!a}'
    for e in got:
        if e not in plan.edges:
            return f'an edge {e!a} although there is no such reference'
        if got.count(e) > max(plan.edges.count(e), 1) + ('key' not in e and 1):
            return f'edge {e!a} too often'
    return ''


DEFAULT = {'format': 'plantuml', 'detail': 'conceptual', 'links': True, 'link_horizontal': True, 'edge_label': True, 'edge_mult': True, 'attributes': False}
HEAD = {'plantuml': ["' !theme spacelab", 'hide empty members', 'hide circle'],
        'graphviz': ['graph [fontname=Arial, fontsize=12];', 'node [fontname=Arial, fontsize=8, shape=plain, style=filled, fillcolor=lightskyblue1];',
                     'edge [fontname=Arial, fontsize=7, arrowsize=0.5, labelangle=45.0, labeldistance=0.9];', 'bgcolor="transparent";']}
ALL = [{'format': f, 'detail': d, 'attributes': a} for f in ('plantuml', 'graphviz') for d in ('conceptual', 'logical', 'information') for a in (False, True)]
STYLES = [{}] + [{'format': f, **s} for f in ('plantuml', 'graphviz') for s in (
    {}, {'links': False}, {'link_horizontal': False}, {'edge_label': False}, {'edge_mult': False}, {'edge_label': False, 'edge_mult': False}, {'attributes': True, 'detail': 'information', 'edge_label': False},
    {'links': False, 'link_horizontal': False, 'detail': 'logical'}, {'attr_color': 'red', 'attributes': True}, {'header': {'plantuml': ['hide circle', 'skinparam x'], 'graphviz': ['rankdir=LR;']}}, {'header': {'plantuml': [], 'graphviz': []}})]


def web(b):
    """types that refer to each other in every way"""
    fs = [F(1, 'f:a', 'T:A', [], 'd:FD'), F(2, 'f:b', 'T:B', ['[0'], ''), F(3, 'f:c', 'ArrayOf', [O('*', 'T:A'), '[0'], ''), F(4, 'f:d', 'MapOf', [O('+', 'T:A'), O('*', 'T:B'), '[2', ']5'], ''),
          F(5, 'f:e', 'T:B', ['L', '[0', ']0'], ''), F(6, 'f:g', 'ArrayOf', [O('*', 'T:B'), 'L'], ''), F(7, 'f:h', 'MapOf', [O('+', 'T:A'), O('*', 'T:A')], ''), F(8, 'f:i', 'MapOf', ['+String', O('*', 'T:C')], ''),
          F(9, 'f:j', 'MapOf', [O('+', 'T:D'), '*Integer', ']0'], ''), F(10, 'f:k', 'T:D', ['K'], ''), F(11, 'f:l', 'T:E', ['[0'], ''), F(12, 'f:m', 'T:A', [O('[', '+N'), O(']', '+M')], ''), F(13, 'f:o', 'ab:Tn', [], ''),
          F(14, 'f:p', 'T:X', [], '')]
    return [T('T:A', b[0], b[1], 'd:TD', fs), T('T:B', 'Choice', ['CO'], '', [F(1, 'f:q', 'T:A', [], ''), F(2, 'f:r', 'T:E', ['<'], '')]), T('T:C', 'Enumerated', [], '', [[1, 'v:x', ''], ['i:2', 'v:y', 'd:ED']]),
            T('T:D', 'String', [O('}', 'M')], ''), T('T:E', 'ArrayOf', [O('*', 'T:A')], ''), T('T:G', 'MapOf', [O('+', 'T:D'), O('*', 'T:B')], ''), T('T:H', 'MapOf', [O('+', 'T:A'), O('*', 'T:A')], ''),
            T('T:I', 'MapOf', ['+String', O('*', 'T:C'), '{1'], ''), T('T:J', 'ArrayOf', ['*ab:Tn'], ''), T('T:K', 'Record', [], '', [])]


def run(rep):
    rep.rule = RULE
    su = FnSuite(rep)
    I = su.I

    def case(key, what, types, style, info=None):
        sc = FnScenario(I, key)
        sc.tok = True
        sc.I.tok_strict = True
        sc.I.pad_mode = None
        b = Words(sc, None, None)
        try:
            doc = {**({'info': b(info)} if info is not None else {}), 'types': b(types)}
            b.finish(types)
            full = {**DEFAULT, **style}
            head = {**HEAD, **style.get('header', {})}[full['format']]
            outs = sc.call(Y, 'diagram_dumps', [sc.py(doc)] + ([sc.py(style)] if style else []))
            rep.analysed |= I.analysed
            for o in outs:
                if o.lost:
                    continue
                if o.exc is None and 'unk' in repr(o.val):
                    rep.undecided(key, what, '', 'result not followed')
                    return
                p = f'fails with {show(o.exc)}' if o.exc is not None else judge(types, info, full, head, o.val, I, o.st, b)
                if p:
                    rep.bad(key, f'{what}: {p}', where(I, o), describe(I, o))
                    return
            if not outs or any(o.lost for o in outs):
                rep.undecided(key, what, '', str(sorted({x for o in outs for x in o.lost})[:3]))
            else:
                rep.holds(key, f'{what} on {len(outs)} paths', where(I, outs[0]))
        except (Budget, RecursionError, NotFollowed, Undecided) as e:
            rep.undecided(key, what, '', f'{type(e).__name__}: {e}')

    def st_name(s):
        return ','.join(f'{k}={v}' if not isinstance(v, dict) else k for k, v in s.items()) or 'default'

    for i, (key, what, types) in enumerate(cases()):
        for s in ([ALL[-1], ALL[5], ALL[i % 12]] if not key.startswith(('desc', 'columns')) else [ALL[i % 12]]):
            if s['format'] == 'plantuml' and s['detail'] == 'information' and s['attributes'] and any('%' in str(t[2]) for t in types):
                s = dict(s, attributes=False)
            case(f'{key}.{st_name(s)}', f'{what}, {st_name(s)}', types, s)
    for d in DETAIL:
        for s in ALL + STYLES:
            case(f'web.{d[0]}{"".join(d[1])}.{st_name(s)}', f'references from and to a {d[0]} {d[1]}, {st_name(s)}', web(d), s)
    one = [T('T:A', 'Record', [], 'd:TD', two('Record')), T('T:B', 'Enumerated', ['='], 'd:UD', [[1, 'l:x', 'd:ED']])]
    for k, i in INFOS.items():
        for f in ('plantuml', 'graphviz'):
            case(f'info.{k}.{f}', f'information {k}, {f}', one, {'format': f}, i)
            case(f'info.{k}.{f}.none', f'information {k} without types, {f}', [], {'format': f}, i)
