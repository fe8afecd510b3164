"""Scenarios for Enumerated and Choice types, shared by C05, C06 and C17."""
from contscen import *     # noqa


def items(sc, many, fields):
    """declared items P... F Q...; -> (fs-like object, schema rows)"""
    fs = Fields(sc, many)
    if fields:
        return fs, fs.list
    rows = [sc.many(sc.lst(fs.pid, fs.pn, C('')), fs.n1), sc.lst(fs.fid, fs.fn, C('')),
            sc.many(sc.lst(fs.qid, fs.qn, C('')), fs.n2)]
    return fs, rows


def members(sc, fs, x, verdict):
    """x is (not) one of the declared names/ids other than the focus"""
    sc.distinct(x, fs.pn, fs.fn, fs.qn)
    sc.distinct(x, fs.pid, fs.fid, fs.qid)


def enum_cases(su):
    for topts in ((), ('=',)):
        for vs in (True, False):
            for d in ('encode', 'decode'):
                for many in (False, True):
                    tag = f"Enumerated{'.id' if topts else ''}.{d}.{'str' if vs else 'id'}.{'any' if many else '3'}"
                    how = f"{d} of an Enumerated{' with ids' if topts else ''} ({'names' if vs else 'ids'} on the wire)"
                    api_id = bool(topts)
                    wire_id = bool(topts) or not vs
                    in_id = api_id if d == 'encode' else wire_id
                    out_id = wire_id if d == 'encode' else api_id
                    mode = dict(verbose_str=vs, verbose_rec=vs)
                    hold = {}

                    def mk(what, kind=None, many=many, topts=topts, in_id=in_id, out_id=out_id):
                        def build(sc):
                            fs, rows = items(sc, many, False)
                            if many:
                                sc.lt(C(0), fs.n1)
                            if what == 'item':
                                v = fs.fid if in_id else fs.fn
                                hold['r'] = fs.fid if out_id else fs.fn
                            elif what == 'other':
                                v = S('X', 'int' if in_id else 'str')
                                members(sc, fs, v, False)
                            elif what == 'kind':
                                v = NONE if kind == 'NoneType' else sc.lst(S('E1')) if kind == 'list' else \
                                    sc.dct((S('K1', 'str'), S('E1'))) if kind == 'dict' else S('V', kind)
                            return sc.schema('Enumerated', [C(o) for o in topts], rows), v
                        return build
                    su.case(tag + '.item', f'{how}: a declared item', d, mk('item'), 'accept',
                            result=lambda o: None if o.val == hold['r'] else
                            f'gives {show(o.val, o.st)} instead of {show(hold["r"], o.st)}', **mode)
                    su.case(tag + '.undeclared', f'{how}: an undeclared item', d, mk('other'), 'reject', **mode)
                    for k in ('int', 'str', 'bool', 'float', 'NoneType', 'list', 'dict', 'bytes'):
                        if k == ('int' if in_id else 'str'):
                            continue
                        su.case(f'{tag}.kind.{k}', f'{how} given a value of kind {k}', d, mk('kind', k), 'reject', **mode)


def choice_cases(su):
    for topts in ((), ('=',)):
        for vs in (True, False):
            for d in ('encode', 'decode'):
                for many in (False, True):
                    tag = f"Choice{'.id' if topts else ''}.{d}.{'str' if vs else 'id'}.{'any' if many else '3'}"
                    how = f"{d} of a Choice{' with ids' if topts else ''} ({'names' if vs else 'ids'} on the wire)"
                    api_id = bool(topts)
                    wire_id = bool(topts) or not vs
                    in_id = api_id if d == 'encode' else wire_id
                    out_id = wire_id if d == 'encode' else api_id
                    mode = dict(verbose_str=vs, verbose_rec=vs)
                    hold = {}

                    def mk(what, kind=None, many=many, topts=topts, in_id=in_id, out_id=out_id, d=d):
                        def build(sc):
                            fs, rows = items(sc, many, True)
                            if many:
                                sc.lt(C(0), fs.n1)
                            F = fs.fid if in_id else fs.fn
                            Pk = fs.pid if in_id else fs.pn
                            hold['w'] = expect_map((fs.fid if out_id else fs.fn, res(d, fs.ft, fs.vf), ONE))
                            if what == 'ok':
                                v = sc.dct((F, fs.vf))
                            elif what == 'text':
                                v = sc.dct((fs.ser('F', False, True), fs.vf))
                            elif what == 'undeclared':
                                x = S('X', 'int' if in_id else 'str')
                                members(sc, fs, x, False)
                                v = sc.dct((x, fs.vf))
                            elif what == 'nonum':
                                x = S('X', 'str')
                                sc.truth['truthy', ('app', '!intlike', (x,), 'bool')] = False
                                members(sc, fs, x, False)
                                v = sc.dct((x, fs.vf))
                            elif what == 'two':
                                v = sc.dct((F, fs.vf), (Pk, fs.vp))
                            elif what == 'two-one-undeclared':
                                x = S('X', 'int' if in_id else 'str')
                                members(sc, fs, x, False)
                                v = sc.dct((F, fs.vf), (x, S('VX')))
                            elif what == 'empty':
                                v = sc.dct()
                            elif what == 'kind':
                                v = NONE if kind == 'NoneType' else sc.lst(S('E1')) if kind == 'list' else S('V', kind)
                            elif what == 'invalid':
                                sc.nested = fails(fs.ft, kind)
                                v = sc.dct((F, fs.vf))
                            elif what == 'null':
                                sc.nested = lambda dd, ty, v, st: 'TypeError' if v == NONE else 'ok'
                                v = sc.dct((F, NONE))
                            return sc.schema('Choice', [C(o) for o in topts], rows), v
                        return build
                    su.case(tag + '.ok', f'{how}: a declared alternative', d, mk('ok'), 'accept',
                            result=lambda o: hold['w'](o), **mode)
                    su.case(tag + '.undeclared', f'{how}: an undeclared alternative', d, mk('undeclared'), 'reject', **mode)
                    su.case(tag + '.two', f'{how}: two alternatives at once', d, mk('two'), 'reject', **mode)
                    su.case(tag + '.two-undeclared', f'{how}: an alternative and an undeclared key', d,
                            mk('two-one-undeclared'), 'reject', **mode)
                    su.case(tag + '.empty', f'{how}: no alternative', d, mk('empty'), 'reject', **mode)
                    for k in ('int', 'str', 'bool', 'float', 'NoneType', 'list', 'bytes'):
                        su.case(f'{tag}.kind.{k}', f'{how} given a value of kind {k}', d, mk('kind', k), 'reject', **mode)
                    for e in ('ValueError', 'TypeError'):
                        su.case(f'{tag}.invalid.{e}', f'{how}: the value is invalid for the alternative', d,
                                mk('invalid', e), 'reject', **mode)
                    su.case(f'{tag}.null', f'{how}: null where the alternative takes no null', d, mk('null'), 'reject', **mode)
                    if d == 'decode' and wire_id:
                        su.case(tag + '.textkey', f'{how}: the id given as a text key', d, mk('text'), 'accept',
                                result=lambda o: hold['w'](o), **mode)
                        su.case(tag + '.badkey', f'{how}: a text key that is no id', d, mk('nonum'), 'reject', **mode)


def union_cases(su):
    """untagged unions: any number of failing and succeeding alternatives before / around the one in question"""
    V = S('V')
    for d in ('encode', 'decode'):
        for vs in (True, False):
            mode = dict(verbose_str=vs, verbose_rec=vs)
            for exc in ('ValueError', 'TypeError'):
                for combine, cname in (('CO', 'anyOf'), ('CA', 'allOf'), ('CX', 'oneOf')):
                    tag = f"{cname}.{d}.{'str' if vs else 'id'}.{exc}"
                    how = f'{d} of an untagged Choice ({cname}; alternatives fail with {exc})'

                    def mk(counts, combine=combine, exc=exc):
                        """counts: sequence of 'ok' | 'bad' | ('ok', n) | ('bad', n)"""
                        def build(sc):
                            nested_result_not_none(sc)
                            rows = []
                            bad = set()
                            ids = []
                            for i, c in enumerate(counts):
                                c, n = c if isinstance(c, tuple) else (c, ONE)
                                ty = S(f'T{i}', 'str')
                                fid, nm = S(f'id{i}', 'int'), S(f'name{i}', 'str')
                                ids.append((fid, nm))
                                if n[0] == 's':
                                    sc.lt(C(0), n)
                                rows.append(sc.many(sc.field(fid, nm, ty), n))
                                if c == 'bad':
                                    bad.add(ty)
                            sc.distinct(*[x for x, _ in ids])
                            sc.distinct(*[x for _, x in ids])
                            sc.nested = lambda dd, ty, v, st: exc if ty in bad or v != V else 'ok'
                            return sc.schema('Choice', [C(combine)], rows), V
                        return build
                    n, m = S('#n', 'int'), S('#m', 'int')

                    def is_res(o, d=d):
                        v = o.val
                        if v is not None and v[0] == 'app' and v[1] == '!' + d and v[2][1] == V:
                            return None
                        return f'returns {show(v, o.st)} instead of the result of a valid alternative'
                    many_bad, many_ok = ('bad', n), ('ok', m)
                    if cname == 'anyOf':
                        table = [('none-1', ['bad'], 0), ('none-2', ['bad', 'bad'], 0), ('none', [many_bad], 0),
                                 ('first', ['ok', many_bad], 1), ('last', [many_bad, 'ok'], 1),
                                 ('middle', [many_bad, 'ok', ('bad', m)], 1), ('all', [many_ok], 1),
                                 ('only', ['ok'], 1)]
                    elif cname == 'allOf':
                        table = [('none', [many_bad], 0), ('one-bad-first', ['bad', many_ok], 0),
                                 ('one-bad-last', [many_ok, 'bad'], 0), ('one-bad', [many_ok, 'bad', ('ok', n)], 0),
                                 ('two-then-bad', ['ok', 'ok', 'bad'], 0), ('three-then-bad', ['ok', 'ok', 'ok', 'bad'], 0),
                                 ('all', [many_ok], 1), ('all-2', ['ok', 'ok'], 1), ('all-3', ['ok', 'ok', 'ok'], 1), ('only', ['ok'], 1)]
                    else:
                        table = [('none', [many_bad], 0), ('none-1', ['bad'], 0), ('two', ['ok', 'ok'], 0),
                                 ('two-apart', ['ok', many_bad, 'ok'], 0), ('two-then-bad', ['ok', 'ok', many_bad], 0),
                                 ('three', ['ok', 'ok', 'ok'], 0), ('one-first', ['ok', many_bad], 1),
                                 ('one-last', [many_bad, 'ok'], 1), ('one-of-3', ['bad', 'bad', 'ok'], 1), ('last-two', ['bad', 'bad', 'ok', 'ok'], 0), ('one-middle', [many_bad, 'ok', ('bad', m)], 1),
                                 ('only', ['ok'], 1)]
                    for name, counts, okk in table:
                        su.case(f'{tag}.{name}', f'{how}: {name.replace("-", " ")} valid' if not okk else
                                f'{how}: {name.replace("-", " ")}', d, mk(counts), 'accept' if okk else 'reject',
                                result=is_res if okk else None, **mode)
