"""C17: the codec reports every unacceptable value with ValueError or TypeError, never with another exception."""
from choicescen import *      # noqa
from checks import c01, c02

LEVEL = 'other'
FLOOR = 200
RULE = ('Every abstract scenario of the codec (all base types, formats, containers, unions, modes, both directions, '
        'acceptable and unacceptable values) is explored for its exception exit states: only ValueError, TypeError and '
        'their subclasses may be reachable; an IndexError, KeyError, AttributeError, StopIteration, OverflowError, '
        'UnboundLocalError, AssertionError ... is a violation at the construct that raises it.')


def extra(su):
    for d in ('encode', 'decode'):
        su.case(f'undefined-type.{d}', f'{d} with a type the schema does not define', d,
                lambda sc: (sc.schema('String'), S('V')), 'reject', datatype=C('NoSuchType'))
        for vs in (True, False):
            for base in ('Enumerated', 'Choice'):
                def empty(sc, base=base):
                    return sc.schema(base), S('V', 'str') if base == 'Enumerated' else sc.dct((S('K', 'str'), S('E1')))
                su.case(f'empty.{base}.{d}.{vs}', f'{d} of a {base} that declares no items', d, empty, 'reject',
                        verbose_str=vs)
            for base in ('Record', 'Map', 'Array', 'Choice', 'ArrayOf', 'MapOf'):
                for k in ('int', 'str', 'bool', 'NoneType', 'float', 'list', 'dict', 'elist', 'edict', 'nested'):
                    def b(sc, base=base, k=k):
                        v = NONE if k == 'NoneType' else sc.lst(S('E1'), sc.lst(S('E2'))) if k == 'list' else \
                            sc.lst(sc.dct((S('K', 'str'), S('E1'))), sc.lst(), NONE) if k == 'nested' else \
                            sc.dct((S('K', 'str'), S('E1'))) if k == 'dict' else sc.lst() if k == 'elist' else \
                            sc.dct() if k == 'edict' else S('V', k)
                        if base in ('ArrayOf', 'MapOf'):
                            opts = [C('*String'), C('+String'), C('q')] if base == 'MapOf' else [C('*String'), C('q')]
                            opts = opts[:2] if base == 'MapOf' else opts
                            return sc.schema(base, opts), v
                        f = [sc.field(C(1), C('a'), C('String')), sc.field(C(2), C('b'), C('Integer'), [C('[0')])]
                        return sc.schema(base, [], f), v
                    su.case(f'any.{base}.{k}.{d}.{"str" if vs else "id"}', f'{d} of a {k} as {base}', d, b, 'any',
                            verbose_str=vs, verbose_rec=vs)


def run(rep):
    rep.rule = RULE
    su = Suite(rep, exc_only=True)
    extra(su)
    c01.cases(su)
    c02.cases(su)
    struct_cases(su)
    of_cases(su)
    tag_cases(su)
    enum_cases(su)
    choice_cases(su)
    union_cases(su)
