"""Scenario suites: every case is one abstract initial state plus an obligation on the exit states reachable from it."""
import traceback

from codecscen import *     # noqa
from interp import Interp
from absint import Budget
from framework import Anchor


_INTERP = None


def interp():
    global _INTERP
    if _INTERP is None:
        I = Interp()
        if CODEC_MOD not in I.src.modules:
            raise Anchor(f'module {CODEC_MOD}')
        for m in I.src.modules:
            I.module(m)
        _INTERP = I
    return _INTERP


def where(I, o):
    """construct at which the exit state was produced"""
    t = [x for x in o.st.trail]
    if o.exc is not None:
        r = [x for x in t if x[2].startswith('raises')]
    else:
        r = [x for x in t if x[2] == 'returns']
        # the innermost function that decided the outcome: last return not in the dispatcher
        if len(r) > 1 and r[-1][0].endswith(('.encode', '.decode')):
            r = r[:-1]
    if not r:
        return '?'
    q, line, what = r[-1]
    return f'{loc(I, q)}:{line}'


def loc(I, qual):
    for name in sorted(I.src.modules, key=len, reverse=True):
        if qual == name or qual.startswith(name + '.'):
            return f'{I.src.modules[name].rel}:{qual[len(name) + 1:]}'
    return qual


def describe(I, o):
    out = [f'exit: {o!r}']
    for q, line, what in o.st.trail[-25:]:
        out.append(f'  {loc(I, q)}:{line} {what}')
    init = getattr(o, 'assumed', None)
    if init:
        out.append('assuming: ' + '; '.join(init))
    return '\n'.join(out)


def atom_str(a, v, st):
    if a[0] == 'not':
        return atom_str(a[1], not v, st)
    if a[0] == 'lt0':
        return show(a[1], st) + (' < 0' if v else ' >= 0')
    if a[0] == 'eq':
        return f"{show(a[1], st)} {'==' if v else '!='} {show(a[2], st)}"
    if a[0] == 'in':
        return f"{show(a[1], st)} {'in' if v else 'not in'} {show(a[2], st)}"
    if a[0] == 'truthy':
        return ('' if v else 'not ') + show(a[1], st)
    if a[0] == 'none':
        return show(a[1], st) + (' is None' if v else ' is not None')
    if a[0] == 'isinst':
        return f"{show(a[1], st)} {'is' if v else 'is not'} {'/'.join(a[2])}"
    return f'{a} = {v}'


class Suite:
    def __init__(self, rep, exc_only=False, only=None):
        self.rep, self.exc_only, self.only = rep, exc_only, only
        self.I = interp()
        self.allowed = ('ValueError', 'TypeError')
        self.cases = 0

    def case(self, key, what, direction, build, expect, result=None, **mode):
        """build(sc) -> (schema, value); expect 'reject' | 'accept' | 'any'"""
        if self.only and self.only not in key:
            return
        sc = Scenario(self.I, key)
        self.cases += 1
        try:
            schema, value = build(sc)
            init = [atom_str(a, v, sc.st) for a, v in sc.st.facts.items()]
            nfacts = dict(sc.st.facts)
            outs = sc.run(direction, schema, value, **mode)
        except Budget:
            self.rep.undecided(key, what, '', 'analysis budget exceeded')
            return
        except RecursionError:
            self.rep.undecided(key, what, '', 'recursion in the analysis')
            return
        except Anchor:
            raise
        except Exception as e:          # the analysed code uses something the analysis cannot digest
            self.rep.undecided(key, what, '', f'analysis gave up: {type(e).__name__}: {e} '
                               + traceback.format_exc(limit=-2).replace('\n', ' '))
            return
        for o in outs:
            o.assumed = init + [atom_str(a, v, o.st) for a, v in o.st.facts.items()
                                if a not in nfacts][-12:]
        self.rep.analysed |= self.I.analysed
        self.judge(key, what, outs, expect, result)

    def judge(self, key, what, outs, expect, result=None):
        rep, I = self.rep, self.I
        good = [o for o in outs if not o.lost]
        lost = [o for o in outs if o.lost]
        if not outs:
            rep.undecided(key, what, '', 'no exit state')
            return
        if self.exc_only:
            bad = [o for o in good if o.exc is not None
                   and not any(I.exc_matches(o.exc[1], a) for a in self.allowed)]
            if bad:
                o = bad[0]
                rep.bad(key, f'{what}: fails with {o.exc[1]}', where(I, o), describe(I, o))
            elif lost and not good:
                rep.undecided(key, what, '', str(sorted(lost[0].lost)))
            else:
                rep.holds(key, what, where(I, good[0]))
            return
        if expect == 'reject':
            bad = [o for o in good if o.exc is None]
            if bad:
                rep.bad(key, f'{what}: accepted', where(I, bad[0]), describe(I, bad[0]))
            elif any(o.exc is None for o in lost) or not good:
                rep.undecided(key, what, '', str(sorted(lost[0].lost)))
            else:
                rep.holds(key, f'{what}: rejected on all {len(good)} paths', where(I, good[0]))
        elif expect == 'accept':
            bad = [o for o in good if o.exc is not None]
            okk = [o for o in good if o.exc is None]
            if bad:
                rep.bad(key, f'{what}: refused', where(I, bad[0]), describe(I, bad[0]))
                return
            wrong = []
            if result is not None:
                for o in okk:
                    r = result(o)
                    if r:
                        wrong.append((o, r))
            if wrong:
                o, r = wrong[0]
                rep.bad(key, f'{what}: {r}', where(I, o), describe(I, o))
            elif lost or not okk:
                rep.undecided(key, what, '', str(sorted(lost[0].lost)) if lost else 'no normal exit')
            else:
                rep.holds(key, f'{what}: accepted on all {len(okk)} paths', where(I, okk[0]))
        else:
            wrong = []
            for o in good:
                r = result(o)
                if r:
                    wrong.append((o, r))
            if wrong:
                o, r = wrong[0]
                rep.bad(key, f'{what}: {r}', where(I, o), describe(I, o))
            elif not good or any(result(o) for o in lost):
                rep.undecided(key, what, '', str(sorted(lost[0].lost)) if lost else 'no exit')
            else:
                rep.holds(key, what, where(I, good[0]))
