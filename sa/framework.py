"""Check driver: obligations, evidence, replay reports, known findings."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')


def known_findings(prop):
    """keys listed as findings for this property: {key: text}"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: '):
                    rest = line[len('finding: '):]
                    toks = rest.split(' ', 2)
                    if toks[0] == f'property={prop}' and toks[1].startswith('key='):
                        out[toks[1][4:]] = toks[2] if len(toks) > 2 else ''
    return out


class Anchor(Exception):
    """a construct the check is anchored to is no longer there"""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []               # (key, status, what, where, detail)
        self.seen = set()
        self.notes = []
        self.analysed = set()
        self.rule = ''
        self.extra = {}
        self.t0 = time.time()

    def add(self, key, status, what='', where='', detail=''):
        if key in self.seen:
            i = 2
            while f'{key}~{i}' in self.seen:
                i += 1
            key = f'{key}~{i}'
        self.seen.add(key)
        self.obs.append((key, status, what, where, detail))

    def holds(self, key, what='', where=''):
        self.add(key, 'holds', what, where)

    def bad(self, key, what, where, detail=''):
        self.add(key, 'violated', what, where, detail)

    def undecided(self, key, what='', where='', detail=''):
        self.add(key, 'undecided', what, where, detail)

    def note(self, s):
        self.notes.append(s)


def finish(rep, mod, rc_override=None):
    prop = rep.prop
    known = known_findings(prop)
    viol = [o for o in rep.obs if o[1] == 'violated']
    und = [o for o in rep.obs if o[1] == 'undecided']
    hold = [o for o in rep.obs if o[1] == 'holds']
    new = [o for o in viol if o[0] not in known]
    old = [o for o in viol if o[0] in known]
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    replay = os.path.join(rdir, f'{prop}.txt')
    lines = []
    for o in old:
        print(f'KNOWN-FINDING: property={prop} key={o[0]} {o[2]} [{o[3]}]')
    if new:
        os.makedirs(rdir, exist_ok=True)
        with open(replay, 'w', encoding='utf-8') as f:
            f.write(f'property {prop}: {len(new)} obligation(s) violated\nrule: {rep.rule}\n\n')
            for key, status, what, where, detail in new:
                f.write(f'* {key}\n  what:  {what}\n  where: {where}\n')
                for ln in (detail or '').splitlines():
                    f.write(f'    {ln}\n')
                f.write('\n')
        for key, status, what, where, detail in new[:12]:
            print(f'  {key}: {what} [{where}]')
        print(f'VIOLATION property={prop} replay={replay}')
    else:
        if os.path.exists(replay):
            os.remove(replay)
    floor = getattr(mod, 'FLOOR', 1)
    decided = len(hold) + len(viol)
    rc = 1 if new else 0
    if rc == 0 and len(rep.obs) < floor:
        print(f'{prop}: only {len(rep.obs)} obligations were found (expected at least {floor})', file=sys.stderr)
        rc = 2
    elif rc == 0 and decided < floor:
        print(f'{prop}: only {decided} of {len(rep.obs)} obligations could be decided; no violation among them')
    ev = {
        'property': prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': rep.rule,
            'obligations': len(rep.obs), 'discharged': len(hold), 'violated': len(viol), 'undecided': len(und),
            'known_findings': [o[0] for o in old],
            'functions_analysed': sorted(rep.analysed),
            'functions_analysed_count': len(rep.analysed),
            'undecided_list': [f'{o[0]}: {o[4] or o[2]}'[:300] for o in und][:60],
            'samples': [f'{o[0]}: {o[2]}'[:240] for o in hold[:6]],
            'notes': rep.notes,
            **rep.extra,
        },
        'wall_s': round(time.time() - rep.t0, 3),
    }
    with open(os.path.join(EVID, f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f'{prop}: {len(hold)} obligations hold, {len(viol)} violated ({len(old)} known), {len(und)} undecided; '
          f'{len(rep.analysed)} functions analysed in {ev["wall_s"]} s')
    return rc


def main(argv):
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in argv:
        tier = 'quick'
    mod = importlib.import_module('checks.' + prop.lower())
    rep = Report(prop, tier)
    try:
        mod.run(rep)
    except Anchor as e:
        print(f'{prop}: anchor missing: {e}', file=sys.stderr)
        finish(rep, mod)
        return 2
    except SyntaxError as e:
        print(f'{prop}: source does not parse: {e}', file=sys.stderr)
        return 2
    rc = finish(rep, mod)
    if '-v' in argv:
        for o in rep.obs:
            if o[1] != 'holds' or '-vv' in argv:
                print('   ', o[1].upper(), o[0], '|', o[2], '|', o[3], '|', o[4][:400])
    return rc
