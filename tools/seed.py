"""Build the planted changes of /verif/seeded from the list in tools/seeds/*.py.

usage: seed.py [-c] [ID...]     (all when no ID is given; -c also runs the property's check against each)

Every entry of a seeds file is a dict: id, prop, needs, breaks, edits [(file, old, new)...], demo (python text).
A change is kept only when the demonstration passes on the unchanged tree, fails with the change, and the
repository's own tests still pass with it.  Works in a scratch copy under /tmp.
"""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, 1 with the planted change
d="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/distribution/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(cwd):
    r = sh(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-header', 'tests'],
           cwd + '/distribution', env={**os.environ, 'PYTHONPATH': cwd + '/distribution/src', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'})
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]


def main(argv):
    check = '-c' in argv
    want = [a for a in argv if not a.startswith('-')]
    seeds = []
    for f in sorted(glob.glob(HERE + '/tools/seeds/*.py')):
        seeds += runpy.run_path(f)['SEEDS']
    for s in seeds:
        if want and s['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='seed')
        try:
            tree = d + '/repo'
            sh(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), tree], d)
            for f, old, new in s['edits']:
                p = f'{tree}/distribution/src/jadn/{f}'
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT', t.count(old), 'matches in', f, ':', old[:60])
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                out = f'{HERE}/seeded/{s["id"]}'
                os.makedirs(out, exist_ok=True)
                diff = sh(['git', 'diff'], tree).stdout
                open(out + '/patch.diff', 'w').write(diff)
                # every removed line must be one of the original repository
                note = ''
                base = '7822653'
                orig = {}
                for f, old, new in s['edits']:
                    fp = f'distribution/src/jadn/{f}'
                    orig[fp] = set(sh(['git', 'show', f'{base}:{fp}'], '/repo').stdout.splitlines())
                cur = None
                for line in diff.splitlines():
                    if line.startswith('--- a/'):
                        cur = line[6:]
                    elif line.startswith('-') and not line.startswith('---') and line[1:] not in orig[cur]:
                        note += ' NOT-ORIGINAL:' + line[:60]
                open(out + '/demo.sh', 'w').write(DEMO)
                os.chmod(out + '/demo.sh', 0o755)
                open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(out + '/meta.json', 'w'), indent=2)
                ok = sh(['bash', out + '/demo.sh'], '/repo')
                bad = sh(['bash', out + '/demo.sh'], tree)
                tr = tests(tree)
                line = f'{s["id"]} {s["prop"]}: unchanged={ok.returncode} changed={bad.returncode} tests: {tr}{note}'
                if ok.returncode or not bad.returncode or 'failed' in tr or note:
                    shutil.rmtree(out)
                    line = 'REJECTED ' + line
                if ok.returncode:
                    line += '\n   ' + (ok.stdout + ok.stderr)[-600:]
                if check:
                    r = sh([sys.executable, '-W', 'ignore', HERE + '/sa/run.py', s['prop']], HERE,
                           env={**os.environ, 'JADN_REPO': tree, 'SA_EVIDENCE': d + '/ev'})
                    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
                    line += f'\n   check {s["prop"]}: exit {r.returncode} {v[0][:150] if v else "NOT CAUGHT"} {r.stderr[-300:]}'
                print(line, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main(sys.argv[1:])
