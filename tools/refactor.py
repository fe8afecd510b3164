"""Behaviour-preserving edits of the package, to see that the checks stay quiet.

usage: refactor.py [-t] [NAME...] [-- CHECK...]     (-t: run the package's tests too)
"""
import concurrent.futures as cf
import glob
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    tests = '-t' in argv
    argv = [a for a in argv if a != '-t']
    i = argv.index('--') if '--' in argv else len(argv)
    names, checks = argv[:i], argv[i + 1:]
    checks = checks or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(HERE + '/sa/checks/c*.py'))
    refs = []
    for f in sorted(glob.glob(HERE + '/tools/refactors/*.py')):
        refs += runpy.run_path(f)['REFACTORS']
    work = tempfile.mkdtemp(prefix='refac')
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for name, edits in refs:
            if names and not any(n in name for n in names):
                continue
            d = f'{work}/{name}'
            shutil.copytree(os.environ.get('JADN_REPO', '/repo') + '/distribution', d + '/distribution', ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
            bad = False
            for f, old, new in edits:
                p = f'{d}/distribution/src/jadn/{f}'
                t = open(p).read()
                if t.count(old) != 1:
                    print(name, 'EDIT', t.count(old), 'matches in', f, ':', old[:60])
                    bad = True
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                continue
            if tests:
                jobs.append((name, 'tests', ex.submit(subprocess.run, ['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-header', 'tests'],
                             cwd=d + '/distribution', capture_output=True, text=True, env={**os.environ, 'PYTHONPATH': d + '/distribution/src', 'PYTHONDONTWRITEBYTECODE': '1'})))
            for c in checks:
                jobs.append((name, c, ex.submit(subprocess.run, ['python3', '-W', 'ignore', HERE + '/sa/run.py', c], capture_output=True, text=True,
                             env={**os.environ, 'JADN_REPO': d, 'SA_EVIDENCE': f'{d}/ev{c}'})))
        for name, c, j in jobs:
            r = j.result()
            last = (r.stdout.strip().splitlines() or [r.stderr[-300:]])
            if c == 'tests':
                if ' failed' in last[-1] or 'passed' not in last[-1]:
                    print(name, 'TESTS', last[-1], flush=True)
                continue
            und = last[-1].split('known), ')[-1].split(' undecided')[0] if 'undecided' in last[-1] else '?'
            if r.returncode or und != '0':
                print(name, c, 'exit', r.returncode, 'undecided', und, last[0][:300] if r.returncode else '', flush=True)
    shutil.rmtree(work)
    print('done', len({n for n, _, _ in jobs}), 'refactorings')


if __name__ == '__main__':
    main(sys.argv[1:])
