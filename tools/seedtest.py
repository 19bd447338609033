"""Validate planted bugs: python tools/seedtest.py [--no-tests] [--check P..] ID...

For each: scratch copy of /repo + patch; original lines changed; build (imports); stable tests; demo 0/nonzero; the property's quick check.
Prints one line per bug. Not used by any registered check.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'fbb3c2e'


def sh(cmd, cwd=None, env=None, t=1500):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


def own_lines(root, patch):
    """True when some removed or edited line is of the base commit (or the hunk only adds next to base lines)."""
    touched = []
    for hunk in re.finditer(r'^--- a/(\S+)\n\+\+\+ .*\n((?:(?!^diff ).*\n)*)', patch, re.M):
        f, ln = hunk.group(1), None
        for line in hunk.group(2).split('\n'):
            m = re.match(r'@@ -(\d+)', line)
            if m:
                ln = int(m.group(1))
            elif ln and line.startswith('-'):
                touched.append((f, ln))
                ln += 1
            elif ln and not line.startswith('+'):
                ln += 1
    bad = []
    for f, ln in touched:
        b = sh(f'git blame -s -L{ln},{ln} HEAD -- {f}', '/repo').stdout.split(' ')[0].lstrip('^')
        if not (b.startswith(BASE[:7]) or BASE.startswith(b[:7])):
            bad.append((f, ln, b))
    return touched, bad


def stable(root, out, work):
    s = open('/opt/vp/test.sh').read().replace('/repo', root).replace('W=/opt/vp/work', f'W={work}')
    s = s.replace('/opt/vp/octave/run_blocks.m', work+'/run_blocks.m').replace('-n 4', '-n 3')
    os.makedirs(work+'/blocks', exist_ok=True)
    with open(work+'/run_blocks.m', 'w') as fh:
        fh.write(open('/opt/vp/octave/run_blocks.m').read().replace('/repo', root))
    with open(work+'/test.sh', 'w') as fh:
        fh.write(s)
    r = sh(f'PYTHONPATH={root} bash {work}/test.sh {out}')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
        return base - set(json.load(open(out))['passed'])
    except (OSError, ValueError):
        return {'no result', r.stderr[-300:]}


def one(sid, tests=True, checks=None):
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(d+'/meta.json'))
    root, work = f'/tmp/st_{sid}/repo', f'/tmp/st_{sid}/work'
    shutil.rmtree(f'/tmp/st_{sid}', ignore_errors=True)
    os.makedirs(work)
    out = []
    try:
        shutil.copytree('/repo', root, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        dd = f'/tmp/st_{sid}/demo'
        shutil.copytree(d, dd)
        r = sh(f'bash {dd}/demo.sh', root, t=300)
        out.append(f'demo-clean={r.returncode}' + (' '+(r.stdout+r.stderr)[-200:] if r.returncode else ''))
        r = sh(f'git init -q . && git apply --check {d}/patch.diff && git apply {d}/patch.diff', root)
        if r.returncode:
            return sid, 'PATCH FAILS '+r.stderr[:300]
        shutil.rmtree(root+'/.git')
        touched, bad = own_lines(root, open(d+'/patch.diff').read())
        if bad or not touched:
            out.append(f'BLAME {bad} touched={len(touched)}')
        r = sh(f'bash {dd}/demo.sh', root, t=300)
        out.append(f'demo-bug={r.returncode}')
        if tests:
            miss = stable(root, f'/tmp/st_{sid}/t.json', work)
            out.append('tests-ok' if not miss else f'TESTS FAIL {sorted(miss)[:3]}')
        for c in checks or [meta['property']]:
            r = sh(f'{sys.executable} {V}/run.py {c} --tier quick', V, {'VERIF_REPO': root, 'VERIF_SEED': '1', 'VERIF_EVIDENCE': f'/tmp/st_{sid}/ev'})
            line = [x for x in r.stdout.split('\n') if 'VIOLATION' in x]
            out.append(f'{c}:{"CAUGHT" if r.returncode == 1 and line else "missed"} rc={r.returncode} {(r.stdout.strip().splitlines() or [""])[0][:150]}')
    finally:
        shutil.rmtree(f'/tmp/st_{sid}', ignore_errors=True)
    return sid, ' | '.join(out)


if __name__ == '__main__':
    args = sys.argv[1:]
    tests = '--no-tests' not in args
    args = [a for a in args if a != '--no-tests']
    ck = None
    if '--check' in args:
        k = args.index('--check')
        ck = args[k+1].split(',')
        del args[k:k+2]
    for s in args or sorted(os.listdir(V+'/seeded')):
        print(*one(s, tests, ck), flush=True)
