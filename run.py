#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--clause NAME] [--replay FILE]"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import atexit
import importlib
import json
import shutil
import tempfile
import warnings

warnings.simplefilter('ignore')
scratch = tempfile.mkdtemp(prefix='verif-')
main_pid = os.getpid()


def _clean():
    if os.getpid() == main_pid:
        shutil.rmtree(scratch, ignore_errors=True)


atexit.register(_clean)
os.environ['VERIF_SCRATCH'] = scratch
os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
os.environ['TMPDIR'] = scratch
tempfile.tempdir = scratch
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import vh


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--clause', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if os.environ.get('VERIF_TRIGGERS'):
        sys.path.insert(0, os.path.join(HERE, 'tools'))
        import triggers
        triggers.install(os.environ['VERIF_TRIGGERS'])
    mod = importlib.import_module(a.pid.lower())
    check = mod.check
    import newt
    if not os.path.abspath(newt.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('wrong newt imported', newt.__file__, file=sys.stderr)
        return 2
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        cl = [c for c in check.clauses if c.name == rec['clause']][0]
        if check.pre:
            check.pre()
        try:
            for c in rec.get('before', []) + [rec['case']]:
                vh.run_case(cl, c, vh.load_known(check.pid))
        except vh.Violation as v:
            print(f'{a.pid}/{cl.name}: {v}')
            print(f'VIOLATION property={a.pid} replay={a.replay}')
            return 1
        print('replay: no violation')
        return 0
    return vh.drive(check, a.tier, seed, a.clause)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
