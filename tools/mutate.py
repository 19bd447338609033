"""Mutation campaign: random small source edits against the checks of the edited file.

python tools/mutate.py FILE[:function] N SEED OUT.jsonl   (works on a scratch copy of /repo and of this directory)
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'newt/glib.py': ['P01', 'P02', 'P03', 'P35'], 'newt/pg2Multi.py': ['P04', 'P05', 'P06', 'P35'], 'newt/rotations.py': ['P07', 'P08', 'P35'],
    'newt/translations.py': ['P09', 'P10', 'P11', 'P35'], 'newt/translationRecurs.py': ['P09', 'P10', 'P11', 'P35'],
    'newt/clebschGordan.py': ['P12'], 'newt/multipoleLib.py': ['P13', 'P14', 'P15', 'P35'], 'newt/qlm.py': ['P16', 'P17', 'P23', 'P35'],
    'newt/qlmACH.py': ['P18', 'P19', 'P23', 'P35'], 'newt/qlmNum.py': ['P20', 'P23'], 'newt/bigQlm.py': ['P21', 'P23'], 'newt/bigQlmNum.py': ['P22', 'P23'],
    'newt/glibShapes.py': ['P24', 'P26'], 'newt/gShapeGL.py': ['P25'], 'newt/read_multiFor.py': ['P27', 'P28'], 'newt/shapes.py': ['P29'], 'newt/genCAD.py': ['P30']}
SKIP = {'display_points', '__repr__'}


def spans(src):
    off = [0]
    for line in src.split('\n'):
        off.append(off[-1]+len(line.encode())+1)
    return off


class Site(list):
    pass


def mutants(src, only=None):
    """(start, end, replacement, function, description) with byte offsets."""
    off = spans(src)
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(n, new, fn, what):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, fn, f'line {n.lineno}: {seg(n)[:60]!r} -> {new[:60]!r} ({what})'))

    def between(l, r, fn, old, new):
        s, e = pos(l)[1], pos(r)[0]
        t = b[s:e].decode()
        k = t.find(old)
        if k >= 0:
            ln = l.end_lineno
            out.append((s+k, s+k+len(old), new, fn, f'line {ln}: operator {old} -> {new} in {seg(l)[-30:]!r} {old} {seg(r)[:30]!r}'))

    def visit(node, fn, names):
        for n in ast.iter_child_nodes(node):
            f2, nm = fn, names
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if n.name in SKIP:
                    continue
                f2 = n.name if fn is None or isinstance(node, ast.Module) else fn+'.'+n.name
                if isinstance(n, ast.FunctionDef):
                    nm = [a.arg for a in n.args.args]
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'print':
                continue
            if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.JoinedStr):
                continue
            if f2 is not None:
                if isinstance(n, ast.BinOp):
                    ops = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/']), ast.Div: ('/', ['*']), ast.Mod: ('%', ['+'])}
                    if type(n.op) in ops:
                        o, rs = ops[type(n.op)]
                        for r in rs:
                            between(n.left, n.right, f2, o, r)
                    if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant):
                        add(n.right, str(n.right.value+1), f2, 'power')
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    add(n, seg(n.operand), f2, 'sign')
                if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    if type(n.value) is int:
                        add(n, str(n.value+1), f2, 'constant')
                        add(n, str(n.value-1) if n.value > 0 else '(-1)', f2, 'constant')
                    else:
                        add(n, repr(n.value*1.5+0.1), f2, 'constant')
                if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    add(n, str(not n.value), f2, 'flag')
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    cm = {ast.Lt: ('<', ['<=', '>']), ast.LtE: ('<=', ['<']), ast.Gt: ('>', ['>=', '<']), ast.GtE: ('>=', ['>']), ast.Eq: ('==', ['!=']), ast.NotEq: ('!=', ['=='])}
                    if type(n.ops[0]) in cm:
                        o, rs = cm[type(n.ops[0])]
                        for r in rs:
                            between(n.left, n.comparators[0], f2, o, r)
                if isinstance(n, ast.BoolOp):
                    o = 'and' if isinstance(n.op, ast.And) else 'or'
                    between(n.values[0], n.values[1], f2, o, 'or' if o == 'and' else 'and')
                if isinstance(n, ast.Attribute):
                    sw = {'cos': 'sin', 'sin': 'cos', 'real': 'imag', 'imag': 'real', 'min': 'max', 'max': 'min', 'fliplr': 'flipud', 'floor': 'ceil', 'ceil': 'floor',
                          'zeros': 'ones', 'arccos': 'arcsin', 'tan': 'sin'}
                    if n.attr in sw:
                        t = seg(n)
                        add(n, t[:-len(n.attr)]+sw[n.attr], f2, 'function')
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('conj', 'copy', 'abs', 'real') and len(n.args) == 1:
                    add(n, '('+seg(n.args[0])+')', f2, 'unwrapped call')
                if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
                    i = random.randrange(len(n.args)-1)
                    a, c = n.args[i], n.args[i+1]
                    s, e = pos(a)[0], pos(c)[1]
                    if seg(a) != seg(c):
                        mid = b[pos(a)[1]:pos(c)[0]].decode()
                        out.append((s, e, seg(c)+mid+seg(a), f2, f'line {n.lineno}: arguments swapped in {seg(n)[:70]!r}'))
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in nm and len(nm) > 1:
                    o = random.choice([x for x in nm if x != n.id])
                    add(n, o, f2, 'other argument')
                if isinstance(n, ast.AugAssign):
                    add(n, 'pass', f2, 'statement dropped')
                if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                    add(n, 'pass', f2, 'statement dropped')
                if isinstance(n, ast.If):
                    add(n.test, f'not ({seg(n.test)})', f2, 'condition')
            visit(n, f2, nm)
    visit(tree, None, [])
    return [m for m in out if only is None or m[3].split('.')[0] == only]


M_OPS = [(r'(?<![.\w\-+*/(=,;\[ ])\s*-\s*(?=[\w(])', '+'), (r'\+', '-'), (r'\.?\*(?!\*)', '/'), (r'(?<=[\w)\] ])\.?/', '*'), (r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!~])<(?!=)', '<='), (r'(?<![<>=!])>(?!=)', '>='),
         (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'), (r'\b2\.0\b', '3.0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b3\b', '4'), (r'\b0\b', '1'), (r'conj', 'real'), (r'sqrt', 'abs'), (r'==', '!='), (r'floor', 'ceil'),
         (r'rows', 'columns'), (r'&&', '||'), (r'\bj\b', 'i'), (r'\bnypoints\b', 'nxpoints'), (r'\bmean\b', 'max')]


def m_mutants(src):
    out, o = [], 0
    for i, line in enumerate(src.split('\n')):
        code = re.split(r'[%#]', line)[0]
        if line.startswith('%!'):
            break
        if not code.strip().startswith('function'):
            for pat, new in M_OPS:
                for m in re.finditer(pat, code):
                    out.append((o+m.start(), o+m.end(), new, 'm', f'line {i+1}: {code.strip()[:70]!r} {m.group(0)!r} -> {new!r}'))
        o += len(line.encode())+1
    return out


M_CHECKS = {'Gmmr2Array': ['P31'], 'pointMatrixGravity': ['P31'], 'rotatePMArray': ['P32'], 'translatePMArray': ['P32'], 'YLM': ['P33'], 'computeMoments': ['P33'], 'computeMomentSummary': ['P33'],
            'fundamentalConstants': ['P31'], 'scanCenterAndRemoveLinear': ['P36'], 'scanToPMArray': ['P36'], 'genPointMassArrayFrom2DArray': ['P34', 'P36']}


def main():
    target, N, seed, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    file, _, only = target.partition(':')
    random.seed(seed)
    work = f'/tmp/mut{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(['git', 'clone', '-q', '/repo', work+'/repo'], check=True)
    for d in ('checks', 'lib'):
        shutil.copytree(f'{V}/{d}', f'{work}/v/{d}')
    for f in ('run.py', 'known_findings.json'):
        shutil.copy(f'{V}/{f}', f'{work}/v/{f}')
    src = open(f'{work}/repo/{file}').read()
    b = src.encode()
    mfile = file.endswith('.m')
    ms = m_mutants(src) if mfile else mutants(src, only or None)
    random.shuffle(ms)
    checks = M_CHECKS.get(os.path.basename(file)[:-2], ['P34']) if mfile else CHECKS[file]
    env = dict(os.environ, VERIF_REPO=work+'/repo', VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
    done = 0
    for s, e, new, fn, what in ms:
        if done >= N:
            break
        mut = b[:s]+new.encode()+b[e:]
        if not mfile:
            try:
                compile(mut, file, 'exec')
            except SyntaxError:
                continue
        done += 1
        with open(f'{work}/repo/{file}', 'wb') as f:
            f.write(mut)
        res, t0 = None, time.time()
        for c in checks:
            try:
                r = subprocess.run(['/opt/venv/bin/python', 'run.py', c, '--tier', 'quick'], cwd=work+'/v', env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res = ('timeout', c)
                break
            if r.returncode == 1:
                res = ('caught', c, r.stdout.strip().split('\n')[0][:160])
                break
            if r.returncode != 0:
                res = ('error', c, (r.stdout+r.stderr)[-300:])
                break
        if res is None:
            res = ('SURVIVED', ','.join(checks))
        with open(outp, 'a') as f:
            f.write(json.dumps(dict(file=file, fn=fn, what=what, res=res, t=round(time.time()-t0, 1)))+'\n')
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
