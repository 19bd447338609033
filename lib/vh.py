"""Small property-based-testing harness on top of Hypothesis.

A check module builds a Check, registers clauses (strategy + body) and the
driver (run.py) executes them.  Every clause is a pure function of a
JSON-able `case`, so a shrunk failure is saved as JSON and replayed without
Hypothesis (run.py PXX --replay FILE).
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Violation(Exception):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


class Ctx:
    """Per-case context: classification, soft checks, known findings."""

    def __init__(self, known):
        self.known = known          # {site: finding}
        self.known_hits = set()
        self.labels = []
        self.is_nt = False
        self.excluded = 0

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.is_nt = True

    def check(self, cond, msg, site=None):
        if bool(cond):
            return
        if callable(msg):
            msg = msg()
        self.fail(msg, site)

    def fail(self, msg, site=None):
        if site is not None and site in self.known:
            self.known_hits.add(site)
            self.excluded += 1
            return
        raise Violation(msg if site is None else f'[{site}] {msg}')

    def call(self, fn, *a, **k):
        """Call the code under test; any exception is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, HarnessError):
            raise
        except RecursionError:
            raise Violation(f'{fname(fn)} recursed without end')
        except Exception as e:
            raise Violation(f'{fname(fn)} raised {type(e).__name__}: {e}')

    def close(self, got, want, tol, what, site=None):
        """|got - want| <= tol elementwise; shapes must agree."""
        import numpy as np
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(complex)
        except Exception as e:
            return self.fail(f'{what}: result is not numeric ({e})', site)
        w = np.asarray(want)
        if g.shape != w.shape:
            return self.fail(f'{what}: shape {g.shape}, expected {w.shape}', site)
        if g.dtype.kind not in 'biufc':
            return self.fail(f'{what}: result is not numeric ({g.dtype})', site)
        t = np.broadcast_to(np.asarray(tol, dtype=float), w.shape)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(g - w) <= t)
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if w.shape else ()
            return self.fail(f'{what}: at {tuple(int(j) for j in i)} got {g[i]!r}, expected '
                             f'{w[i]!r} (|diff| {abs(g[i]-w[i]):.3g} > {t[i]:.3g})', site)


def fname(fn):
    return f"{getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', repr(fn))}"


class Clause:
    def __init__(self, name, strategy, body, quick, thorough, shards, examples, near=()):
        self.name, self.strategy, self.body = name, strategy, body
        self.n = {'quick': quick, 'thorough': thorough}
        self.shards = shards
        self.examples = examples
        self.near = tuple(near)


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.clauses = []
        self.pre = None

    def clause(self, strategy, quick=200, thorough=4000, shards=1, examples=(), near=()):
        def deco(body):
            self.clauses.append(Clause(body.__name__, strategy, body, quick,
                                       thorough, shards, list(examples), near))
            return body
        return deco


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        data = json.load(f)
    return {k['site']: k for k in data.get('findings', []) if k['property'] == pid}


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_case(cl, case, known):
    ctx = Ctx(known)
    import numpy as np
    with np.errstate(all='ignore'):
        try:
            cl.body(case, ctx)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1]
            raise Violation(f'{type(e).__name__}: {e} (at {where.filename}:{where.lineno}; '
                            f'the result could not be used)')
    return ctx


def nudge(case, keys):
    """A neighbour of a case: the numbers under the given keys changed in the 4th to 9th digit."""
    h = int(key(case), 16)

    def f(x, i):
        if isinstance(x, bool) or not isinstance(x, (int, float, list, dict)):
            return x
        if isinstance(x, list):
            return [f(y, i*31+j+1) for j, y in enumerate(x)]
        if isinstance(x, dict):
            return {k: f(v, i*31+j+7) for j, (k, v) in enumerate(x.items())}
        if isinstance(x, int):
            return x
        g = (h >> (i % 40)) & 1023
        return x*(1+(1 if g & 1 else -1)*10.0**-(3+(h+i) % 6))
    return {k: (f(v, i) if k in keys else v) for i, (k, v) in enumerate(case.items())}


_DEADLINE = [float('inf')]
SHRINK_S = float(os.environ.get('VERIF_SHRINK_S', '25'))


def run_task(args):
    check, idx, shard, seed, tier = args
    cl = check.clauses[idx]
    known = load_known(check.pid)
    out = dict(clause=cl.name, evaluations=0, keys=set(), samples=[], labels={},
               known=set(), excluded=0, failure=None, error=None, cut=0, again=0)
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    state = dict(failing={}, t0=None, prev=None, n=0)
    n = cl.n[tier]
    n = max(1, math.ceil(n / cl.shards)) if cl.shards > 1 else n

    def one(case):
        if state['t0'] is not None:
            k = key(case)
            if k in state['failing']:
                raise Violation(state['failing'][k][1])
            if time.time() - state['t0'] > SHRINK_S:
                return
        elif time.time() > _DEADLINE[0]:
            out['cut'] += 1
            return
        try:
            ctx = run_case(cl, case, known)
        except Violation as v:
            if state['t0'] is None:
                state['t0'] = time.time()
            k = key(case)
            state['failing'][k] = (case, str(v), [])
            raise
        if state['t0'] is None:
            state['n'] += 1
            history(case)
            out['evaluations'] += 1
            out['known'] |= ctx.known_hits
            out['excluded'] += ctx.excluded
            for lb in ctx.labels:
                out['labels'][lb] = out['labels'].get(lb, 0) + 1
            if ctx.is_nt:
                k = key(case)
                if k not in out['keys']:
                    out['keys'].add(k)
                    if len(out['samples']) < 2 and (len(out['keys']) in (3, 40) or n < 40):
                        s = json.dumps(case)
                        out['samples'].append(case if len(s) < 3000 else s[:3000])

    def history(case):
        """Results must not depend on earlier calls: an earlier case again, and a close neighbour of this one."""
        todo = []
        if state['n'] % 6 == 0 and state['prev'] is not None:
            todo.append((state['prev'], [state['prev'], case]))
        if cl.near and state['n'] % 4 == 0:
            todo += [(nudge(case, cl.near), [case])]
        state['prev'] = case
        for again, before in todo:
            try:
                run_case(cl, again, known)
            except Violation as v:
                state['t0'] = time.time()
                state['failing'][key(case)] = (again, f'after other cases: {v}', before)
                raise
            out['again'] += 1

    try:
        if shard == 0:
            for ex in cl.examples:
                try:
                    one(ex)
                except Violation as v:
                    out['failure'] = (ex, str(v), [])
                    return out
        if n > 0 and cl.strategy is not None:
            @hypothesis.seed(seed * 1009 + shard * 31 + idx)
            @settings(max_examples=n, deadline=None, database=None, print_blob=False,
                      report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @given(cl.strategy)
            def test(case):
                one(case)
            try:
                test()
            except Violation as v:
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseException as e:      # ExceptionGroup etc.
                if not state['failing']:
                    raise
            if state['failing']:
                # the smallest failing case seen
                out['failure'] = min(state['failing'].values(),
                                     key=lambda cm: (len(cm[2]), len(json.dumps(cm[0])), json.dumps(cm[0])))
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))[-4000:]
    return out


def _init_worker():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import warnings
    warnings.simplefilter('ignore')
    try:
        import numpy as np
        np.seterr(all='ignore')
    except Exception:
        pass


def drive(check, tier, seed, only=None):
    t0 = time.time()
    _DEADLINE[0] = t0+float(os.environ.get('VERIF_BUDGET_S', '480' if tier == 'quick' else '10000'))
    tasks = []
    for i, cl in enumerate(check.clauses):
        if only and cl.name not in only:
            continue
        for s in range(cl.shards):
            tasks.append((check, i, s, seed, tier))
    if check.pre:
        check.pre()
    results = []
    global _CHECK
    _CHECK = check
    ctxm = mp.get_context('fork')
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    with ctxm.Pool(min(nproc, max(1, len(tasks))), initializer=_init_worker) as pool:
        it = [pool.apply_async(_task_by_index, ((i, s, sd, tr),))
              for (_, i, s, sd, tr) in tasks]
        for r in it:
            results.append(r.get())
    ev, keys, samples, labels, known, excluded, cut = 0, set(), [], {}, set(), 0, 0
    per = {}
    failures, errors = [], []
    for r in results:
        ev += r['evaluations']
        keys |= {r['clause'] + k for k in r['keys']}
        if r['samples'] and len(samples) < 12:
            samples.append({'clause': r['clause'], 'case': r['samples'][0]})
        p = per.setdefault(r['clause'], dict(evaluations=0, nontrivial=0, labels={}))
        p['evaluations'] += r['evaluations']
        p['nontrivial'] += len(r['keys'])
        p['rerun'] = p.get('rerun', 0)+r['again']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        known |= r['known']
        excluded += r['excluded']
        cut += r['cut']
        if r['failure']:
            failures.append((r['clause'],) + tuple(r['failure']))
        if r['error']:
            errors.append((r['clause'], r['error']))
    findings = load_known(check.pid)
    for site in sorted(known):
        print(f"KNOWN-FINDING: property={check.pid} {findings[site]['what']}")
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    rc = 0
    seen = set()
    for name, case, msg, before in failures:
        if name in seen:
            continue
        seen.add(name)
        rp = os.path.join(evd, 'replay', f'{check.pid}-{name}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=check.pid, clause=name, before=before, case=case, message=msg), f, indent=1)
        print(f'{check.pid}/{name}: {msg}')
        print(f'VIOLATION property={check.pid} replay={rp}')
        rc = 1
    if errors:
        for name, e in errors:
            print(f'HARNESS ERROR in {check.pid}/{name}:\n{e}', file=sys.stderr)
        if rc == 0:
            rc = 2
    if not samples:
        samples = [{'clause': c.name, 'case': None} for c in check.clauses[:1]]
    cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=check.rule,
               samples=samples, per_clause=per, excluded_known=excluded,
               cut_by_time_budget=cut)
    doc = dict(property=check.pid, tier=tier, seed=seed, level='exploration', coverage=cov,
               assumptions=check.assumptions, wall_s=round(time.time() - t0, 2),
               violations=len(seen))
    if not only:
        tmp = os.path.join(evd, f'.{check.pid}.tmp')
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        os.replace(tmp, os.path.join(evd, f'{check.pid}.json'))
    print(f'{check.pid}: {ev} cases, {len(keys)} distinct non-trivial, '
          f'{len(seen)} violations, {doc["wall_s"]} s')
    return rc


def _task_by_index(a):
    i, s, sd, tr = a
    return run_task((_CHECK, i, s, sd, tr))
