"""A persistent Octave process; values cross as text with full precision."""
import os
import re
import subprocess
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class OctaveError(Exception):
    pass


def lit(a):
    if isinstance(a, str):
        return "'" + a.replace("'", "''") + "'"
    a = np.asarray(a, float)
    if a.ndim == 0:
        return f'({float(a)!r})'.replace('inf', 'Inf').replace('nan', 'NaN')
    if a.size == 0:
        return f'zeros({a.shape[0]},{a.shape[1] if a.ndim > 1 else 0})'
    rows = np.atleast_2d(a)
    return '['+';'.join(','.join(repr(float(x)) for x in r) for r in rows).replace('inf', 'Inf').replace('nan', 'NaN')+']'


class Octave:
    def __init__(self):
        self.p = None

    def start(self):
        src = os.path.join(REPO, 'matlab-src')
        self.p = subprocess.Popen(['octave-cli', '--no-init-file', '--no-history', '-q', '--no-window-system'], cwd='/tmp',
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1,
                                  env=dict(os.environ, HOME='/tmp', OMP_NUM_THREADS='1'))
        self.pid = os.getpid()
        self.send("warning('off','all'); more off; page_screen_output(false); "
                  f"addpath('{src}'); addpath('{src}/shapes'); pkg load gsl;")

    def send(self, code):
        self.p.stdin.write(f'try, {code} disp(""); printf("@OK@\\n"); catch e, printf("@ERR@%s@\\n", strrep(e.message, "\\n", " ")); end, fflush(stdout);\n')
        self.p.stdin.flush()
        out = []
        while True:
            s = self.p.stdout.readline()
            if not s:
                self.p = None
                raise RuntimeError('Octave ended unexpectedly: '+''.join(out)[-300:])
            m = re.search(r'@ERR@(.*)@$', s.rstrip('\n'))
            if m:
                raise OctaveError(m.group(1))
            if s.startswith('@OK@'):
                return out
            out.append(s)

    def call(self, fn, *args, nargout=1, pre='', lits=None):
        if self.p is None or self.pid != os.getpid() or self.p.poll() is not None:
            self.start()
        names = ','.join(f'r{i}_' for i in range(nargout))
        show = ''.join(f'printf("@V@ %d %d %d\\n", size(r{i}_,1), size(r{i}_,2), iscomplex(r{i}_)); printf("%.17g ", real(r{i}_)); '
                       f'printf("\\n@I@\\n"); printf("%.17g ", imag(r{i}_)); printf("\\n"); ' for i in range(nargout))
        out = self.send(f'{pre} [{names}] = {fn}({lits or ",".join(lit(a) for a in args)}); {show}')
        res, i = [], 0
        while i < len(out):
            if out[i].startswith('@V@'):
                n, m, cx = map(int, out[i].split()[1:])
                re_ = np.array(out[i+1].split(), float).reshape(m, n).T
                im = np.array(out[i+3].split(), float).reshape(m, n).T
                res.append(re_+1j*im if cx else re_)
                i += 4
            else:
                i += 1
        return res[0] if nargout == 1 else res

    def value(self, code, expr):
        """Run code, then return the matrix expr."""
        return self.call('deal', pre=f'{code}; x_ = {expr}; ', lits='x_')

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


_O = None


def call(fn, *args, **k):
    return _get().call(fn, *args, **k)


def value(code, expr):
    return _get().value(code, expr)


def _get():
    global _O
    if _O is None or _O.p is None or getattr(_O, 'pid', None) != os.getpid():
        import atexit
        _O = Octave()
        _O.start()
        atexit.register(_O.close)
    return _O
