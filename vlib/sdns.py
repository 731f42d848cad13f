"""Access to the code under test, and the recorder the monitors write to."""
import importlib
import sys

import numpy as np


class Skip(Exception):
    pass


class Recorder(object):
    """What the monitors of one case observed."""

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.obs = {}
        self.skipped = None
        self.nontrivial = False
        self.sample = None
        self.maxes = {}
        self.sets = {}

    def count(self, name, n=1):
        self.obs[name] = self.obs.get(name, 0) + n

    def seen(self, name, value):
        self.sets.setdefault(name, set()).add(str(value))

    def maximum(self, name, value):
        value = float(value)
        if not (value <= self.maxes.get(name, -np.inf)):
            self.maxes[name] = value

    def violation(self, sig, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append(dict(sig=sig, msg=msg, detail=detail))

    def close(self, what, got, want, tol, scale=None, sig=None, **detail):
        """Monitor: got equals want to within tol (relative to scale)."""
        self.count('comparisons')
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.violation(sig or what, '%s: shape %s, expected %s' % (what, got.shape, want.shape), **detail)
            return False
        if scale is None:
            scale = np.max(np.abs(want)) if want.size else 0.0
            scale = scale if scale > 0 else 1.0
        d = np.abs(got - want)
        err = float(np.max(d) / scale) if d.size else 0.0
        self.maximum('err:' + (sig or what).split(':')[0], err if np.isfinite(err) else 1e300)
        if not err <= tol:
            idx = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.shape else ()
            self.violation(sig or what, '%s: error %.3e > %.1e at %s (got %r, expected %r)' % (
                what, err, tol, tuple(int(i) for i in idx), got[idx], want[idx]), **detail)
            return False
        return True

    def check(self, cond, sig, msg, **detail):
        self.count('assertions')
        if not cond:
            self.violation(sig, msg, **detail)
        return bool(cond)

    def result(self):
        return dict(violations=self.violations, obs=self.obs, skipped=self.skipped,
                    nontrivial=self.nontrivial, sample=self.sample, maxes=self.maxes,
                    sets={k: sorted(v)[:200] for k, v in self.sets.items()})


KEEP_SUFFIX = ('numba_module',)


def purge():
    """Forgets the package, so that the next import starts from a clean state.

    Native extensions and the numba module (which hold no configuration) stay loaded.
    """
    for n in list(sys.modules):
        if n == 'spectralDNS' or n.startswith('spectralDNS.'):
            m = sys.modules[n]
            f = getattr(m, '__file__', None) or ''
            if f.endswith('.so') or n.endswith(KEEP_SUFFIX):
                continue
            del sys.modules[n]


KEEP = False    # the next runs go on in the package as the runs before left it


def fresh(mesh='triplyperiodic', params=None, args=(), hooks=None, pre=None):
    """Imports the package afresh and returns (spectralDNS, config, solver, context)."""
    if not KEEP:
        purge()
    sd = importlib.import_module('spectralDNS')
    config = sd.config
    p = dict(verbose=False)
    p.update(params or {})
    # what the solvers read while they are imported must be known before the import
    for k in ('optimization', 'precision'):
        if k in p:
            config.params[k] = p[k]
    config.update(p, mesh)
    if pre:
        pre(sd, config)
    solver = sd.get_solver(mesh=mesh, parse_args=[str(a) for a in args], **(hooks or {}))
    context = solver.get_context()
    return sd, config, solver, context


class Quiet(object):
    """Discards what the package prints (Python level)."""

    def __enter__(self):
        import io
        self.o = sys.stdout
        sys.stdout = io.StringIO()
        return sys.stdout

    def __exit__(self, *a):
        sys.stdout = self.o
