"""C07: native code stays inside its arrays (bounds-checked, sanitized and red-zoned executions)."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from checks import c06
from vlib import build as B, channel as C, chrun as H, env as E, launch, periodic as P, sdns, runner


CPPFLAGS = ['-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']


class Unraisable(object):
    """Index errors inside cdef functions cannot propagate; Python reports them here."""

    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        self.old = sys.unraisablehook

        def hook(u):
            if isinstance(u.exc_value, IndexError):
                self.rec.violation('bounds', 'IndexError in native code: %s %r' % (u.exc_value, u.object))
            else:
                self.old(u)
        sys.unraisablehook = hook

    def __exit__(self, *a):
        sys.unraisablehook = self.old


GUARD = 96


class Zones(object):
    """Arrays inside red zones of NaN: an access outside is seen as a changed zone or a NaN result."""

    def __init__(self):
        self.bufs = []

    def array(self, a):
        g = max(GUARD, a.shape[-1]*4 if a.ndim else 0)
        buf = np.full(a.size+2*g, np.nan, dtype=a.dtype)
        if np.iscomplexobj(buf):
            buf.imag = np.nan
        v = buf[g:g+a.size].reshape(a.shape)
        v[...] = a
        self.bufs.append((buf, g, a.size))
        return v

    def args(self, args):
        out = []
        for a in args:
            if isinstance(a, np.ndarray):
                out.append(self.array(a))
            elif isinstance(a, (list, tuple)) and all(isinstance(x, np.ndarray) for x in a):
                out.append(type(a)(self.array(x) for x in a))
            else:
                out.append(a)
        return tuple(out)

    def intact(self):
        for buf, g, n in self.bufs:
            for z in (buf[:g], buf[g+n:]):
                if not (np.all(np.isnan(z.real)) and (not np.iscomplexobj(z) or np.all(np.isnan(z.imag)))):
                    return False
        return True

    def poisoned(self):
        return any(np.any(np.isnan(buf[g:g+n])) for buf, g, n in self.bufs)


def kernels(case, rec):
    solver, prec, opt = case['solver'], case['precision'], case['opt']
    names = [n for n, (s, _, _) in c06.KERNELS.items() if (s == solver or (s is None and solver in ('NS', 'NS2D')))]
    with sdns.Quiet():
        c06.load(opt, prec, solver)
    for name in names:
        _, modname, attr = c06.KERNELS[name]
        fn = getattr(importlib.import_module(modname), attr, None)
        if fn is None:
            rec.count('kernel_not_found')
            continue
        for t, shape in enumerate(case['shapes']):
            rng = np.random.default_rng(case['seed']+t)
            args = c06.kernel_args(name, rng, prec, tuple(shape))
            zones = Zones()
            if case['zones']:
                args = zones.args(args)
            else:
                args = tuple(np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args)
            try:
                out = fn(*args)
            except TypeError:
                rec.count('kernel_signature_changed')
                continue
            except IndexError as e:
                rec.violation('bounds:%s' % name, '%s %s%s: %s' % (opt, name, tuple(shape), e))
                continue
            rec.count('native_calls')
            rec.seen('kernel', [opt, name, prec, tuple(shape)])
            rec.nontrivial = True
            if case['zones']:
                rec.check(zones.intact(), 'write outside:%s' % name, '%s %s%s wrote outside its arrays' % (opt, name, tuple(shape)))
                o = out[0] if isinstance(out, tuple) else out
                rec.check(not zones.poisoned() and not np.any(np.isnan(np.asarray(o))), 'read outside:%s' % name,
                          '%s %s%s read outside its arrays (poison in the result)' % (opt, name, tuple(shape)))


def walls(case, rec):
    """Wall-normal kernels on exact-size or red-zoned arrays."""
    LU = importlib.import_module('spectralDNS.shen.LUsolve')
    rng = np.random.default_rng(case['seed'])
    cplx = lambda *s: rng.standard_normal(s)+1j*rng.standard_normal(s)
    for N in case['sizes']:
        n1, n2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        for axis in (0, 1, 2):
            s = [n1, n2]
            s.insert(axis, N)
            z = Zones()
            a = [cplx(*s) for _ in range(4)]
            if case['zones']:
                a = [z.array(x) for x in a]
            LU.Mult_CTD_3D_ptr(N, a[0], a[1], a[2], a[3], axis)
            rec.count('native_calls')
            rec.seen('kernel', ['Mult_CTD_3D_ptr', N, axis])
            if case['zones']:
                rec.check(z.intact(), 'write outside:Mult_CTD', 'Mult_CTD_3D_ptr N=%d axis=%d wrote outside' % (N, axis))
                rec.check(not z.poisoned(), 'read outside:Mult_CTD', 'Mult_CTD_3D_ptr N=%d axis=%d read outside' % (N, axis))
        z = Zones()
        a = [rng.standard_normal((n1, n2)) for _ in range(2)]+[cplx(N-2, n1, n2) for _ in range(3)]+[cplx(N-3, n1, n2)]
        b = [cplx(N-2) for _ in range(3)]+[cplx(N-3)]
        if case['zones']:
            a, b = [z.array(x) for x in a], [z.array(x) for x in b]
        LU.Mult_Div_3D(N, *a)
        LU.Mult_Div_1D(N, 1.5, -2.0, *b)
        rec.count('native_calls', 2)
        rec.seen('kernel', ['Mult_Div', N])
        if case['zones']:
            rec.check(z.intact(), 'write outside:Mult_Div', 'Mult_Div N=%d wrote outside' % N)
            rec.check(not z.poisoned(), 'read outside:Mult_Div', 'Mult_Div N=%d read outside' % N)
    rec.nontrivial = True


def runs(case, rec):
    for k in ('optimization',):
        assert case[k]
    f = c06.run_channel if case['solver'] in C.SOLVERS else c06.run_periodic
    try:
        with sdns.Quiet():
            out = f(case)
    except IndexError as e:
        rec.violation('bounds:run', '%s: %s' % (case['solver'], e))
        return
    rec.count('steps', len(out))
    rec.seen('run', [case['solver'], case['optimization'], case.get('integrator'), case.get('precision'), case['convection'], case['dealias']])
    rec.nontrivial = len(out) > 0


def program(case, rec):
    """The C++ program, compiled with sanitizers."""
    d = tempfile.mkdtemp(prefix='cpp-')
    try:
        if not os.path.exists(case['exe']):     # replay
            case = dict(case, exe=B.build_cpp(d, 'address,undefined', CPPFLAGS))
        ev = E.base_env(None, {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=97', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98:print_stacktrace=1'})
        p = launch.run(['mpirun', '-np', str(case['ranks']), case['exe'], str(case['M'])], env=ev, cwd=d, timeout=case['timeout']-10)
        bad = [l for l in p.stdout.splitlines() if 'AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l]
        rec.check(p.returncode == 0 and not bad, 'cpp', 'M=%d, %d ranks: status %d %s' % (case['M'], case['ranks'], p.returncode, bad[:2]),
                  log=p.stdout[-3000:])
        rec.count('program_runs')
        rec.seen('program', [case['M'], case['ranks']])
        rec.nontrivial = ' k = ' in p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, rec):
    f = dict(kernels=kernels, walls=walls, runs=runs, program=program)[case['kind']]
    if case['kind'] == 'program':
        return f(case, rec)
    if case.get('flavour') == 'asan':
        # the sanitizer is really there: the byte behind a block is poisoned
        import ctypes
        a = np.ones(9)
        if not ctypes.CDLL(None).__asan_address_is_poisoned(ctypes.c_void_p(a.ctypes.data+a.nbytes)):
            raise RuntimeError('AddressSanitizer is not active')
        rec.count('sanitized_cases')
    with Unraisable(rec):
        f(case, rec)


def asan_env():
    lib = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
    return {'LD_PRELOAD': lib+' '+os.path.realpath(std), 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1',
            'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:exitcode=97:allocator_may_return_null=1'}


def kernel_cases(rng, opts, zones, n):
    out = []
    for opt in opts:
        for prec in ('double', 'single'):
            for solver in ('NS', 'NS2D', 'Bq2D', 'KMM'):
                if solver == 'KMM' and prec == 'single':
                    continue
                d = 2 if solver in ('NS2D', 'Bq2D') else 3
                shapes = [[rng.randint(1, 9) for _ in range(d)] for _ in range(n)]+[[1]*d, [2]+[1]*(d-1), [1]*(d-1)+[5], [9, 5, 3][:d], [3, 5, 9][-d:]]
                out.append(dict(kind='kernels', solver=solver, precision=prec, opt=opt, shapes=shapes, zones=zones,
                                seed=rng.randrange(10**6), timeout=300))
    return out


def run_cases(rng, opts, n, m):
    out = []
    ints = list(P.INTEGRATORS)
    for i, c in enumerate(P.combos(rng, lambda: P.random_case(rng), P.ALL if n >= len(P.ALL) else rng.sample(P.ALL, n), n)):
        c.update(kind='runs', optimization=rng.choice(list(opts)), integrator=ints[i % 5], precision=rng.choice(['double', 'single']))
        c['dt'] = P.stable_dt(c, 0.2)
        c['T'] = c['dt']*2
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = 1e-3
        c['timeout'] = 300
        out.append(c)
    for i in range(m):
        c = H.random_case(rng)
        c['solver'] = C.SOLVERS[i % 7]
        if C.is_rb(c['solver']):
            c['kappa'], c['force'] = 0.1, 0.0
        c.update(kind='runs', optimization=rng.choice(list(opts)), N=[rng.choice([16, 18, 20]), rng.choice([4, 6, 7]), rng.choice([4, 5, 8])],
                 dt=0.01, T=0.013, timeout=300)
        out.append(c)
    return out


def run(check, rng):
    q = check.tier == 'quick'
    sizes = list(range(8, 41)) + ([] if q else list(range(41, 130, 3)))
    flavours = ('bounds', 'asan', 'all')
    ps = [subprocess.Popen([sys.executable, '-B', '-c', 'from vlib import build as B; B.native_dir(%r)' % f], cwd=E.VERIF) for f in flavours]
    exe = B.build_cpp(os.path.join(check.scratch, 'cpp'), 'address,undefined', CPPFLAGS)
    for p in ps:
        p.wait()
    k = 10 if q else 120
    # 1. Cython and Numba with bounds checks in every element access
    cases = kernel_cases(rng, ('cython', 'numba'), False, k) + [dict(kind='walls', zones=False, sizes=sizes, seed=rng.randrange(10**6))]
    cases += run_cases(rng, ('cython', 'cython', 'numba'), 32 if q else 400, 14 if q else 100)
    for c in cases:
        c['flavour'] = 'bounds'
    check.run_serial(cases, flavour='bounds', extra_env={'NUMBA_BOUNDSCHECK': '1'})
    # 2. Cython under AddressSanitizer and UBSan, exact-size blocks
    cases = kernel_cases(rng, ('cython',), False, k) + [dict(kind='walls', zones=False, sizes=sizes[i::3], seed=rng.randrange(10**6)) for i in range(3)]
    cases += run_cases(rng, ('cython',), 12 if q else 300, 7 if q else 100)
    for c in cases:
        c['flavour'] = 'asan'
    check.run_serial(cases, flavour='asan', extra_env=asan_env())
    # 3. the code as it is shipped, arrays in red zones (the only one that reaches Pythran)
    cases = kernel_cases(rng, ('cython', 'numba', 'pythran'), True, k) + [dict(kind='walls', zones=True, sizes=sizes, seed=rng.randrange(10**6))]
    for c in cases:
        c['flavour'] = 'all'
    check.run_serial(cases, flavour='all')
    # 4. the C++ program
    cases = [dict(kind='program', exe=exe, M=m, ranks=n, timeout=200) for m, n in ((2, 1), (3, 2), (3, 3), (4, 4), (2, 4), (3, 7))]
    if not q:
        cases += [dict(kind='program', exe=exe, M=m, ranks=n, timeout=600) for m in (1, 2, 3, 4, 5) for n in range(1, 9)]
    check.run_serial(cases, flavour='none', workers=3)


if __name__ == '__main__':
    ck = runner.Check('C07', 'checks.c07', flavour='bounds', rule=(
        'every compiled routine, called directly on arrays of many shapes and from solver runs: bounds-checked builds (Cython, Numba), '
        'AddressSanitizer+UBSan builds (Cython) and red-zoned arrays (all); the C++ program under AddressSanitizer and UBSan. '
        'Non-trivial: native code was entered'),
        assumptions=['red zones see accesses up to 96 elements or four rows outside an array',
                     'wall-normal sizes in runs are even and at least 16 (below that the shenfun dependency itself is out of bounds)'])
    ck.replay_env = lambda c: {'asan': asan_env(), 'bounds': {'NUMBA_BOUNDSCHECK': '1'}}.get(c.get('flavour'), {})
    raise SystemExit(runner.main(ck, run))
