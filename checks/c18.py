"""C18: solutions respect the symmetries of the equations."""
import copy
import itertools

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, runner
from vlib.ref import Grid


# ---- operations on a periodic case: (case, [physical fields], source) -> the same -------------------
def parity(p):
    return round(np.linalg.det(np.eye(len(p))[list(p)]))


def translate(case, q, op):
    d = P.DIM[case['solver']]
    return case, [np.roll(f, op['by'], axis=tuple(range(-d, 0))) for f in q]


def reflect(case, q, op):
    d, ax, name = P.DIM[case['solver']], op['axis'], case['solver']
    out = []
    for f in q:
        f = np.roll(np.flip(f, ax-d), 1, ax-d).copy()
        if name == 'VV':
            f *= -1
            f[ax] *= -1
        else:
            f[ax] *= -1
            if name == 'MHD':
                f[3+ax] *= -1
                if op.get('pseudo'):
                    f[3:] *= -1
            if name == 'Bq2D' and ax == 1:
                f[2] *= -1
        out.append(f)
    return case, out


def permute(case, q, op):
    p, name = op['perm'], case['solver']
    d = P.DIM[name]
    c = copy.deepcopy(case)
    c['N'] = [case['N'][i] for i in p]
    c['L'] = [case['L'][i] for i in p]
    comp = list(p)+([3+i for i in p] if name == 'MHD' else [])
    out = [np.transpose(f[comp], [0]+[1+i for i in p]).copy() for f in q]
    if name == 'VV':
        out = [f*parity(p) for f in out]
    return c, out


def reverse(case, q, op):
    return case, [np.concatenate([f[:3], -f[3:]]) for f in q]


def scale(case, q, op):
    a, b, name = op['length'], op['time'], case['solver']
    c = copy.deepcopy(case)
    c['L'] = [a*x for x in case['L']]
    for k in ('nu', 'eta'):
        if k in c:
            c[k] = case[k]*a*a/b
    c['dt'], c['T'] = case['dt']*b, case['T']*b
    u = a/b if name != 'VV' else 1/b
    out = []
    for i, f in enumerate(q):
        s = u if i == 0 else u/b        # the source is a rate
        f = f*s
        if name == 'Bq2D':
            f[2] *= 1/b                 # an acceleration
        out.append(f)
    return c, out


OPS = dict(translate=translate, reflect=reflect, permute=permute, reverse=reverse, scale=scale)


def apply(case, q, ops):
    for op in ops:
        case, q = OPS[op['op']](case, q, op)
    return case, q


def start(case):
    sim = P.setup(case)
    P.quiet_file(sim)
    return sim


def final(case, q):
    """Runs from the physical fields q = [state, source] and returns the physical state."""
    sim = start(case)
    g = sim.grid
    P.put(sim, sim.context.u, g.fwd(q[0]))
    if len(q) > 1:
        P.put(sim, sim.context.Source, g.fwd(q[1]))
    n = [0]

    def update(c):
        n[0] += 1
    sim.solver.update = update
    sim.sd.solve(sim.solver, sim.context)
    return g.bck(P.gather(sim, sim.context.u)), n[0]


def periodic(case, rec):
    g = Grid(case['N'], case['L'], case['dealias'])
    q = [g.bck(P.init_field(case, g))]
    if case.get('source') and case['solver'] in ('NS', 'NS2D', 'VV'):
        src = P.random_field(np.random.default_rng(case['init']['seed']+7), g, q[0].shape[0], True, mean=0.2, amp=0.5)
        q.append(g.bck(src))
    a, na = final(case, q)
    c2, q2 = apply(case, q, case['ops'])
    b, nb = final(c2, q2)
    want = apply(case, [a], case['ops'])[1][0]
    s = np.abs(want).max(axis=tuple(range(1, want.ndim)), keepdims=True)
    v = 2 if case['solver'] == 'Bq2D' else len(s)       # the third of Bq2D has another unit
    s[:v] = np.maximum(s[:v], 1e-3*s[:v].max())
    tol = 1e-10 if case['integrator'] != 'BS5_adaptive' else 1e-7
    s = np.maximum(s, 1e-30)
    rec.close('state after %s' % [o['op'] for o in case['ops']], b/s, want/s, tol, scale=1., sig='symmetry-'+case['integrator'])
    rec.check(na == nb, 'steps', '%d steps, transformed: %d' % (na, nb))
    rec.count('pairs')
    rec.count('steps', na)
    for o in case['ops']:
        rec.count('op_'+o['op'])
    rec.nontrivial = np.abs(a-q[0]).max() > 1e-6*np.abs(q[0]).max()
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['integrator']])
    rec.sample = dict(ops=case['ops'], steps=na, **rec.maxes)


# ---- invariant subspaces ------------------------------------------------------------------------------
AMP = {'RK4': lambda z: 1+z+z*z/2+z**3/6+z**4/24, 'ForwardEuler': lambda z: 1+z}


def subspace(case, rec):
    """Two-dimensional, unidirectional and Alfvenic flows stay so (and the last two only diffuse)."""
    name, kind, ax = case['solver'], case['sub'], case['axis']
    g = Grid(case['N'], case['L'], case['dealias'])
    d = g.d
    u = P.init_field(case, g)
    along = sum(abs(k) for i, k in enumerate(g.ints) if i in ([ax] if kind != 'alfven' else []))
    keep = np.broadcast_to(along == 0, g.sshape)
    if kind == '2d':            # nothing depends on x_ax (all components)
        u = np.where(keep, u, 0)
        if case.get('plane'):
            # and no component along it
            if name == 'VV':
                v = np.where(np.arange(3).reshape((3,)+(1,)*d) == ax, u, 0)
            else:
                v = u.copy()
                for i in range(0, len(u), 3):
                    v[i+ax] = 0
            u = v
    elif kind == 'parallel':    # u = f(the other coordinates) e_ax
        if name == 'VV':
            v = g.velocity_from_vorticity(u)
            f = np.where(keep, v[ax], 0)
            f[(0,)*d] = 0
            v = np.zeros_like(v)
            v[ax] = f
            u = g.curl(v)
        else:
            f = np.where(keep, u, 0)
            u = np.zeros_like(u)
            u[ax] = f[ax]
            if name == 'MHD':
                u[3+ax] = f[3+ax]
            if name == 'Bq2D':
                u[2] = 0
    else:                       # u = +-B, nu = eta
        u[3:] = case['sign']*u[:3]
    sim = start(case)
    P.put(sim, sim.context.u, u)
    states = []
    sim.solver.update = lambda c: states.append((float(sim.params.t), P.gather(sim, c.u).copy()))
    sim.sd.solve(sim.solver, sim.context)
    s = np.abs(u).max()
    t0, before = 0., u
    for n, (t, v) in enumerate(states):
        rec.count('subspace_steps')
        if kind in ('2d', 'parallel'):
            off = np.abs(np.where(keep, 0, v)).max()
            rec.maximum('leaves_subspace', off/s)
            rec.check(off <= 1e-13*s, 'leaves-2d', 'step %d: a flow independent of x_%d depends on it by %.1e' % (n+1, ax, off/s))
        if kind == '2d' and case.get('plane'):
            for i in range(0, len(v), 3):
                cs = [j for j in range(3) if (j != ax if name == 'VV' else j == ax)]
                off = max(np.abs(v[i+j]).max() for j in cs)
                rec.check(off <= 1e-12*s, 'leaves-plane', 'step %d: a plane flow has got a component %.1e' % (n+1, off/s))
        if kind in ('parallel', 'alfven'):
            z = -(t-t0)*case['nu']*g.K2
            want = before*AMP[case['integrator']](z)
            if kind == 'parallel' and name == 'MHD':
                z2 = -(t-t0)*case['eta']*g.K2
                want = np.concatenate([before[:3]*AMP[case['integrator']](z), before[3:]*AMP[case['integrator']](z2)])
            rec.close('step %d: diffusion only (%s)' % (n+1, kind), v, want, 1e-12, scale=s, sig='diffusion only')
        t0, before = t, v
    rec.seen('subspace', [name, kind, ax, case['convection'], case['dealias']])
    rec.nontrivial = len(states) > 0 and np.abs(u).max() > 0
    rec.sample = dict(kind=kind, steps=len(states))


# ---- channel ------------------------------------------------------------------------------------------
def ch_apply(case, fields, ops):
    """fields: list of (velocity (3,x,y,z), temperature (x,y,z) or None), at the reference points"""
    c = copy.deepcopy(case)
    for op in ops:
        k = op['op']
        new = []
        for u, th in fields:
            if k == 'translate':
                u = np.roll(u, op['by'], axis=(-2, -1))
                th = None if th is None else np.roll(th, op['by'], axis=(-2, -1))
            elif k == 'reflect':
                ax = op['axis']
                f = (lambda a: np.flip(a, -3)) if ax == 0 else (lambda a, ax=ax: np.roll(np.flip(a, ax-3), 1, ax-3))
                u = f(u).copy()
                u[ax] *= -1
                if th is not None:
                    th = f(th).copy()
                    if ax == 0:
                        th = 1-th
            elif k == 'permute':
                u = np.transpose(u[[0, 2, 1]], (0, 1, 3, 2)).copy()
                th = None if th is None else np.transpose(th, (0, 2, 1)).copy()
            else:
                u = u/op['time']
            new.append((u, th))
        if k == 'permute':
            c['N'] = [c['N'][0], c['N'][2], c['N'][1]]
            c['L'] = c['L'][::-1]
        elif k == 'scale':
            b = op['time']
            c['nu'], c['dt'], c['T'], c['force'] = c['nu']/b, c['dt']*b, c['T']*b, c['force']/b**2
        fields = new
    return c, fields


def ch_run(case, init):
    """init: physical (velocity, temperature) at the reference points, and the previous velocity or None."""
    sim = C.setup(case)
    ch = C.reference(case)
    (u, th), prev = init
    C.initialize(sim, ch, ch.fwd(u), None if th is None else ch.fwd(th), None if prev is None else ch.fwd(prev))
    n = [0]

    def update(c):
        n[0] += 1
    H.solve(sim, update)
    return C.velocity(sim).copy(), (None if th is None else C.temperature(sim).copy()), n[0]


def channel(case, rec):
    ch = C.reference(case)
    uh, th, prev = H.initial(case, ch)
    f = [(ch.bck(uh), None if th is None else ch.bck(th))]
    if prev is not None:
        f.append((ch.bck(prev), None))
    a, ta, na = ch_run(case, (f[0], f[1][0] if prev is not None else None))
    c2, g = ch_apply(case, f, case['ops'])
    b, tb, nb = ch_run(c2, (g[0], g[1][0] if prev is not None else None))
    (want, tw), = ch_apply(case, [(a, ta)], case['ops'])[1]
    tol = 1e-9
    if na > 1 and tw is not None and any(o['op'] == 'reflect' and o['axis'] == 0 for o in case['ops']):
        tol = 1e-3      # div u = 0 up to the truncation in x only, so T -> 1-T is a symmetry of div(uT) only up to that
    rec.close('velocity after %s' % [o['op'] for o in case['ops']], b, want, tol, scale=np.abs(want).max(), sig='symmetry-channel')
    if tw is not None:
        rec.close('temperature after %s' % [o['op'] for o in case['ops']], tb, tw, tol, scale=1., sig='symmetry-channel')
    rec.check(na == nb, 'steps', '%d steps, transformed: %d' % (na, nb))
    rec.count('channel_pairs')
    rec.count('steps', na)
    for o in case['ops']:
        rec.count('ch_op_'+o['op'])
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['quad']])
    rec.nontrivial = na > 0
    rec.sample = dict(ops=case['ops'], steps=na, **rec.maxes)


def ch_subspace(case, rec):
    """A channel flow independent of y (or z) stays so; a parallel flow has no other component."""
    ch = C.reference(case)
    uh, th, prev = H.initial(case, ch)
    uh, prev = uh.copy(), None
    ax = case['axis']
    k = (ch.iy if ax == 1 else ch.iz)
    keep = (k == 0)[:, None] if ax == 1 else (k == 0)[None, :]
    keep = np.broadcast_to(keep, ch.k2.shape)
    if case['sub'] == '2d':
        uh = np.where(keep, uh, 0)
        uh[ax] = 0
        th = None if th is None else np.where(keep, th, 0)
    else:
        z = np.zeros_like(uh)
        z[ax, :, 0, 0] = uh[ax, :, 0, 0]
        uh = z
        if th is not None:
            t = np.zeros_like(th)
            t[:, 0, 0] = th[:, 0, 0]
            th = t
    sim = C.setup(case)
    C.initialize(sim, ch, uh, th, None)
    n = [0]

    def update(c):
        n[0] += 1
        u = C.velocity(sim)
        s = max(np.abs(u).max(), 1e-30)
        v = u-u.mean(axis=1+ax, keepdims=True)
        rec.maximum('leaves_subspace', np.abs(v).max()/s)
        rec.check(np.abs(v).max() <= 1e-12*s, 'leaves-2d', 'step %d: the flow depends on direction %d by %.1e' % (n[0], ax, np.abs(v).max()/s))
        other = [ax] if case['sub'] == '2d' else [i for i in range(3) if i != ax]
        e = max(np.abs(u[i]).max() for i in other)
        rec.check(e <= 1e-12*s, 'leaves-plane', 'step %d: the flow has got another component of %.1e' % (n[0], e/s))
        rec.count('subspace_steps')
    H.solve(sim, update)
    rec.seen('subspace', [case['solver'], case['sub'], ax, case['convection'], case['dealias']])
    rec.nontrivial = n[0] > 0
    rec.sample = dict(kind=case['sub'], steps=n[0])


def run_case(case, rec):
    dict(periodic=periodic, subspace=subspace, channel=channel, ch_subspace=ch_subspace)[case['kind']](case, rec)


# ---- cases ---------------------------------------------------------------------------------------------
def random_ops(rng, c):
    name = c['solver']
    d = P.DIM[name]
    kinds = ['translate', 'reflect']
    if c['integrator'] != 'BS5_adaptive':
        kinds += ['scale']
        if name != 'Bq2D':
            kinds += ['permute', 'permute']
    if name == 'MHD':
        kinds += ['reverse']
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(kinds)
        op = dict(op=k)
        if k == 'translate':
            op['by'] = [rng.randrange(n) for n in c['N']]
            if any(o['op'] == 'permute' for o in ops):
                op['by'] = [rng.randrange(6) for _ in c['N']]
        elif k == 'reflect':
            op['axis'] = rng.randrange(d)
            op['pseudo'] = rng.random() < 0.5
        elif k == 'permute':
            op['perm'] = list(rng.choice([p for p in itertools.permutations(range(d)) if list(p) != list(range(d))]))
        elif k == 'scale':
            op['length'] = rng.choice([0.5, 2.0, 1.7, 3.0])
            op['time'] = rng.choice([0.5, 2.0, 0.3, 1.9])
        ops.append(op)
    return ops


def run(check, rng):
    quick = check.tier == 'quick'

    def make():
        c = P.defaults(rng, P.random_case(rng), steps=(2, 3, 4))
        c['mask_nyquist'] = True        # the last axis holds half of the modes, what becomes of Nyquist modes differs
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = rng.choice([1e-6, 1e-9])
            c['T'] -= 0.63*c['dt']      # not a sum of doubled steps: the last step must not hang on rounding
            c['nu'] = max(c['nu'], 0.01)
        return c
    cases = P.combos(rng, make, P.ALL, 170 if quick else 4000)
    for c in cases:
        c['kind'] = 'periodic'
        c['source'] = rng.random() < 0.3
        c['ops'] = random_ops(rng, c)
    for name in P.DIM:
        for form in P.FORMS[name]:
            for dealias in ('2/3-rule', '3/2-rule', 'None'):
                for _ in range(1 if quick else 15):
                    c = P.random_case(rng, (name,), kinds=('full',))
                    d = P.DIM[name]
                    c.update(kind='subspace', convection=form, dealias=dealias, mask_nyquist=True, axis=rng.randrange(d), nu=rng.choice([0.01, 0.1]))
                    if 'eta' in c:
                        c['eta'] = 0.03
                    c['dt'] = P.stable_dt(c)
                    c['T'] = 4*c['dt']
                    c['integrator'] = rng.choice(['RK4', 'ForwardEuler'])
                    subs = ['parallel']
                    if d == 3:
                        subs += ['2d', '2d']
                    if name == 'MHD':
                        subs += ['alfven']
                    if name == 'Bq2D':
                        c['axis'] = 0
                    for s in set(subs):
                        e = dict(c, sub=s, plane=rng.random() < 0.5, sign=rng.choice([-1, 1]))
                        if s == 'alfven':
                            e['eta'] = e['nu']
                        if s == 'parallel' and dealias == 'None' and form == 'Vortex':
                            continue        # the aliased u x w of a parallel flow is not a gradient
                        cases.append(e)
    ch = []
    for i in range(84 if quick else 1600):
        c = H.random_case(rng)
        c['solver'] = C.SOLVERS[i % len(C.SOLVERS)]
        c['convection'] = H.FORMS[(i//len(C.SOLVERS)) % 4]
        c.pop('kappa', None)
        rb = C.is_rb(c['solver'])
        if rb:
            c['kappa'], c['force'] = 0.1, 0.0
        c['N'] = [rng.choice([16, 18, 24, 32]), rng.choice([6, 8, 9]), rng.choice([6, 8, 9])]
        c['T'] = c['dt']*(rng.choice([1, 2, 3])+0.3)
        if i % 4 == 3:
            c.update(kind='ch_subspace', sub=rng.choice(['2d', 'parallel']), axis=rng.choice([1, 2]))
            if (c['sub'] == '2d') == (c['axis'] == 1):
                c['force'] = 0.0        # acts along y
            ch.append(c)
            continue
        ops = []
        kinds = ['translate', 'reflect', 'permute']+([] if rb else ['scale'])
        if c['force']:
            kinds = [k for k in kinds if k != 'permute']
        for k in rng.sample(kinds, rng.choice([1, 2])):
            op = dict(op=k)
            if k == 'translate':
                op['by'] = [rng.randrange(6), rng.randrange(6)]
            elif k == 'reflect':
                op['axis'] = rng.choice([0, 1, 2] if not c['force'] else [0, 2])
            elif k == 'scale':
                op['time'] = rng.choice([0.5, 2.0, 1.7])
            ops.append(op)
        c.update(kind='channel', ops=ops)
        ch.append(c)
    check.run_serial(cases+ch, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C18', 'checks.c18', flavour='lu', rule=(
        'pairs of runs, one from an initial condition (and source, box, mesh, parameters) transformed by a random composition of grid '
        'translations, reflections, axis permutations, reversal of the magnetic field and changes of the units of length and time; and runs '
        'from two-dimensional, parallel and Alfvenic flows checked after every step. Non-trivial: the state changes'),
        assumptions=['no Nyquist content (mask_nyquist on)', 'adaptive step: no permutation or change of units (the error norm is not invariant)'])
    raise SystemExit(runner.main(ck, run))
