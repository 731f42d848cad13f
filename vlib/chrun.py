"""A monitored channel run, shared by the channel checks."""
import numpy as np

from . import channel as C, refchannel as R

FORMS = ('Vortex', 'Standard', 'Divergence', 'Skew')


def initial(case, ch):
    """Spectral state, temperature and the state of the previous level (or None)."""
    ic = case['init']
    rng = np.random.default_rng(ic['seed'])
    kw = dict(amp=ic.get('amp', 0.3), kmax=ic.get('kmax', 1), deg=ic.get('deg', 3),
              mean=ic.get('mean', True))
    uh, th = R.random_state(rng, ch, thermal=C.is_rb(case['solver']), **kw)
    prev = None
    if ic.get('prev') and not C.is_rk3(case['solver']):
        prev, _ = R.random_state(rng, ch, thermal=False, **kw)
    return uh, th, prev


def start(case, hooks=None, extra=None):
    sim = C.setup(case, hooks, extra)
    sim.ch = C.reference(case)
    sim.init = initial(case, sim.ch)
    C.initialize(sim, sim.ch, sim.init[0], sim.init[1], sim.init[2])
    return sim


def solve(sim, update=None, nofile=True):
    if nofile:
        sim.context.hdf5file = C.NoFile()
    if update is not None:
        sim.solver.update = update
    sim.sd.solve(sim.solver, sim.context)


def reference_run(sim, steps):
    ch, (uh, th, prev) = sim.ch, sim.init
    return ch.run(uh, steps, H1=None if prev is None else ch.conv(prev), th0=th)


def cheb_coeffs(x):
    """Matrix from values at the points x to Chebyshev coefficients."""
    return np.linalg.inv(np.polynomial.chebyshev.chebvander(x, len(x)-1))


class Walls(object):
    """Evaluates a field given on the solver's points: wall values and derivatives (monitor's own calculus)."""

    def __init__(self, sim):
        x = C.points(sim)
        n = len(x)
        self.A = cheb_coeffs(x)
        self.x = x
        self.top = np.ones(n)@self.A
        self.bot = ((-1.)**np.arange(n))@self.A
        V = np.polynomial.chebyshev.chebvander(x, n-1)
        D = np.zeros((n, n))
        for j in range(n):
            c = np.zeros(n)
            c[j] = 1
            d = np.polynomial.chebyshev.chebder(c) if n > 1 else np.zeros(1)
            D[:len(d), j] = d
        self.D = V@D@self.A
        w = np.zeros(n)
        w[::2] = 2./(1.-np.arange(0, n, 2)**2)
        self.w = w@self.A      # integrates over (-1, 1)

    def ddx(self, f):
        return np.tensordot(self.D, f, (1, 0))


def fourier_d(f, axis, L):
    n = f.shape[axis]
    k = np.fft.fftfreq(n, 1./n)
    if n % 2 == 0:
        k[n//2] = 0
    sh = [1]*f.ndim
    sh[axis] = n
    return np.fft.ifft(1j*2*np.pi/L*k.reshape(sh)*np.fft.fft(f, axis=axis), axis=axis).real


def divergence(W, u, L):
    a = W.ddx(u[0])
    b = fourier_d(u[1], 1, L[0])
    c = fourier_d(u[2], 2, L[1])
    return a+b+c, max(np.abs(a).max(), np.abs(b).max(), np.abs(c).max())


def random_case(rng, solvers=C.SOLVERS, big=False):
    name = rng.choice(list(solvers))
    rb = C.is_rb(name)
    c = dict(solver=name,
             N=[rng.choice([24, 28, 32] if not big else [32, 40, 48]), rng.choice([6, 8, 10]), rng.choice([6, 8, 10])],
             L=[rng.choice([6.283185307179586, 4.0, round(rng.uniform(2, 12), 2)]),
                rng.choice([3.141592653589793, 2.5, round(rng.uniform(2, 8), 2)])],
             nu=rng.choice([0.02, 0.1, 0.3]), dt=rng.choice([0.01, 0.02, 0.05]),
             dealias=rng.choice(['3/2-rule', '2/3-rule', 'None']), convection=rng.choice(FORMS),
             quad=rng.choice(['GC', 'GL']), force=rng.choice([0.0, 0.3, -0.5]),
             mask_nyquist=True,
             init=dict(seed=rng.randrange(10**6), kmax=1, amp=rng.choice([0.1, 0.3]), prev=rng.random() < 0.4))
    if rb:
        c['kappa'] = rng.choice([0.02, 0.1, 0.3])
        c['force'] = 0.0
    steps = rng.choice([1, 2, 3])
    c['T'] = c['dt']*(steps+0.3)
    return c
