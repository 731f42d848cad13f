"""Executable models of the time integrators."""
from fractions import Fraction as F

import numpy as np

# Bogacki & Shampine (1996), the efficient (4,5) pair
BS5_A = [[],
         [F(1, 6)],
         [F(2, 27), F(4, 27)],
         [F(183, 1372), F(-162, 343), F(1053, 1372)],
         [F(68, 297), F(-4, 11), F(42, 143), F(1960, 3861)],
         [F(597, 22528), F(81, 352), F(63099, 585728), F(58653, 366080), F(4617, 20480)],
         [F(174197, 959244), F(-30942, 79937), F(8152137, 19744439), F(666106, 1039181), F(-29421, 29068),
          F(482048, 414219)],
         [F(587, 8064), 0, F(4440339, 15491840), F(24353, 124800), F(387, 44800), F(2152, 5985), F(7267, 94080)]]
BS5_B = [F(587, 8064), 0, F(4440339, 15491840), F(24353, 124800), F(387, 44800), F(2152, 5985), F(7267, 94080), 0]
BS5_BH = [F(2479, 34992), 0, F(123, 416), F(612941, 3411720), F(43, 1440), F(2272, 6561), F(79937, 1113912),
          F(3293, 556956)]


def euler(f, u, dt):
    return u+dt*f(u)


def rk4(f, u, dt):
    k1 = f(u)
    k2 = f(u+0.5*dt*k1)
    k3 = f(u+0.5*dt*k2)
    k4 = f(u+dt*k3)
    return u+dt/6*(k1+2*k2+2*k3+k4)


def bs5(f, u, dt):
    """Returns the fifth order solution and the error estimate."""
    k = []
    for row in BS5_A:
        y = u
        for a, ki in zip(row, k):
            if a:
                y = y+dt*float(a)*ki
        k.append(f(y))
    new = u+dt*sum(float(b)*ki for b, ki in zip(BS5_B, k) if b)
    err = dt*sum(float(b-bh)*ki for b, bh, ki in zip(BS5_B, BS5_BH, k) if b-bh)
    return new, err


def bs5_est(u, new, err, tol):
    """The error estimate of the adaptive integrator (largest scaled rms over components)."""
    sc = tol+np.maximum(np.abs(u), np.abs(new))*tol
    q = np.abs(err/sc)**2
    return float(np.max(np.sqrt(q.reshape(u.shape[0], -1).sum(1)/q[0].size)))


def self_test():
    """Orders of the models on a nonlinear, non-autonomous-like system."""
    f = lambda y: np.array([-y[1]*(1+y[2]), y[0]-0.3*y[0]*y[1], np.cos(y[0])*y[2]])
    y0 = np.array([1.0, 0.2, 0.3])

    def march(step, n):
        y = y0
        for _ in range(n):
            y = step(f, y, 1./n)
        return y
    emb = lambda f, u, dt: (lambda n, e: n-e)(*bs5(f, u, dt))
    ref = march(lambda *a: bs5(*a)[0], 400)
    out = {}
    for name, st, n, p in (('euler', euler, 64, 1), ('rk4', rk4, 16, 4), ('bs5', lambda *a: bs5(*a)[0], 8, 5),
                           ('bs5_embedded', emb, 8, 4)):
        e1 = np.abs(march(st, n)-ref).max()
        e2 = np.abs(march(st, 2*n)-ref).max()
        out[name] = float(np.log2(e1/e2))
        assert out[name] > p-0.4, (name, out[name])
    return out
