"""Runs the phases of a history in processes of their own, and reads what they left behind."""
import glob
import json
import os
import subprocess
import sys

import h5py
import numpy as np

from . import env as E, launch


class Phase(object):
    pass


def run(spec, ranks, where, timeout=90):
    """Runs one phase in directory `where`; returns exit status, output and recorded steps."""
    os.makedirs(where, exist_ok=True)
    n = len(glob.glob(os.path.join(where, 'spec*.json')))
    fn = os.path.join(where, 'spec%d.json' % n)
    spec = dict(spec)
    spec.setdefault('restart', None)
    spec['log'] = os.path.join(where, 'log%d' % n)
    with open(fn, 'w') as f:
        json.dump(spec, f)
    cmd = [sys.executable, '-m', 'vlib.phase', fn]
    ev = E.unmanaged(os.environ)
    if ranks > 1:
        cmd = ['mpirun', '-np', str(ranks)]+cmd
    else:
        E.singleton(ev, where)
    p = Phase()
    try:
        r = launch.run(cmd, cwd=where, env=ev, timeout=timeout)
        p.status, p.out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        p.status, p.out = 'hang', (e.stdout or b'').decode(errors='replace')
    p.steps = recorded(spec['log'])
    p.kill_file = os.path.exists(os.path.join(where, 'killspectraldns'))
    p.ranks = ranks
    return p


def recorded(log):
    steps = {}
    for s in sorted(glob.glob(os.path.join(log, '[0-9]*.npz'))):
        with np.load(s) as z:
            steps[int(z['tstep'])] = {k: z[k] for k in z.files}
    return steps


def here(spec, where):
    """The same in this process (for undisturbed serial runs)."""
    from vlib import phase
    spec = dict(spec)
    spec.setdefault('restart', None)
    spec['log'] = os.path.join(where, 'log-here')
    os.makedirs(spec['log'])
    phase.main(spec)
    return recorded(spec['log'])


def checkpoint(rec, what, data, steps, m, sig):
    """Monitor: the checkpoint file holds exactly what was recorded at step m."""
    if not rec.check(data is not None, sig, '%s: no checkpoint file' % what):
        return False
    a = data['attrs']
    ok = rec.check('tstep' in a and int(a['tstep']) == m, sig, '%s: step number %r in the file, expected %d' % (what, a.get('tstep'), m))
    if m == 0 or m not in steps:
        return ok
    st = steps[m]
    rec.check('t' in a and float(a['t']) == float(st['t']), sig, '%s: time %r in the file, recorded %r' % (what, a.get('t'), float(st['t'])))
    for k, v in st.items():
        if not k.startswith('c:'):
            continue
        name = k[2:]
        if not rec.check((name, 0) in data['data'], sig, '%s: no data %s/0' % (what, name)):
            continue
        got = data['data'][(name, 0)]
        rec.check(got.dtype == v.dtype and got.shape == v.shape and np.array_equal(got, v), sig,
                  '%s: %s in the file is not the state of step %d (largest difference %s)' % (
                      what, name, m, np.max(np.abs(got-v)) if got.shape == v.shape else 'shape'))
        rec.count('checkpoint_fields')
        if (name, 1) in data['data'] and m-1 in steps:
            got, v = data['data'][(name, 1)], steps[m-1][k]
            rec.check(got.shape == v.shape and np.array_equal(got, v), sig, '%s: %s/1 in the file is not the state of step %d' % (what, name, m-1))
            rec.count('checkpoint_fields')
    return ok


def results(rec, what, data, steps, want, sig, tol=1e-11):
    """Monitor: the result file holds the fields of exactly the steps in want."""
    if not want:
        rec.check(data is None or not data['data'], sig+' schedule', '%s: results %r, expected none' % (what, sorted(data['data']) if data else None))
        return
    if not rec.check(data is not None, sig+' schedule', '%s: no result file' % what):
        return
    names = {k[2:] for k in steps[max(steps)] if k.startswith('w:')}
    got = {}
    for name, n in data['data']:
        got.setdefault(name, set()).add(n)
    for name in sorted(names):
        rec.check(got.get(name, set()) == set(want), sig+' schedule', '%s: %s written at steps %r, expected %r' % (
            what, name, sorted(got.get(name, ())), sorted(want)))
        rec.count('schedules')
    for (name, n), v in sorted(data['data'].items()):
        if name in names and n in steps:
            w = steps[n]['w:'+name]
            s = max(float(np.max(np.abs(x))) for k, x in steps[n].items() if k.startswith('w:'))
            single = v.dtype == np.float32
            rec.close('%s: %s of step %d' % (what, name, n), v, w, 1e-4 if single else tol, scale=s if s > 0 else 1.0, sig=sig+' data')
            rec.count('result_fields')


def same(rec, what, steps, ref, tol, sig, first=None):
    """Monitor: two recorded trajectories agree on their common steps."""
    n = 0
    for k in sorted(steps):
        if k not in ref or (first is not None and k < first):
            continue
        n += 1
        rec.check(abs(float(steps[k]['t'])-float(ref[k]['t'])) <= 1e-12*max(1, abs(float(ref[k]['t']))), sig+' time',
                  '%s: time of step %d is %r, expected %r' % (what, k, float(steps[k]['t']), float(ref[k]['t'])))
        for q in ref[k]:
            if q.startswith('w:') and q != 'w:P':
                s = max(float(np.max(np.abs(x))) for z, x in ref[k].items() if z.startswith('w:') and z != 'w:P')
                rec.close('%s: %s after step %d' % (what, q[2:], k), steps[k][q], ref[k][q], tol, scale=s if s > 0 else 1.0, sig=sig)
    rec.count('steps_compared', n)
    return n


def read(filename):
    """Attributes and data sets of an output file, or None."""
    if not os.path.exists(filename):
        return None
    with h5py.File(filename, 'r', driver='core', backing_store=False) as f:
        out = {'attrs': {k: np.array(v) for k, v in f.attrs.items()}, 'data': {}}

        def visit(name, o):
            parts = name.split('/')
            if isinstance(o, h5py.Dataset) and len(parts) == 3 and parts[1] in ('2D', '3D') and parts[2].isdigit():
                out['data'][(parts[0], int(parts[2]))] = np.array(o)
        f.visititems(visit)
    return out
