"""Runs cases of a check in a process that imports the tree under test.

Serial mode: reads one JSON case per line on stdin, writes one JSON result per line
on the file descriptor named in VERIF_FD.  MPI mode (--mpi CASEFILE OUTFILE): every
rank runs the same list of cases; rank 0 writes the results.
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import numpy as np


def to_json(o):
    if isinstance(o, dict):
        return {str(k): to_json(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [to_json(v) for v in o]
    if isinstance(o, np.ndarray):
        return to_json(o.tolist())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


EMPTY = dict(violations=[], obs={}, skipped=None, nontrivial=False, sample=None, maxes={}, sets={}, harness_error=None, wall=0)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


def in_package(filename):
    return filename.endswith(('.pyx', '.in')) or any(
        filename.startswith(os.path.join(p, d)) for p in sys.path if '/tree-' in p
        for d in ('spectralDNS', 'demo'))


def run_one(mod, case):
    from vlib import sdns
    t0 = time.time()
    rec = sdns.Recorder(case)
    try:
        mod.run_case(case, rec)
    except sdns.Skip as e:
        rec.skipped = str(e)
    except SystemExit as e:
        rec.violation('crash:SystemExit', 'the code under test exited: %r' % (e,))
    except BaseException as e:   # whatever escapes is a crash of the code on a valid case
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if in_package(f.filename) or f.filename.startswith(HERE)]
        text = 'exception %s: %s' % (type(e).__name__, str(e)[:500])
        if frames and in_package(frames[-1].filename):
            rec.violation('crash:%s' % type(e).__name__, text, trace=traceback.format_exc()[-3000:])
        elif isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, FloatingPointError)):
            # the monitor could not make sense of what the code handed to it
            rec.violation('uninterpretable:%s' % type(e).__name__, 'while looking at what the code returned: ' + text,
                          trace=traceback.format_exc()[-3000:])
        else:
            rec.harness_error = text + '\n' + traceback.format_exc()[-3000:]
    out = rec.result()
    out['harness_error'] = getattr(rec, 'harness_error', None)
    out['wall'] = time.time() - t0
    return out


def main(argv):
    name = argv[0]
    from mpi4py import MPI      # MPI starts here, before anything is said about the code under test
    mod = importlib.import_module(name)
    scratch = os.environ['VERIF_SCRATCH']
    if len(argv) > 1 and argv[1] == '--mpi':
        comm = MPI.COMM_WORLD
        comm.barrier()
        if comm.Get_rank() == 0:
            open(argv[3] + '.started', 'w').close()
        with open(argv[2]) as f:
            cases = json.load(f)
        results = []
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        for c in cases:
            from vlib import sdns
            res = None
            comm.barrier()
            res = run_one(mod, c)
            # a rank that failed alone leaves the others waiting inside the code under test
            req = comm.Ibarrier()
            end = time.time()+(20 if res['violations'] or res['harness_error'] else 1e9)
            while not req.Test():
                time.sleep(0.002)
                if time.time() > end:
                    with open(argv[3] + '.part', 'w') as f:
                        json.dump(to_json(results+[res]) if comm.Get_rank() == 0 else
                                  [dict(EMPTY)]*len([x for x in cases[:cases.index(c)]])+[to_json(res)], f)
                    os.rename(argv[3] + '.part', argv[3])
                    comm.Abort(3)
            allres = comm.gather(res, root=0)
            if comm.Get_rank() == 0:
                m = allres[0]
                for r, x in enumerate(allres[1:], 1):
                    m['harness_error'] = m['harness_error'] or x['harness_error']
                    for v in x['violations']:
                        v['rank'] = r
                        m['violations'].append(v)
                results.append(m)
                with open(argv[3] + '.part', 'w') as f:
                    json.dump(to_json(results), f)
        if comm.Get_rank() == 0:
            os.rename(argv[3] + '.part', argv[3])
        comm.barrier()
        return
    fd = int(os.environ['VERIF_FD'])
    out = os.fdopen(fd, 'w')
    out.write('"ready"\n')
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        case = json.loads(line)
        d = tempfile.mkdtemp(prefix='case-', dir=scratch)
        os.chdir(d)
        try:
            res = run_one(mod, case)
        finally:
            os.chdir(scratch)
            shutil.rmtree(d, ignore_errors=True)
        out.write(json.dumps(to_json(res)) + '\n')
        out.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
