"""Paths and process environment shared by every check."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(VERIF, '.cache')


def unmanaged(environ):
    """Without what an MPI process of this program hands down to its children."""
    drop = ('OMPI_COMM', 'PMIX', 'PMI_', 'VERIF_FD', 'OMPI_MCA_ess', 'OMPI_MCA_orte', 'OMPI_ARGV', 'OMPI_APP')
    return {k: v for k, v in environ.items() if not k.startswith(drop)}


def singleton(env, where):
    """One process without a daemon, with a session directory of its own (shared ones are deleted under it)."""
    env['OMPI_MCA_ess_singleton_isolated'] = '1'
    env['OMPI_MCA_orte_tmpdir_base'] = where
    return env


def base_env(tree=None, extra=None):
    """Environment like /opt/vp/env.sh, with PYTHONPATH pointing at `tree`."""
    env = unmanaged(os.environ)
    env.update({
        'LANG': 'C.UTF-8',
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'NUMBA_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1',
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_btl': 'self,vader',
        'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
        'OMPI_MCA_rmaps_base_oversubscribe': '1',
        'OMPI_MCA_hwloc_base_binding_policy': 'none',
        'OMPI_MCA_mpi_yield_when_idle': '1',
        'HDF5_USE_FILE_LOCKING': 'FALSE',
    })
    for c, p in (('CC', '/opt/cc/cc'), ('CXX', '/opt/cc/c++')):
        if os.path.exists(p):
            env[c] = p
    path = [VERIF]
    if tree:
        path.insert(0, tree)
    env['PYTHONPATH'] = os.pathsep.join(path)
    if extra:
        env.update(extra)
    return env


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'
