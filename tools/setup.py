"""setup_cmd: makes sure that what the checks need is there, and that the tree builds."""
import shutil
import sys
import tempfile
import os

from vlib import env as E, build as B


def main():
    os.makedirs(E.CACHE, exist_ok=True)
    os.makedirs(os.path.join(E.VERIF, 'evidence'), exist_ok=True)
    d = tempfile.mkdtemp(prefix='setup-', dir=E.CACHE)
    try:
        for fl in ('lu', 'all', 'bounds', 'asan'):
            B.make_tree(fl, os.path.join(d, fl))
            print('built', fl)
        B.build_cpp(d)
        print('built cpp')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
