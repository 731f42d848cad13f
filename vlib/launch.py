"""Starts programs under MPI, again when MPI itself does not come up (a matter of the machine, not of the code)."""
import re
import subprocess
import time

STARTUP = re.compile(r'orte_(ess_)?init|MPI_INIT failed|[Uu]nable to start a daemon|ORTE was unable|orte_(plm|rmaps|oob|grpcomm)\w* (failed|error)')


def run(cmd, tries=4, **kw):
    """subprocess.run with the output as text; raises TimeoutExpired as that does."""
    for k in range(tries):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL, **kw)
        if r.returncode == 0 or not STARTUP.search(r.stdout):
            return r
        time.sleep(2*k+1)
    raise RuntimeError('MPI does not start: '+r.stdout[-500:])
