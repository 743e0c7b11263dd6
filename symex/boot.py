"""Start-up shared by check.py and replay.py: run under /repo's interpreter
with a fixed hash seed."""
import os
import sys

VENV = '/opt/venv'


def boot():
    want = os.path.join(VENV, 'bin', 'python')
    if (os.path.exists(want) and os.path.realpath(sys.prefix) != os.path.realpath(VENV)) or sys.flags.hash_randomization:
        if os.environ.get('VERIF_REEXEC') != '1':
            env = dict(os.environ, VERIF_REEXEC='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                       HDF5_USE_FILE_LOCKING='FALSE', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            py = want if os.path.exists(want) else sys.executable
            os.execve(py, [py, '-s'] + sys.argv, env)
    sys.dont_write_bytecode = True
    os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
    sys.setrecursionlimit(4000)
