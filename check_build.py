"""Build helpers of the checks."""
import os
import shutil
import subprocess


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def drop_fingerprints(target):
    """cargo compares time stamps; forget the crate so that it is always rebuilt from the working tree."""
    for prof in ('debug', 'release'):
        d = os.path.join(target, prof, '.fingerprint')
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith('cryst-symm-'):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        shutil.rmtree(os.path.join(target, prof, 'build', 'cryst-symm'), ignore_errors=True)   # newer layout
