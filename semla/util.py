"""Running programs under limits."""
import os
import resource
import signal
import subprocess

from . import proto as P
from .engine import Violation


def limits(fsize=None, uid=None, umask=None, nofile=None):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, fsize if isinstance(fsize, tuple) else (fsize, fsize))
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        if umask is not None:
            os.umask(umask)
        if uid is not None:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
    return f


class Res:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.text = err.decode("latin1")


def run(argv, what=None, cwd=None, env=None, fsize=None, uid=None, timeout=P.TIMEOUT * 2, stdin=b"", umask=None, nofile=None):
    """Runs a program under test to its end; a memory error, a signal or no end is a violation."""
    what = what or os.path.basename(argv[0])
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=P.child_env(**(env or {})), preexec_fn=limits(fsize, uid, umask, nofile), start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Violation("%s did not end within %g s" % (what, timeout), soft=True)
    a = P.summarize_asan(err.decode("latin1"))
    if a:
        raise Violation("%s: memory error: %s" % (what, a))
    if p.returncode < 0 or p.returncode == 97:
        raise Violation("%s ended with status %d: %s" % (what, p.returncode, err.decode("latin1")[-300:]))
    return Res(p.returncode, out, err)
