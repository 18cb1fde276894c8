"""packagetool: its surroundings, running it as an unprivileged user, reading archives."""
import os
import shutil
import stat
import zipfile

from . import util

LVES = ["lve_win32.exe", "lve_win64.exe", "lve_linux32", "lve_linux64", "lve_darwin64"]


def uid():
    """One user per worker process, so that what it leaves in /tmp can be told from others'."""
    return 40000 + os.getpid() % 20000


class Tool:
    """A directory with packagetool, and LVE/ and .library/ as a case wants them."""

    def __init__(self, prop, env):
        self.dir = env.newdir()
        self.exe = self.dir + "/packagetool"
        shutil.copy(prop.b + "/packagetool", self.exe)
        os.chmod(self.exe, 0o755)

    def set(self, lves, extra=None, lmode=0o755, xmode=0o644):
        """lves: {name: bytes} or None (no LVE directory); extra: {relative name: bytes} or None"""
        for d in ("/LVE", "/.library"):
            shutil.rmtree(self.dir + d, ignore_errors=True)
        if lves is not None:
            os.mkdir(self.dir + "/LVE")
            for n, b in lves.items():
                with open(self.dir + "/LVE/" + n, "wb") as f:
                    f.write(b)
                os.chmod(self.dir + "/LVE/" + n, lmode)
        if extra is not None:
            os.mkdir(self.dir + "/.library")
            for n, b in extra.items():
                p = self.dir + "/.library/" + n
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)
                os.chmod(p, xmode)
        give(self.dir)

    def run(self, args, cwd, umask=None, env=None, fsize=None, **k):
        return util.run([self.exe] + args, what="packagetool", cwd=cwd, uid=uid(), umask=umask, env=env, fsize=fsize, **k)


def tool(prop, env):
    if not hasattr(env, "pkgtool"):
        env.pkgtool = Tool(prop, env)
    return env.pkgtool


def give(d):
    """everything below d to the unprivileged user"""
    u = uid()
    os.chown(d, u, u)
    for r, ds, fs in os.walk(os.fsencode(d)):
        for n in ds + fs:
            os.chown(os.path.join(r, n), u, u, follow_symlinks=False)


def staging():
    """staging directories of this worker's user"""
    out, u = [], uid()
    for e in os.scandir("/tmp"):
        if e.name.startswith("TemporaryFolder"):
            try:
                if e.stat(follow_symlinks=False).st_uid == u:
                    out.append(e.path)
            except OSError:
                pass
    return out


def sweep():
    for d in staging():
        shutil.rmtree(d, ignore_errors=True)


def archive(path):
    """[(name bytes, contents)] in the archive"""
    out = []
    with zipfile.ZipFile(path) as z:
        if z.testzip() is not None:
            raise ValueError("bad checksum")
        for i in z.infolist():
            n = i.orig_filename
            out.append((n.encode("utf-8") if i.flag_bits & 0x800 else n.encode("cp437"), z.read(i)))
    return out


def modes(path):
    """{name bytes: permissions} in the archive"""
    with zipfile.ZipFile(path) as z:
        return {(i.orig_filename.encode("utf-8") if i.flag_bits & 0x800 else i.orig_filename.encode("cp437")): i.external_attr >> 16 & 0o777 for i in z.infolist()}


def snapshot(d):
    """{relative name: (kind, mode, contents)} of a tree"""
    out = {}
    d = os.fsencode(d)
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n)
            s = os.lstat(p)
            k = os.path.relpath(p, d)
            if stat.S_ISLNK(s.st_mode):
                out[k] = ("l", 0, os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[k] = ("d", s.st_mode, b"")
            elif not stat.S_ISREG(s.st_mode):
                out[k] = ("o", s.st_mode, b"")
            else:
                with open(p, "rb") as f:
                    out[k] = ("f", s.st_mode, f.read())
    return out
