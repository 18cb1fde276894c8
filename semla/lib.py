"""Encrypted libraries on disk."""
import os
import random
import subprocess

from . import crypt as C
from . import gens as G
from . import proto as P
from .engine import Violation


def fs(s):
    return s.encode("utf-8")


def files(dirs):
    """[(relative name served, contents, relative clear name, encrypted)]"""
    out = []
    for p, pkg, pc, fl in dirs:
        if pkg:
            out.append((G.join(p, "package.moc"), G.data(pc), G.join(p, "package.mo"), True))
        for n, c, e in fl:
            out.append((G.join(p, n) + ("c" if e else ""), G.data(c), G.join(p, n), e))
    return out


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def get(path):
    with open(path, "rb") as f:
        return f.read()


def mkdirs(base, dirs):
    os.makedirs(base, exist_ok=True)
    for d in sorted(dirs, key=lambda d: d[0].count("/")):
        os.makedirs(os.path.join(base, d[0]), exist_ok=True)


def model_masks(dirs, seed):
    """mask per directory (its own, or inherited) and the fresh ones."""
    r = random.Random("masks%d" % seed)
    own = {d[0]: r.randbytes(32) for d in dirs if d[1]}

    def of(p):
        if p in own:
            return own[p]
        return bytes(32) if p == "" else of(p.rpartition("/")[0])
    return own, of


def build(prop, env, dirs, how, seed, clear, enc):
    """Writes the clear tree to `clear` and the encrypted one to `enc`.
    how: 'api' one encryption context, 'cli' encrypt_file per file, 'model' our own implementation."""
    mkdirs(clear, dirs)
    mkdirs(enc, dirs)
    for p, pkg, pc, fl in dirs:
        if pkg:
            put(os.path.join(clear, G.join(p, "package.mo")), G.data(pc))
        for n, c, e in fl:
            put(os.path.join(clear if e else enc, G.join(p, n)), G.data(c))
            if not e:
                put(os.path.join(clear, G.join(p, n)), G.data(c))
    order = G.order(dirs, random.Random("order%d" % seed))
    if how == "model":
        r = random.Random("iv%d" % seed)
        own, of = model_masks(dirs, seed)
        for i, j in order:
            p, pkg, pc, fl = dirs[i]
            if j < 0:
                m = bytes(32) if p == "" else of(p.rpartition("/")[0])
                blob = C.seal(C.xor(prop.key, m), r.randbytes(16), G.data(pc) + own[p])
                put(os.path.join(enc, G.join(p, "package.moc")), blob)
            else:
                put(os.path.join(enc, G.join(p, fl[j][0]) + "c"), C.seal(C.xor(prop.key, of(p)), r.randbytes(16), G.data(fl[j][1])))
        return
    h = None
    if how == "api":
        h = env.proc("crypt", os.path.join(prop.b, "h_crypt"))
        h.ask("rand", 0, 1)
        h.ask("ctx", 0, fs(enc))
    for i, j in order:
        p, pkg, pc, fl = dirs[i]
        rel = G.join(p, "package.mo" if j < 0 else fl[j][0])
        src, dst = os.path.join(clear, rel), os.path.join(enc, rel + "c")
        if how == "api":
            try:
                r = h.ask("enc", 0, fs(rel), fs(src), fs(dst))
            except P.Died as e:
                env.dropproc("crypt")
                raise Violation("encrypting %r: %s" % (rel, e))
            if r.ret != 1:
                raise Violation("mlle_cr_encrypt failed for %r" % rel)
        else:
            r = subprocess.run([os.path.join(prop.b, "encrypt_file"), src, rel + "c", enc], env=P.child_env(), stdin=subprocess.DEVNULL,
                               capture_output=True, timeout=60)
            if r.returncode:
                raise Violation("encrypt_file exit status %d for %r: %s" % (r.returncode, rel, err_tail(r.stderr)))


def err_tail(b):
    t = b.decode("latin1")
    return P.summarize_asan(t) or t[-300:]


def session_end(lve, what="session", ok_status=None):
    """Disconnects; the LVE has to end without a memory error."""
    rc = lve.finish()
    a = lve.asan()
    if a:
        raise Violation("%s: memory error in the LVE: %s" % (what, a))
    if rc is None:
        raise Violation("%s: the LVE did not end after the tool disconnected" % what, soft=True)
    if rc < 0 or rc == 97:
        raise Violation("%s: the LVE ended with status %d: %s" % (what, rc, lve.stderr()[-300:]))
    return rc


class LveSession:
    """with LveSession(binary,...) as l: ... — turns protocol exceptions into Violations naming memory errors."""

    def __init__(self, binary, slow=0, **k):
        self.l = P.Lve(binary, **k)
        self.l.slow = slow

    def __enter__(self):
        self.l.handshake()
        return self.l

    def __exit__(self, t, v, tb):
        try:
            if t is not None and issubclass(t, (P.Died, P.BadReply)):
                rc = self.l.finish(5)
                a = self.l.asan()
                if a:
                    raise Violation("memory error in the LVE: %s (seen as %s)" % (a, v)) from None
                raise Violation("LVE: %s (exit status %s) %s" % (v, rc, self.l.stderr()[-200:])) from None
        finally:
            self.l.kill()
        return False
