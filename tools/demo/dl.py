"""Helpers of the demonstrations: a scratch directory, a TLS client that plays the
tool for the built LVE, a TLS server that plays the LVE for the built tool library,
and builds of the parts that the project's build leaves out. Run with cwd /repo."""
import os, select, ssl, subprocess, sys, tempfile, time, shutil, atexit

REPO = os.getcwd()
B = os.path.join(REPO, "_build")
HERE = os.path.dirname(os.path.abspath(__file__))
S = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, S, True)
os.environ["PATH"] = "/usr/bin:/bin"


def check(cond, what):
    if not cond:
        print("DEMO: broken:", what)
        sys.exit(1)


def run(*a, **k):
    k.setdefault("timeout", 60)
    return subprocess.run([str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)


def must(*a, **k):
    r = run(*a, **k)
    if r.returncode:
        print("DEMO: setup failed", a, r.stdout[-2000:], r.stderr[-2000:])
        sys.exit(3)
    return r


def path(*p):
    return os.path.join(S, *p)


def put(p, data):
    p = path(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def cert(name="tool", key=None):
    """(cert, key) files; name 'tool' is the trusted key of the build."""
    key = key or ("/opt/vp/openssl_keys/private_key_tool.pem" if name == "tool" else None)
    if key is None:
        key = path(name + ".pem")
        must("openssl", "genrsa", "-traditional", "-out", key, "2048")
    crt = path(name + ".crt")
    must("openssl", "req", "-x509", "-new", "-key", key, "-subj", "/CN=x", "-days", "10", "-out", crt)
    return crt, key


class Gone(Exception):
    pass


class Tls:
    def __init__(self, r, w, ctx, server):
        self.r, self.w = r, w
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.s = ctx.wrap_bio(self.i, self.o, server_side=server)
        self.raw_in = b""
        self.buf = b""

    def _out(self):
        d = self.o.read()
        while d:
            try:
                n = os.write(self.w, d)
            except BrokenPipeError:
                raise Gone("closed")
            d = d[n:]

    def _in(self, t=20):
        if not select.select([self.r], [], [], t)[0]:
            raise Gone("timeout")
        d = os.read(self.r, 65536)
        if not d:
            raise Gone("eof")
        self.raw_in += d
        self.i.write(d)

    def shake(self):
        while True:
            try:
                self.s.do_handshake()
                return self._out()
            except ssl.SSLWantReadError:
                self._out()
                self._in()
            except ssl.SSLError as e:
                raise Gone("tls %s" % e)

    def send(self, d):
        while d:
            self.s.write(d[:16384])
            d = d[16384:]
        self._out()

    def some(self, t=20):
        while True:
            try:
                d = self.s.read(65536)
                if not d:
                    raise Gone("eof")
                return d
            except ssl.SSLWantReadError:
                self._out()
                self._in(t)
            except ssl.SSLError as e:
                raise Gone("tls %s" % e)

    def message(self, t=20):
        """('CMD', number or None, data or None)"""
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                h = self.buf[:i].decode().split(" ")
                if h[0] in ("YES", "NOTSIMPLE", "TOOLS"):
                    n, num = 0, None
                elif h[0] == "VERSION":
                    n, num = 0, int(h[1])
                elif h[0] == "ERROR":
                    n, num = int(h[2]), int(h[1])
                else:
                    n, num = int(h[1]), None
                if len(self.buf) >= i + 1 + n:
                    d = self.buf[i + 1:i + 1 + n]
                    self.buf = self.buf[i + 1 + n:]
                    return h[0], num, d
            self.buf += self.some(t)


class Lve(Tls):
    def __init__(self, crt=None, exe=None, env=None, ciphers=None, tls12=False):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        if tls12:
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        if ciphers:
            ctx.set_ciphers(ciphers)
        if crt is None:
            crt = cert()
        ctx.load_cert_chain(*crt)
        self.p = subprocess.Popen([exe or B + "/lve_linux64"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=dict(os.environ, **(env or {})))
        Tls.__init__(self, self.p.stdout.fileno(), self.p.stdin.fileno(), ctx, False)
        atexit.register(self.p.kill)
        self.shake()

    def ask(self, cmd, arg=None):
        if arg is None:
            m = cmd.encode() + b"\n"
        elif isinstance(arg, int):
            m = b"%s %d\n" % (cmd.encode(), arg)
        else:
            arg = arg if isinstance(arg, bytes) else arg.encode()
            m = b"%s %d\n" % (cmd.encode(), len(arg)) + arg
        self.send(m)
        return self.message()

    def open(self, lib):
        check(self.ask("VERSION", 1)[0] == "VERSION", "VERSION")
        r = self.ask("LIB", lib)
        return r

    def end(self):
        self.p.stdin.close()
        return self.p.wait(20)


FAKE = '''#!/usr/bin/python3
import os, sys
sys.path.insert(0, %r)
os.chdir(%r)
import ssl
from dl import Tls, Gone
c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
c.load_cert_chain(%r, %r)
t = Tls(0, 1, c, True)
try:
    t.shake()
    for reply in %r:
        m = t.message()
        t.send(reply)
    while True:
        t.some(20)
except Gone:
    pass
'''


def fake_lve(replies, name="fake"):
    """An executable that answers the i-th message of the tool with replies[i]."""
    crt, key = cert("fake" + name)
    p = put(name, (FAKE % (HERE, REPO, crt, key, list(replies))).encode())
    os.chmod(p, 0o755)
    return p


INC = ["-I" + B, "-I" + B + "/include"] + ["-I" + REPO + "/src/" + d for d in
       ("common", "tool", "lve", "decryptors/include", "decryptors/default/src", "decryptors/default/include", "license_managers/include",
        "packagetool", "obfuscators/include", "embedfile", "../ThirdParty/uthash")]


def tool_driver(src, *args, **k):
    """Compiles C text against the built tool library and runs it."""
    c = put("drv.c", src.encode())
    must("gcc", "-w", "-g", c, *INC, "-o", path("drv"), B + "/libtool.a", B + "/libmlle_common.a",
         "-lssl", "-lcrypto", "-ldl", "-lpthread")
    return run(path("drv"), *args, **k)


def packagetool():
    """Builds packagetool from the sources with a zip stand-in (stored entries)."""
    d = path("pt")
    os.makedirs(d + "/LVE")
    p = REPO + "/src/packagetool/"
    must("gcc", "-w", "-g", *INC, "-I" + HERE, p + "packagetool.c", p + "arguments.c", p + "manifest.c", p + "utils.c",
         HERE + "/zip.c", "-o", d + "/packagetool", B + "/decryptors/decryptor/libdecryptor.a",
         B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
    shutil.copy(B + "/lve_linux64", d + "/LVE/lve_linux64")
    return d + "/packagetool"


def encrypt(clear, rel, base):
    return run(B + "/encrypt_file", clear, rel, base)
