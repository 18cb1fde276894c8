"""An independent model of the SEMLA wire protocol, and a TLS client (playing the
tool) and server (playing the LVE) for it, over plain pipes/sockets."""
import os
import select
import signal
import socket
import ssl
import subprocess
import tempfile
import time

from . import build as B

SIMPLE = {"NOTSIMPLE", "TOOLS", "YES"}
NUMBER = {"VERSION"}
LENGTH = {"FEATURE", "FILE", "FILECONT", "LIB", "LICENSE", "NO", "RETURNFEATURE", "RETURNLICENSE", "TOOLLIST"}
NUMLEN = {"ERROR"}
ALL = sorted(SIMPLE | NUMBER | LENGTH | NUMLEN)
TIMEOUT = 25.0


class Timeout(Exception):
    pass


class Died(Exception):
    """The peer closed the connection or died; .why says what is known."""


class BadReply(Exception):
    pass


def msg(cmd, *a):
    """msg('YES') msg('VERSION', 1) msg('FILE', b'x') msg('ERROR', 5, b'text')"""
    if cmd in SIMPLE:
        return cmd.encode() + b"\n"
    if cmd in NUMBER:
        return b"%s %d\n" % (cmd.encode(), a[0])
    if cmd in LENGTH:
        return b"%s %d\n" % (cmd.encode(), len(a[0])) + a[0]
    return b"%s %d %d\n" % (cmd.encode(), a[0], len(a[1])) + a[1]


def parse(buf):
    """Strict parse of one protocol message. Returns (msg tuple, consumed) or None
    if more bytes are needed; raises BadReply if it cannot be a message."""
    i = buf.find(b"\n")
    if i < 0:
        if len(buf) > 100:
            raise BadReply("no line feed in the first 100 bytes: %r" % buf[:100])
        return None
    try:
        head = buf[:i].decode("ascii").split(" ")
    except UnicodeDecodeError:
        raise BadReply("non-ascii command line %r" % buf[:i])
    cmd = head[0]
    try:
        if cmd in SIMPLE and len(head) == 1:
            return (cmd,), i + 1
        if cmd in NUMBER and len(head) == 2:
            return (cmd, int(head[1])), i + 1
        if cmd in LENGTH and len(head) == 2:
            n = int(head[1])
            if n < 0:
                raise ValueError
            if len(buf) < i + 1 + n:
                return None
            return (cmd, buf[i + 1:i + 1 + n]), i + 1 + n
        if cmd in NUMLEN and len(head) == 3:
            n = int(head[2])
            if n < 0:
                raise ValueError
            if len(buf) < i + 1 + n:
                return None
            return (cmd, int(head[1]), buf[i + 1:i + 1 + n]), i + 1 + n
    except ValueError:
        pass
    raise BadReply("not a protocol message: %r" % buf[:80])


def missing(buf):
    """Bytes needed at least before parse() has a message, for one whose first line is there."""
    i = buf.find(b"\n", 0, 100)
    h = buf[:i].split(b" ") if i >= 0 else []
    return i + 1 + int(h[-1]) - len(buf) if len(h) > 1 and h[0].decode("latin1") in LENGTH | NUMLEN and h[-1].isdigit() else 0


_ctx = {}


def client_ctx(cert, tls=None, ciphers=None):
    k = (cert, tls, ciphers)
    if k not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if tls == "1.2":
            c.maximum_version = ssl.TLSVersion.TLSv1_2
        if tls == "1.3":
            c.minimum_version = ssl.TLSVersion.TLSv1_3
        if ciphers:
            c.set_ciphers(ciphers)
        if cert:
            key = cert if os.path.exists(f"{B.KEYS}/{cert}.pem") else cert.split("_")[0]
            c.load_cert_chain(f"{B.KEYS}/{cert}.crt", f"{B.KEYS}/{key}.pem")
        _ctx[k] = c
    return _ctx[k]


def server_ctx(tls=None, ciphers=None):
    k = ("srv", tls, ciphers)
    if k not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.verify_mode = ssl.CERT_NONE
        if tls == "1.2":
            c.maximum_version = ssl.TLSVersion.TLSv1_2
        if ciphers:
            c.set_ciphers(ciphers)
        c.load_cert_chain(f"{B.KEYS}/lve.crt", f"{B.KEYS}/lve.pem")
        _ctx[k] = c
    return _ctx[k]


def child_env(**extra):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "ASAN_OPTIONS": B.ASAN_ENV}
    e.update(extra)
    return e


class TlsPipe:
    """TLS over (read fd, write fd) through memory BIOs; logs raw traffic if asked."""

    def __init__(self, rfd, wfd, ctx, server, log=False):
        self.r, self.w = rfd, wfd
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.s = ctx.wrap_bio(self.inb, self.outb, server_side=server)
        self.buf = b""
        self.slow = 0            # size of the pieces in which bytes are sent, with pauses in between (0: all at once)
        self.pauses = 150        # at most so many pauses
        self.log_in, self.log_out = (bytearray(), bytearray()) if log else (None, None)
        os.set_blocking(self.w, False)

    def flush(self, deadline):
        data = self.outb.read()
        if self.log_out is not None:
            self.log_out += data
        while data:
            left = deadline - time.time()
            if left <= 0:
                raise Timeout("write")
            _, w, _ = select.select([], [self.w], [], left)
            if not w:
                raise Timeout("write")
            try:
                if self.slow and self.pauses > 0 and len(data) > self.slow:
                    n = os.write(self.w, data[:self.slow])
                    self.pauses -= 1
                    time.sleep(0.0005)
                else:
                    n = os.write(self.w, data)
            except BlockingIOError:
                continue
            except (BrokenPipeError, ConnectionResetError):
                raise Died("peer closed its input")
            data = data[n:]

    def pump(self, deadline):
        left = deadline - time.time()
        if left <= 0:
            raise Timeout("read")
        r, _, _ = select.select([self.r], [], [], left)
        if not r:
            raise Timeout("read")
        try:
            d = os.read(self.r, 1 << 17)
        except ConnectionResetError:
            d = b""
        if not d:
            raise Died("end of stream")
        if self.log_in is not None:
            self.log_in += d
        self.inb.write(d)

    def handshake(self, timeout=TIMEOUT):
        dl = time.time() + timeout
        while True:
            try:
                self.s.do_handshake()
                self.flush(dl)
                return
            except ssl.SSLWantReadError:
                self.flush(dl)
                self.pump(dl)
            except ssl.SSLError as e:
                try:
                    self.flush(dl)
                except (Died, Timeout):
                    pass
                raise Died("tls: %s" % e)

    def send(self, data, timeout=TIMEOUT):
        """One write; up to 16384 bytes travel as one TLS record."""
        dl = time.time() + timeout
        v = memoryview(data)
        while v:
            n = self.s.write(v[:16384])
            v = v[n:]
        self.flush(dl)

    def read_some(self, timeout=TIMEOUT):
        dl = time.time() + timeout
        while True:
            try:
                d = self.s.read(1 << 17)
                if not d:
                    raise Died("close notify")
                return d
            except ssl.SSLWantReadError:
                self.pump(dl)
            except ssl.SSLZeroReturnError:
                raise Died("close notify")
            except ssl.SSLError as e:
                raise Died("tls: %s" % e)

    def recv(self, timeout=TIMEOUT):
        """Next protocol message as a tuple."""
        while True:
            p = parse(self.buf)
            if p:
                m, n = p
                self.buf = self.buf[n:]
                return m
            parts, need = [self.buf, self.read_some(timeout)], missing(self.buf)
            need -= len(parts[1])
            while need > 0:         # of a large message, all the parts before they are put together
                try:
                    parts.append(self.read_some(timeout))
                except Exception:
                    self.buf = b"".join(parts)
                    raise
                need -= len(parts[-1])
            self.buf = b"".join(parts)

    def pending(self, wait=0.0):
        """Any unread application bytes (or end) already available?"""
        if self.buf:
            return True
        try:
            self.buf += self.read_some(timeout=max(wait, 1e-4))
            return True
        except Timeout:
            return False
        except Died:
            return False

    def unwrap(self):
        try:
            self.s.unwrap()
        except ssl.SSLError:
            pass
        try:
            self.flush(time.time() + 2)
        except (Died, Timeout):
            pass


class Lve(TlsPipe):
    """A real LVE process, with us as the tool."""

    def __init__(self, binary, cert="tool", tls=None, log=False, cwd=None, env=None, preexec=None, ciphers=None, args=()):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=child_env(**(env or {})), cwd=cwd, preexec_fn=preexec, bufsize=0)
        super().__init__(self.p.stdout.fileno(), self.p.stdin.fileno(), client_ctx(cert, tls, ciphers), False, log)

    def start(self):
        self.handshake()
        return self

    def ask(self, data, timeout=TIMEOUT):
        self.send(data, timeout)
        return self.recv(timeout)

    def to_license(self, libpath):
        """VERSION, LIB; returns the reply to LIB."""
        r = self.ask(msg("VERSION", 1))
        if r != ("VERSION", 1):
            raise BadReply("VERSION 1 -> %r" % (r,))
        return self.ask(msg("LIB", os.fsencode(libpath)))

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("latin1")

    def asan(self):
        t = self.stderr()
        return summarize_asan(t)

    def finish(self, timeout=TIMEOUT, notify=True):
        """Disconnect; returns the exit status (negative: signal), None if it did not end."""
        if notify:
            self.unwrap()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        dl = time.time() + timeout
        self.tail = b""
        while True:     # drain what it still says, so that it cannot block or take SIGPIPE
            left = dl - time.time()
            r = select.select([self.p.stdout], [], [], left)[0] if left > 0 else []
            if not r:
                break
            d = os.read(self.r, 1 << 16)
            if not d:
                break
            self.tail += d
        try:
            return self.p.wait(max(dl - time.time(), 0.1))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return None

    def kill(self):
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.err.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def summarize_asan(text):
    if "ERROR: AddressSanitizer" not in text:
        return None
    lines = text.splitlines()
    head = next((l for l in lines if "ERROR: AddressSanitizer" in l), "AddressSanitizer")
    head = head.split("ERROR: ")[-1].split(" on address")[0].split(" (pc")[0]
    frames = [l.strip() for l in lines if l.strip().startswith("#") and "/src/" in l][:3]
    fr = [f.split(" in ")[-1] for f in frames]
    return (head + " at " + " < ".join(fr))[:400]


class LineProc:
    """A harness program with a line protocol."""

    def __init__(self, binary, env=None, cwd=None):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=child_env(**(env or {})), cwd=cwd, bufsize=0, start_new_session=True)
        self.buf = b""

    def send(self, *toks):
        line = " ".join(hx(t) if isinstance(t, (bytes, bytearray)) else str(t) for t in toks) + "\n"
        try:
            self.p.stdin.write(line.encode())
        except BrokenPipeError:
            raise Died(self.death())

    def reply(self, timeout=TIMEOUT):
        dl = time.time() + timeout
        chunks = [self.buf]
        while b"\n" not in chunks[-1]:
            left = dl - time.time()
            r = select.select([self.p.stdout], [], [], max(left, 0))[0] if left > 0 else []
            if not r:
                self.buf = b"".join(chunks)
                raise Timeout("harness")
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Died(self.death())
            chunks.append(d)
        all_ = b"".join(chunks)
        line, self.buf = all_.split(b"\n", 1)
        return Rep(line.decode("ascii", "replace"))

    def ask(self, *toks, timeout=TIMEOUT):
        self.send(*toks)
        return self.reply(timeout)

    def death(self):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        return self.asan() or "exit status %s" % rc

    def asan(self):
        self.err.seek(0)
        return summarize_asan(self.err.read().decode("latin1"))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        self.p.wait()
        self.err.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def hx(b):
    return bytes(b).hex() or "-"


class Rep:
    def __init__(self, line):
        self.line = line
        self.f = {}
        for t in line.split(" "):
            if "=" in t:
                k, v = t.split("=", 1)
                self.f[k] = v

    @property
    def ret(self):
        return int(self.f["ret"])

    @property
    def data(self):
        v = self.f.get("data", "-")
        return b"" if v == "-" else bytes.fromhex(v)

    @property
    def err(self):
        """None or (domain, code, message bytes or None)"""
        v = self.f.get("err", "none")
        if v == "none":
            return None
        d, c, m = v.split(",")
        return int(d), int(c), None if m == "null" else (b"" if m == "-" else bytes.fromhex(m))


class FakeLve:
    """We play the LVE for a tool that starts the relay program."""

    def __init__(self, scratch, relay, tls=None, log=False, ciphers=None):
        self.dir = tempfile.mkdtemp(dir=scratch)
        self.path = os.path.join(self.dir, "lve")
        os.symlink(relay, self.path)
        self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind(self.path + ".sock")
        self.ls.listen(1)
        self.tls, self.log, self.ciphers = tls, log, ciphers
        self.c = None
        self.pipe = None

    def accept(self, timeout=TIMEOUT):
        self.ls.settimeout(timeout)
        try:
            self.c, _ = self.ls.accept()
        except socket.timeout:
            raise Timeout("accept")
        self.c.setblocking(True)
        self.pipe = TlsPipe(self.c.fileno(), self.c.fileno(), server_ctx(self.tls, self.ciphers), True, self.log)
        return self.pipe

    def close(self):
        if self.c:
            try:
                self.c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.c.close()
            self.c = None
        self.ls.close()
