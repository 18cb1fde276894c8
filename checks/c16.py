"""Raw traffic between tool and LVE searched for marked contents and names; weak ciphers offered; the LVE's log file read."""
import base64
import os
import random
import re
import shutil
import subprocess
import threading

from semla import crypt, gens as G, lib, model, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg

WEAK = ["aNULL:@SECLEVEL=0", "eNULL:@SECLEVEL=0", "AECDH-NULL-SHA:@SECLEVEL=0", "NULL-SHA256:@SECLEVEL=0", "ADH-AES256-SHA256:@SECLEVEL=0",
        "ADH-AES128-GCM-SHA256:AECDH-AES256-SHA:@SECLEVEL=0", "ECDHE-RSA-NULL-SHA:NULL-SHA:@SECLEVEL=0"]
MIXED = ["aNULL:eNULL:ECDHE-RSA-AES128-GCM-SHA256:@SECLEVEL=0", "ADH-AES256-GCM-SHA384:AES256-SHA:@SECLEVEL=0", "ALL:COMPLEMENTOFALL:@SECLEVEL=0",
         "eNULL:AES256-GCM-SHA384:@SECLEVEL=0", None, None]


def word(seed, i):
    r = random.Random("w%d/%d" % (seed, i))
    return "".join(r.choice("abcdefghjkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ") for _ in range(14))


def windows(data, n=12, step=None):
    step = step or max(n, len(data) // 400)
    return [data[i:i + n] for i in range(0, len(data) - n + 1, step)]


def records(raw, what, strict_end=True):
    i = 0
    while i < len(raw):
        if len(raw) - i < 5:
            if strict_end:
                raise Violation("%s: %d bytes after the last TLS record: %r" % (what, len(raw) - i, bytes(raw[i:])))
            return
        t, ma, mi, n = raw[i], raw[i + 1], raw[i + 2], raw[i + 3] << 8 | raw[i + 4]
        if t not in (20, 21, 22, 23) or ma != 3 or mi > 4 or n > 16384 + 2048:
            raise Violation("%s: bytes that are no TLS record at %d: %r" % (what, i, bytes(raw[i:i + 40])))
        i += 5 + n
    if i != len(raw) and strict_end:
        raise Violation("%s: incomplete TLS record at the end" % what)


class Mitm:
    """Between a tool (through the relay) and a real LVE."""

    def __init__(self, f, binary, env):
        self.err = open(os.path.join(f.dir, "err"), "w+b")
        self.f, self.tool, self.lve = f, bytearray(), bytearray()
        f.ls.settimeout(P.TIMEOUT)
        self.p = None
        self.binary, self.env = binary, env

    def start(self):
        c, _ = self.f.ls.accept()
        c.setblocking(True)
        self.c = c
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=P.child_env(**self.env), bufsize=0)
        self.t = [threading.Thread(target=self.up, daemon=True), threading.Thread(target=self.down, daemon=True)]
        for t in self.t:
            t.start()

    def up(self):
        try:
            while True:
                d = self.c.recv(1 << 16)
                if not d:
                    break
                self.tool += d
                self.p.stdin.write(d)
        except OSError:
            pass
        try:
            self.p.stdin.close()
        except OSError:
            pass

    def down(self):
        try:
            while True:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    break
                self.lve += d
                try:
                    self.c.sendall(d)
                except OSError:
                    pass
        except OSError:
            pass
        try:
            self.c.shutdown(1)
        except OSError:
            pass

    def finish(self):
        """exit status or None"""
        try:
            rc = self.p.wait(P.TIMEOUT)
        except subprocess.TimeoutExpired:
            rc = None
        for t in self.t:
            t.join(5)
        return rc

    def close(self):
        if self.p:
            if self.p.poll() is None:
                self.p.kill()
            self.p.wait()
            self.c.close()
        self.err.close()


class C16(Prop):
    id = "C16"
    rule = ("a case is a session with marked contents and names between the tool library and the LVE (traffic recorded in between), between a played tool "
            "and the LVE with chosen TLS version and ciphers, between the tool library and a played LVE, or two sessions on libraries that differ in contents "
            "and masks only and whose logs must agree; non-trivial: contents of at least 100 bytes were transferred, only weak ciphers were offered, or logs were compared")
    quick_n, thorough_n = 1800, 25000
    assumptions = ["the LVE's log file may contain relative paths of library files", "OpenSSL offers anonymous and null ciphers at security level 0"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        x = rng.random()
        nf = rng.randrange(1, 5)
        c = dict(seed=rng.randrange(1 << 30), files=[[rng.randrange(2), rng.randrange(3), [rng.choice([0, 1]), rng.choice([40, 100, 300, 1000, 5000, 17000, 40000]), rng.randrange(1 << 30)]]
                                                     for _ in range(nf)],
                 asks=[[rng.choice(["file", "file", "file", "feature", "returnfeature", "license", "nofile"]), rng.randrange(8)] for _ in range(rng.randrange(2, 12))],
                 log=rng.choice([None, None, "file", "file", "bad", rng.choice(["empty", "dir", "ro"])]), trusted=rng.random() < 0.9)
        if x < 0.12:
            return dict(c, mode="twin", log="file", damage=rng.choice([None, None, "file", "package"]), tls="1.3", ciphers=None)
        if x < 0.5:
            return dict(c, mode="both")
        if x < 0.75:
            return dict(c, mode="lve", tls=rng.choice([None, "1.2", "1.2", "1.3"]), ciphers=rng.choice(MIXED))
        if x < 0.83:
            return dict(c, mode="lve", tls="1.2", ciphers=rng.choice(WEAK))
        if x < 0.92:
            return dict(c, mode="tool", tls=rng.choice([None, "1.2"]), ciphers=rng.choice(MIXED))
        return dict(c, mode="tool", tls="1.2", ciphers=rng.choice(WEAK))

    def corpus(self):
        base = dict(seed=5, files=[[1, 0, [1, 3000, 1]], [1, 1, [0, 500, 2]], [0, 0, [1, 2000, 3]]], asks=[["file", 0], ["file", 1], ["file", 2], ["feature", 0], ["nofile", 1]],
                    log=None, trusted=True)
        out = [dict(base, mode=m, tls="1.2", ciphers=w) for m in ("lve", "tool") for w in WEAK]
        out += [dict(base, mode="both", log=l) for l in (None, "file", "bad", "empty", "dir", "ro")]
        out += [dict(base, mode="twin", log="file", trusted=t, damage=dm, tls="1.3", ciphers=None) for t in (True, False) for dm in (None, "file", "package")]
        return out

    def valid(self, case):
        return len(case["files"]) > 0 and all(f[2][1] >= 0 for f in case["files"])

    def shrinks(self, case):
        for k in ("files", "asks"):
            for s in generic_shrinks(case[k]):
                yield {**case, k: s}

    # the library: marked names; package.mo on top and in one subdirectory
    def library(self, case, env, d, other=0):
        """other: another library that differs in contents and masks only"""
        case = dict(case, files=[[e, di, [c[0], c[1], c[2] + other]] for e, di, c in case["files"]])
        w = [word(case["seed"], i) for i in range(30)]
        s = case["seed"] + other
        dirs = {"": ["", True, [1, 60, s + 1], []], 1: [w[0], True, [1, 70, s + 2], []], 2: [w[0] + "/" + w[1], False, [0, 0, 0], []]}
        for i, (enc, di, c) in enumerate(case["files"]):
            dirs[["", 1, 2][di]][3].append([w[2 + i] + (".mo" if enc else ".txt"), c, bool(enc)])
        t = list(dirs.values())
        lib.build(self, env, t, "model", s, d + "/c", d + "/" + w[20])
        own, of = lib.model_masks(t, s)
        fs = {lib.fs(f[0]): f[1] for f in lib.files(t)}
        return d + "/" + w[20], fs, w, list(own.values())

    def twin(self, case, env):
        """what is logged depends on names, sizes and replies, not on contents and keys"""
        logs = []
        d = env.newdir()
        try:
            for other in (0, 1000, 0):
                base, fs, w, masks = self.library(case, env, d, other)
                names = sorted(fs)
                asks = [("FILE", names[i % len(names)]) if k == "file" else ("FILE", w[10 + i].encode() + b".moc") if k == "nofile" else
                        ({"feature": "FEATURE", "returnfeature": "RETURNFEATURE", "license": "LICENSE"}[k], w[12 + i].encode()) for k, i in case["asks"]]
                bad = [n for n in names if n.endswith(b".moc") and (n.endswith(b"package.moc") == (case["damage"] == "package"))]
                if case["damage"] and bad:
                    p = os.fsencode(base) + b"/" + bad[-1]
                    b = bytearray(lib.get(p))
                    b[-1] ^= 1
                    lib.put(p, bytes(b))
                replies = []
                with P.Lve(self.b + "/lve_linux64", cert="tool" if case["trusted"] else "evil", tls="1.3", env={"SEMLA_LVE_LOG_FILE": d + "/lve.log"}) as l:
                    l.handshake()
                    for t in [("VERSION", 1), ("LIB", base.encode())] + asks:
                        r = l.ask(msg(*t))
                        replies.append(r if r[0] != "FILECONT" else (r[0], len(r[1])))
                    lib.session_end(l)
                self.readlog(d + "/lve.log", fs, masks)
                log = lib.get(d + "/lve.log")
                logs.append((replies, re.sub(rb"(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z][a-z] [ 0-9]\d \d\d:\d\d:\d\d \d{4}|\d+:\d\d:\d\d|\d{4}-\d\d-\d\d", b"<time>", log)))
                shutil.rmtree(base)
                shutil.rmtree(d + "/c", ignore_errors=True)
                os.remove(d + "/lve.log")
        finally:
            env.drop(d)
        if logs[0] != logs[2]:                  # something else is logged that varies
            return False, ["twin-varies"]
        if logs[0][0] != logs[1][0]:
            raise Violation("replies differ for libraries that differ in contents only: %r and %r" % (logs[0][0], logs[1][0]))
        if logs[0][1] != logs[1][1]:
            a, b = next((x, y) for x, y in zip(logs[0][1].split(b"\n") + [b""], logs[1][1].split(b"\n") + [b"-"]) if x != y)
            raise Violation("the log file depends on contents or keys: %r and %r" % (a[:200], b[:200]))
        return True, ["twin", "damage-%s" % case["damage"]]

    def run(self, case, env):
        if case["mode"] == "twin":
            return self.twin(case, env)
        d = env.newdir()
        try:
            base, fs, w, masks = self.library(case, env, d)
            log = None
            e = {}
            if case["log"] == "file":
                log = e["SEMLA_LVE_LOG_FILE"] = d + "/lve.log"
            elif case["log"] == "bad":
                e["SEMLA_LVE_LOG_FILE"] = d + "/no/such/log"
            elif case["log"] in ("empty", "dir", "ro"):
                e["SEMLA_LVE_LOG_FILE"] = {"empty": "", "dir": d, "ro": "/proc/version"}[case["log"]]
            names = sorted(fs)
            asks = []
            for k, i in case["asks"]:
                asks.append(("FILE", names[i % len(names)]) if k == "file" else ("FILE", w[10 + i].encode() + b".moc") if k == "nofile" else
                            ({"feature": "FEATURE", "returnfeature": "RETURNFEATURE", "license": "LICENSE"}[k], w[12 + i].encode()))
            r = getattr(self, "mode_" + case["mode"])(case, env, base, fs, asks, e)
            if r is None:                       # no session
                return True, [case["mode"] + "-weak"]
            sent, streams, total = r
            marks = [x for x in {m for t in asks for m in self.parts(t[1])} | {w[20].encode()}]
            for what, raw in streams:
                for m in marks:
                    if m in raw:
                        raise Violation("%s: the name %r appears in clear" % (what, m))
                for n in sent:
                    for x in windows(fs[n]):
                        if x in raw:
                            raise Violation("%s: part of the contents of a file appears in clear: %r" % (what, x))
                records(raw, what)
            if log and case["mode"] != "tool":
                self.readlog(log, fs, masks)
            return total >= 100, [case["mode"], "log-%s" % case["log"]]
        finally:
            env.drop(d)

    @staticmethod
    def parts(name):
        return [x for x in name.replace(b".", b"/").split(b"/") if len(x) >= 12]

    def readlog(self, log, fs, masks):
        if not os.path.exists(log):
            raise Violation("SEMLA_LVE_LOG_FILE is set and there is no log file")
        raw = lib.get(log)
        low = raw.lower().replace(b":", b"").replace(b" ", b"").replace(b",", b"").replace(b"0x", b"")
        for data in fs.values():
            for x in windows(data):
                if x in raw or x.hex().encode() in low:
                    raise Violation("the log file contains part of a file: %r" % x)
        nums = [int(x) & 255 for x in re.findall(rb"-?\d+", raw) if len(x) < 5]
        nums = bytes(nums)
        keys = [self.key] + masks + [crypt.xor(self.key, m) for m in masks]
        for k in keys:
            for x in windows(k, 6, 1):
                if x in raw or x.hex().encode() in low or x in nums or base64.b64encode(x) in raw:
                    raise Violation("the log file contains part of a key")

    def check(self, m, t, r):
        want = m.step(t)
        if not model.match(want, r):
            raise Violation("%r -> %s, expected %s" % (t, model.show(r), model.show(want)))

    def mode_lve(self, case, env, base, fs, asks, e):
        weak = case["ciphers"] in WEAK
        l = P.Lve(self.b + "/lve_linux64", cert="tool" if case["trusted"] else "evil", tls=case["tls"], ciphers=case["ciphers"], log=True, env=e)
        try:
            try:
                l.handshake()
            except P.Died:
                if not weak:
                    raise
                a = l.asan()
                if a:
                    raise Violation("memory error in the LVE: %s" % a)
                return None
            self.strong(l.s.cipher(), "the LVE")
            m = model.LveModel(trusted=case["trusted"], lookup=lambda p, n: fs.get(n))
            sent, total = set(), 0
            for t in [("VERSION", 1), ("LIB", base.encode())] + asks:
                r = l.ask(msg(*t))
                self.check(m, t, r)
                if r[0] == "FILECONT":
                    sent.add(t[1])
                    total += len(r[1])
            lib.session_end(l)
            l.log_in += l.tail
            return sent, [("bytes sent by the LVE", l.log_in)], total
        finally:
            l.kill()

    @staticmethod
    def strong(c, who):
        n = c[0]
        if "NULL" in n or "ADH" in n or "AECDH" in n or "EXP" in n or c[2] < 112:
            raise Violation("%s agreed to the cipher %s (%s bits)" % (who, n, c[2]))

    def mode_tool(self, case, env, base, fs, asks, e):
        weak = case["ciphers"] in WEAK
        h = env.proc("tool", self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay", tls=case["tls"], ciphers=case["ciphers"], log=True)
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            try:
                t.handshake()
            except P.Died:
                f.close()
                r = h.reply()
                if r.ret == 1:
                    raise Violation("mlle_start_executable succeeded without a handshake")
                if not weak:
                    raise Violation("the tool library did not accept %s" % case["ciphers"])
                return None
            r = h.reply()
            self.strong(t.s.cipher(), "the tool library")
            if r.ret != 1:
                raise Violation("mlle_start_executable failed: %s" % r.line)
            h.send("libpath", 0, base.encode())
            t.recv()
            t.send(msg("YES"))
            h.reply()
            total = 0
            for a in asks:
                k = a[0].lower()
                h.send(*(["file", 0, 0, a[1]] if k == "file" else [k, 0, a[1]]))
                got = t.recv()
                if got != a:
                    raise Violation("the tool sent %r instead of %r" % (got, a))
                t.send(msg("FILECONT", fs.get(a[1], b"")) if k == "file" else msg("YES"))
                total += len(fs.get(a[1], b""))
                r = h.reply()
                if r.ret != 1:
                    raise Violation("%r: %s" % (a, r.line))
                if k == "file":
                    h.ask("ffree", 0)
            h.ask("free", 0)
            try:
                while True:
                    t.pump(P.time.time() + 5)
            except (P.Died, P.Timeout):
                pass
            return set(), [("bytes sent by the tool", t.log_in)], total
        except (P.Died, P.Timeout):
            env.dropproc("tool")
            raise
        except Violation:
            env.dropproc("tool")
            raise
        finally:
            f.close()

    def mode_both(self, case, env, base, fs, asks, e):
        h = env.proc("tool", self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay")
        mm = Mitm(f, self.b + "/lve_linux64", e)
        ok = False
        try:
            h.send("start", 0, f.path.encode())
            mm.start()
            r = h.reply()
            if r.ret != 1:
                raise Violation("mlle_start_executable failed: %s" % r.line)
            m = model.LveModel(lookup=lambda p, n: fs.get(n))
            if h.ask("version", 0, 1, 1).ret != 1 or h.ask("libpath", 0, base.encode()).ret != 1:
                raise Violation("no session")
            m.step(("VERSION", 1))
            m.step(("LIB", base.encode()))
            sent, total = set(), 0
            for a in asks:
                want = m.step(a)
                k = a[0].lower()
                r = h.ask(*(["file", 0, 0, a[1]] if k == "file" else [k, 0, a[1]]))
                if (r.ret == 1) != (want[0] in ("YES", "FILECONT")):
                    raise Violation("%r: %s, expected %s" % (a, r.line, model.show(want)))
                if want[0] == "FILECONT":
                    got = h.ask("read", 0, len(want[1]) + 5)
                    if got.data != want[1]:
                        raise Violation("%r: other contents" % (a,))
                    h.ask("ffree", 0)
                    sent.add(a[1])
                    total += len(want[1])
            h.ask("free", 0)
            h.ask("reap")
            if mm.finish() is None:
                raise Violation("the LVE did not end", soft=True)
            ok = True
            return sent, [("bytes sent by the tool", mm.tool), ("bytes sent by the LVE", mm.lve)], total
        finally:
            mm.close()
            f.close()
            if not ok:
                env.dropproc("tool")


PROP = C16()
