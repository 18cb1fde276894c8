"""The same requests, calls or encryptions again and again: allocated memory and open descriptors after each round."""
import os
import select
import signal
import struct
import time

from semla import crypt, gens as G, lib, small, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg
from checks.c06 import gen_blob
from checks.c06 import blob as blob_bytes
from checks.c07 import CALLS
from checks.c08 import EXPECT, TEXTS, SIZES, CMD, arg, msg_of

ROUNDS = 40
RAW = [b"FOO\n", b"\n", b"YES", b"YES\0\n", b"FILECONT x\n", b"FILECONT -1\n", b"NO 3\nabcdef", b"FILECONT 0\nx", b"ERROR 1\n", b"ERROR 1 2\nabc", b"VERSION\n", b"x" * 16384, b"NO 2 3\nab",
       b"FILECONT 99999999999999999999\n", b"\xff\0\n" * 50]


class Growth:
    """Fed once per round; a quantity that is larger in every round than three rounds before, for all rounds, grows without end."""

    def __init__(self):
        self.v = []

    def done(self, n):
        self.v.append(n)
        return any(self.v[j] <= self.v[i] for j in range(3, len(self.v)) for i in range(0, j - 2) if j == len(self.v) - 1)


class C22(Prop):
    id = "C22"
    rule = ("a case is a round of requests to an LVE, of API calls on a connection, of connections opened, used and closed, or of encryption contexts, repeated until "
            "memory and descriptors do not grow any more (at most %d times); non-trivial: the round has at least three operations, one of which fails" % ROUNDS)
    configs = ["asan", "asan-lm"]
    quick_n, thorough_n = 1600, 30000
    assumptions = ["AddressSanitizer's count of allocated bytes", "what is kept for a path, name or directory asked for again is not counted as growth", "the tool ignores SIGPIPE"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        x = rng.random()
        if x < 0.45:
            body, lm = [], rng.choice([None, None, None, "", "no server"])
            for _ in range(rng.randrange(1, 14)):
                if lm and rng.random() < 0.5:
                    body.append(["m", rng.choice(["FEATURE", "RETURNFEATURE"]), rng.choice(["ok", "ok1", "no", "keep", "", "x" * 300])])
                    continue
                if rng.random() < 0.1:
                    body.append(["m", "FILE", rng.choice(["short.moc", "bad.moc", "broken/q.moc", "broken/package.moc", "huge.bin", "large.moc", "large.txt", "badlarge.moc"])])
                    continue
                body.append(["m"] + small.gen_msg(rng, "LICENSE") if rng.random() < 0.7 else ["b", gen_blob(rng)])
            return dict(kind="lve", state=rng.choice(["none", "version", "lib", "lib", "lib", "lib"]), cert=rng.choice(["tool", "tool", "tool", "evil", None]), body=body,
                        tls=rng.choice(["1.2", "1.3"]), lm=lm)
        if x < 0.75:
            body = []
            for _ in range(rng.randrange(1, 7)):
                c = rng.choice(CALLS + ["file", "feature"])
                rep = rng.choice(EXPECT[c]) if rng.random() < 0.7 else rng.choice(P.ALL + ["RAW"])
                if rep == "RAW":
                    body.append([c, "x", rep, rng.randrange(len(RAW)), 0])
                    continue
                b = [rng.choice(SIZES), rng.randrange(1 << 20)] if rep == "FILECONT" else rng.choice([1, 0, 2]) if rep == "VERSION" else None if rep in P.SIMPLE else rng.choice(TEXTS)
                body.append([c, rng.choice(TEXTS[:9]), rep, b, rng.choice([0, 1, 100, 10**6])])
            return dict(kind="tool", body=body, tls=rng.choice(["1.2", "1.3"]))
        if x < 0.85:
            body = []
            for _ in range(rng.randrange(1, 4)):
                k = rng.choice(["ok", "ok", "missing", "noexec", "exits", "talks", "cut", "cut"])
                if k == "cut":
                    body.append([k, [[rng.choice(["file", "feature", "version", "libpath"]), rng.choice([0, 0, 1, 3, 9, 11, 12, 13, 100, 16383, 16384, 16385, 30000])] for _ in range(rng.randrange(0, 3))]])
                    continue
                body.append([k, [[rng.choice(["file", "feature", "license", "file"]), rng.choice(["x.moc", "plain.txt", "none", "sub", "test_licensed_feature"])]
                                 for _ in range(rng.randrange(0, 4))] if k == "ok" else []])
            return dict(kind="conn", body=body)
        return dict(kind="crypt", body=[[rng.choice(["enc", "dec", "dec", "damaged", "short", "orphan", "missing", "large", "badlarge"]), rng.randrange(6)] for _ in range(rng.randrange(1, 9))])

    def corpus(self):
        out = []
        for o in (["FILE", "x.moc"], ["FILE", "sub/y.moc"], ["FILE", "plain.txt"], ["FILE", "nope"], ["FILE", "sub"], ["FILE", ""], ["FILE", "../two/x.moc"], ["FILE", "sub/empty.txt"],
                  ["FILE", "nopkg/z.moc"], ["FILE", "@bad.moc"], ["FILE", "short.moc"], ["FILE", "huge.bin"], ["FILE", "large.moc"], ["FILE", "large.txt"], ["FILE", "badlarge.moc"], ["FILE", "broken/q.moc"], ["FEATURE", "test_licensed_feature"], ["FEATURE", "x"], ["RETURNFEATURE", "x"],
                  ["LICENSE", "x"], ["RETURNLICENSE", "x"], ["VERSION", 1], ["VERSION", 0], ["LIB", "@one"], ["LIB", "@none"], ["LIB", ""], ["TOOLS"], ["YES"], ["NO", "x"], ["ERROR", 1, "x"], ["FILECONT", "abc"]):
            for st in ("lib", "version", "none"):
                for cert in ("tool", "evil"):
                    out.append(dict(kind="lve", state=st, cert=cert, body=[["m"] + o], tls="1.3", lm=None))
        for lm in ("", "no server"):
            for o in (["FEATURE", "ok"], ["FEATURE", "no"], ["RETURNFEATURE", "ok"], ["RETURNFEATURE", "no"], ["RETURNFEATURE", "keep"], ["LIB", "@one"]):
                out.append(dict(kind="lve", state="lib", cert="tool", body=[["m"] + o], tls="1.3", lm=lm))
        for c in CALLS:
            for rep in P.ALL:
                b = [100, 1] if rep == "FILECONT" else 1 if rep == "VERSION" else None if rep in P.SIMPLE else "some text"
                out.append(dict(kind="tool", body=[[c, "arg", rep, b, 0]], tls="1.3"))
            out.append(dict(kind="conn", body=[["cut", [[c, 0]]]]))
            out.append(dict(kind="conn", body=[["cut", [[c, 13]]]]))
            out.append(dict(kind="conn", body=[["cut", [[c, 16385]]]]))
        for i in range(len(RAW)):
            for c in ("file", "version", "license"):
                out.append(dict(kind="tool", body=[[c, "x", "RAW", i, 0]], tls="1.3"))
        out += [dict(kind="conn", body=[[k, []]]) for k in ("ok", "missing", "noexec", "exits", "talks")]
        out += [dict(kind="crypt", body=[[k, i]]) for k in ("enc", "dec", "damaged", "short", "orphan", "missing") for i in range(4)]
        out += [dict(kind="crypt", body=[[k, 0]]) for k in ("large", "badlarge")]
        for n, step in ((300000, 0), (300000, 1000), (300000, 10**6), (2000000, 70000)):
            out.append(dict(kind="tool", body=[["file", "x", "FILECONT", [n, 1], step]], tls="1.3"))
        return out

    def valid(self, case):
        if not case["body"]:
            return False
        for o in case["body"]:
            if case["kind"] == "lve" and o[0] == "m" and not small.valid_msg(o[1:]):
                return False
            if case["kind"] == "tool":
                if o[2] == "RAW" and o[0] in CALLS and o[3] in range(len(RAW)) and o[4] >= 0:
                    continue
                if o[0] not in CALLS or o[2] not in P.ALL or not isinstance(o[1], str) or o[4] < 0:
                    return False
                msg_of(o[2], o[3])
            if case["kind"] in ("conn", "crypt") and len(o) != 2:
                return False
            if case["kind"] == "conn" and (o[0] not in ("ok", "missing", "noexec", "exits", "talks", "cut") or not all(
                    len(x) == 2 and x[0] in CALLS and isinstance(x[1], int if o[0] == "cut" else str) and (o[0] != "cut" or x[1] >= 0) for x in o[1])):
                return False
            if case["kind"] == "crypt" and o[0] not in ("enc", "dec", "damaged", "short", "orphan", "missing", "large", "badlarge"):
                return False
        return True

    def shrinks(self, case):
        for s in generic_shrinks(case["body"]):
            yield {**case, "body": s}

    def run(self, case, env):
        try:
            f, n = getattr(self, "run_" + case["kind"])(case, env)
        except P.Died as e:
            raise Violation("%s: %s" % (case["kind"], e))
        return len(case["body"]) > 2 and f, [case["kind"], "rounds%d" % min(n, 9)]

    def judge(self, g, r, what, *vals):
        """True when nothing grows any more"""
        ok = [x.done(v) for x, v in zip(g, vals)]
        for x, d in zip(g, ok):
            x.ok = getattr(x, "ok", False) or d
        if all(x.ok for x in g):
            return True
        if r + 1 == ROUNDS:
            for x, n in zip(g, ("allocated bytes", "open descriptors")):
                if not x.ok:
                    raise Violation("%s: %s after each round: %s ... %s" % (what, n, x.v[:6], x.v[-4:]))
        return False

    # ---- LVE

    def lib(self, env):
        sm = small.get(self, env)
        if not os.path.exists(sm.one + "/short.moc"):
            lib.put(sm.one + "/short.moc", b"too short")
            b = bytearray(lib.get(sm.one + "/x.moc"))
            b[len(b) // 2] ^= 4
            lib.put(sm.one + "/bad.moc", bytes(b))
            for n in (43, 42, 41):
                try:
                    with open(sm.one + "/huge.bin", "wb") as f:     # more than can be read into memory (only a hole)
                        f.truncate(1 << n)
                    break
                except OSError:
                    pass
            key = crypt.product_key(self.bin["asan"])
            blob = crypt.seal(crypt.xor(key, crypt.open_(key, lib.get(sm.one + "/package.moc"))[-32:]), bytes(16), b"large" * 90001)
            lib.put(sm.one + "/large.moc", blob)
            lib.put(sm.one + "/badlarge.moc", blob[:200000] + b"?" + blob[200001:])
            lib.put(sm.one + "/large.txt", b"large" * 90001)
            os.mkdir(sm.one + "/broken")
            lib.put(sm.one + "/broken/package.moc", bytes(b))
            lib.put(sm.one + "/broken/q.moc", bytes(b))
        return sm

    def run_lve(self, case, env):
        sm = self.lib(env)
        fifo = os.path.join(env.scratch, "fifo%d" % env.n)
        env.n += 1
        os.mkfifo(fifo)
        fd = os.open(fifo, os.O_RDWR | os.O_NONBLOCK)
        try:
            e = dict(MEMSTAT_FIFO=fifo, LD_PRELOAD=self.b + "/libmemstat.so", ASAN_OPTIONS=P.child_env()["ASAN_OPTIONS"] + ":verify_asan_link_order=0")
            if case["lm"]:
                e["LM_NEW_FAIL"] = case["lm"]
            with lib.LveSession(self.bin["asan" if case["lm"] is None else "asan-lm"] + "/lve_linux64", cert=case["cert"], tls=case["tls"], env=e) as l:
                if case["state"] != "none":
                    l.ask(msg("VERSION", 1))
                if case["state"] == "lib":
                    l.ask(msg("LIB", sm.one.encode()))
                g = [Growth(), Growth()]
                fails = False
                for r in range(ROUNDS):
                    for o in case["body"]:
                        if o[0] == "m":
                            d = msg(*[o[1]] + [sm.resolve(v.replace("@bad", "bad")) if isinstance(v, str) else v for v in o[2:]])
                            if len(d) > 16384:
                                continue
                        else:
                            d = blob_bytes(o[1])
                            if not d or len(d) > 16384:
                                continue
                        x = l.ask(d)
                        fails |= x[0] == "ERROR"
                    if self.judge(g, r, "LVE", self.mem(l, fd), len(os.listdir("/proc/%d/fd" % l.p.pid))):
                        break
                lib.session_end(l)
                return fails, r
        finally:
            os.close(fd)
            os.unlink(fifo)

    def mem(self, l, fd):
        """the least of readings until two in a row agree: the LVE may still be tidying up"""
        best, last = None, None
        for _ in range(20):
            l.p.send_signal(signal.SIGUSR1)
            if not select.select([fd], [], [], P.TIMEOUT)[0]:
                if l.p.poll() is not None:
                    raise P.Died("the LVE ended")
                raise P.Timeout("memory")
            n = struct.unpack("N", os.read(fd, 8))[0]
            best = n if best is None else min(best, n)
            if n == last:
                return best
            last = n
            time.sleep(0.001)
        return best

    # ---- tool library

    def run_tool(self, case, env):
        h = P.LineProc(self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay", tls=case["tls"])
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            t.handshake()
            if h.reply().ret != 1:
                raise Violation("start failed")
            g, fails = [Growth(), Growth()], False
            for r in range(ROUNDS):
                for c, a, rep, b, rd in case["body"]:
                    if c == "version":
                        h.send("version", 0, 1, 1)
                    elif c == "file":
                        h.send("file", 0, 1, arg(a))
                    else:
                        h.send(c, 0, arg(a))
                    t.recv()
                    t.send(RAW[b] if rep == "RAW" else msg_of(rep, b))
                    x = h.reply()
                    fails |= x.ret != 1
                    if c == "file" and x.ret == 1:
                        if rd:
                            h.ask("read", 1, rd)
                        h.ask("ffree", 1)
                if self.judge(g, r, "tool library", h.ask("mem").ret, h.ask("fds").ret):
                    break
            return fails, r
        finally:
            h.kill()
            f.close()

    def run_conn(self, case, env):
        sm = self.lib(env)
        d = os.path.join(env.scratch, "exes")
        if not os.path.isdir(d):
            os.mkdir(d)
            for n, b, m in (("noexec", b"#!/bin/sh\n", 0o644), ("exits", b"#!/bin/sh\nexit 3\n", 0o755), ("talks", b"#!/bin/sh\necho hello\n", 0o755)):
                lib.put(d + "/" + n, b)
                os.chmod(d + "/" + n, m)
        h = P.LineProc(self.b + "/h_tool")
        try:
            g, fails = [Growth(), Growth()], False
            for r in range(ROUNDS):
                for k, calls in case["body"]:
                    if k == "cut":
                        self.cut(h, calls, env)
                        fails = True
                        continue
                    x = h.ask("start", 0, (self.b + "/lve_linux64" if k == "ok" else d + "/" + k).encode())
                    if x.ret == 1:
                        h.ask("version", 0, 1, 1)
                        h.ask("libpath", 0, sm.one.encode())
                        for c, a in calls:
                            y = h.ask("file", 0, 1, a.encode()) if c == "file" else h.ask(c, 0, a.encode())
                            if c == "file" and y.ret == 1:
                                h.ask("ffree", 1)
                            fails |= y.ret != 1
                        h.ask("free", 0)
                    elif k == "ok":
                        raise Violation("start failed: %s" % x.line)
                    fails |= x.ret != 1
                h.ask("reap")
                if self.judge(g, r, "tool library, connections", h.ask("mem").ret, h.ask("fds").ret):
                    break
            return fails, r
        finally:
            h.kill()

    def cut(self, h, calls, env):
        """a connection that ends so many bytes into the reply of the last call (without calls: in the handshake)"""
        f = P.FakeLve(env.scratch, self.b + "/relay")
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            if not calls:
                f.close()
                if h.reply().ret == 1:
                    raise Violation("start succeeded without a handshake")
                return
            t.handshake()
            if h.reply().ret != 1:
                raise Violation("start failed")
            for j, (c, n) in enumerate(calls):
                last = j + 1 == len(calls)
                full = {"file": b"FILECONT 30001\n" + b"x" * 30001, "feature": b"NO 30001\n" + b"x" * 30001, "version": b"VERSION 1\n"}.get(c, b"YES\n")
                h.send("version", 0, 1, 1) if c == "version" else h.send("file", 0, 1, b"x") if c == "file" else h.send(c, 0, b"x")
                t.recv()
                if last:
                    if full[:min(n, len(full) - 1)]:
                        t.send(full[:min(n, len(full) - 1)])
                    f.close()
                else:
                    t.send(full)
                x = h.reply()
                if last and x.ret == 1:
                    raise Violation("%s succeeded with a reply cut after %d bytes" % (c, n))
                if c == "file" and x.ret == 1:
                    h.ask("ffree", 1)
            h.ask("feature", 0, b"x")
            h.ask("free", 0)
        finally:
            f.close()
            import shutil
            shutil.rmtree(f.dir)

    # ---- encryption and decryption

    def run_crypt(self, case, env):
        sm = self.lib(env)
        d = env.newdir()
        h = P.LineProc(self.b + "/h_crypt")
        enc = ["package.mo", "x.mo", "sub/package.mo", "sub/y.mo", "nopkg/z.mo", "sub/y.mo"]
        try:
            lib.put(d + "/in", b"q" * 700)
            g, fails = [Growth(), Growth()], False
            os.makedirs(d + "/out/sub")
            os.makedirs(d + "/out/nopkg")
            for r in range(ROUNDS):
                h.ask("ctx", 0, lib.fs(sm.one))
                h.ask("ctx", 1, lib.fs(d + "/out"))
                for k, i in case["body"]:
                    rel = enc[i % 6]
                    if k == "enc":
                        x = h.ask("enc", 1, lib.fs(rel), lib.fs(d + "/in"), lib.fs(d + "/out/" + rel + "c"))
                        fails |= x.ret != 1
                        continue
                    src, name = {"dec": (rel + "c", rel + "c"), "damaged": ("bad.moc", "bad.moc"), "short": ("short.moc", "short.moc"), "orphan": ("broken/q.moc", "broken/q.moc"),
                                 "missing": ("x.moc", "gone/x.moc"), "large": ("large.moc", "large.moc"), "badlarge": ("badlarge.moc", "badlarge.moc")}[k]
                    x = h.ask("dec", 0, lib.fs(name), lib.fs(sm.one + "/" + src))
                    fails |= x.ret < 0
                h.ask("cfree", 0)
                h.ask("cfree", 1)
                if self.judge(g, r, "encryption contexts", h.ask("mem").ret, len(os.listdir("/proc/%d/fd" % h.p.pid))):
                    break
            return fails, r
        finally:
            h.kill()
            env.drop(d)


PROP = C22()
