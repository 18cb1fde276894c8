import re
import os
import random
import time

from semla import proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg
from checks.c05 import understood
from checks.c06 import blob, gen_blob

CALLS = ["version", "libpath", "feature", "returnfeature", "license", "returnlicense", "file"]
OKCMD = {"version": ("VERSION",), "libpath": ("YES",), "feature": ("YES",), "returnfeature": ("YES",), "license": ("YES",),
         "returnlicense": ("YES",), "file": ("FILECONT",)}
GOOD = {"version": ("VERSION", 1), "libpath": ("YES",), "feature": ("YES",), "returnfeature": ("YES",), "license": ("NOTSIMPLE",),
        "returnlicense": ("YES",), "file": ("FILECONT", b"0123456789" * 30)}
SCRIPTS = {
    "true": "#!/bin/sh\nexit 0\n", "false": "#!/bin/sh\nexit 1\n", "echo": "#!/bin/sh\necho hello\n",
    "garbage": "#!/bin/sh\nhead -c 5000 /dev/urandom\n", "killed": "#!/bin/sh\nkill -9 $$\n", "badinterp": "#!/nonexistent/interp\n",
    "empty": "", "binary": "\x7fELF\x00\x01\x02garbage", "plaintext": "#!/bin/sh\nread x\nprintf 'VERSION 1\\n'\n", "zeros": "#!/bin/sh\nhead -c 100000 /dev/zero\n",
    "alert": "#!/bin/sh\nprintf '\\025\\003\\003\\000\\002\\002\\050'\n", "closeout": "#!/bin/sh\nexec 1>&-\nhead -c 10 >/dev/null\n",
}


TEXTS = [b"text ", b"%s%s%s%s", b"%n", b"%d %s", b"%100000d", b"%1$n%2$s", b"100%", b"%", b"%ls", b"\n", b"\xff\xfe"]


def call(h, name, arg=b"arg", minv=1, maxv=1):
    if name == "version":
        h.send("version", 0, minv, maxv)
    elif name == "file":
        h.send("file", 0, 0, arg)
    else:
        h.send(name, 0, arg)


class C07(Prop):
    id = "C07"
    rule = ("a case is a history of API calls and what the (played) LVE does: reply records of any bytes, end of stream at any byte, or an "
            "executable that is no LVE; non-trivial: at least one call did not get a plain expected reply")
    quick_n, thorough_n = 4500, 40000
    alt_corpus = 3

    def gen(self, rng):
        x = rng.random()
        if x < 0.72:
            pre = [rng.choice(CALLS) for _ in range(rng.randrange(0, 3))]
            c = rng.choice(CALLS)
            y = rng.random()
            good = msg(*GOOD[c])
            if c in ("feature", "license") and rng.random() < 0.4:
                good = msg("NO", rng.choice(TEXTS) * rng.choice([0, 1, 1, 3, 100, 300]))
            elif c == "file":
                good = msg("FILECONT", bytes([65 + rng.randrange(26)]) * rng.choice([0, 1, 5, 300, 5000, 16370, 16384, 40000]))
            elif rng.random() < 0.15:
                good = msg("ERROR", rng.choice([1, 5, 9, -3, 2**31]), rng.choice(TEXTS) * rng.choice([0, 1, 2, 50]) + b"e" * rng.choice([0, 1, 50, 2040, 2047, 2048, 2100, 9000]))
            if y < 0.35:
                recs = [gen_blob(rng) for _ in range(rng.randrange(1, 4))]
            elif y < 0.75:
                recs, p = [], 0
                if rng.random() < 0.4:
                    g = bytearray(good)
                    for _ in range(rng.randrange(1, 4)):
                        i = rng.randrange(min(len(g), 25))
                        g[i:i + rng.randrange(2)] = rng.choice([b"", b"9", b"0", b"-", b" ", b"\n", b"\0", b"1", b"99999999", b"4294967296"])
                    good = bytes(g)
                if rng.random() < 0.3:
                    good = good[:rng.randrange(len(good) + 1)]
                while p < len(good):
                    n = rng.choice([1, 2, 3, 5, 8, 100, 1000, 16384, 16384])
                    recs.append(["hex", good[p:p + n].hex()] if n < 2000 or len(good) < 2000 else ["sl", c, p, n])
                    p += n
                if any(r[0] == "sl" for r in recs):
                    recs = [["sl", good[:12].hex(), good[12:13].hex() or "41", len(good), p, n2] for p, n2 in self.pieces(rng, len(good))]
            else:
                recs = [["msg", rng.choice(P.ALL), [rng.choice([0, 1, 5, 2**31, 2**32, 2**62, -1, 100, 16384, 20000, 10**9])] * rng.choice([0, 1, 1, 1, 2]),
                         rng.choice([0, 1, 5, 100, 16000]), 66, True]]
                if rng.random() < 0.5:
                    recs += [["rand", rng.choice([1, 100, 16384]), rng.randrange(1 << 20)] for _ in range(rng.randrange(1, 3))]
            return dict(kind="reply", pre=pre, call=c, recs=recs, end=rng.choice(["close", "close", "notify", "reset"]),
                        nullerr=rng.random() < 0.1, tls=rng.choice(["1.2", "1.3"]), after=rng.choice(CALLS))
        if x < 0.94:
            return dict(kind="cut", at=rng.choice([rng.randrange(0, 2600), rng.randrange(1400, 2600), rng.randrange(0, 9000)]), tls=rng.choice(["1.2", "1.3"]),
                        calls=[rng.choice(CALLS) for _ in range(rng.randrange(1, 5))], flip=rng.random() < 0.3)
        return dict(kind="exec", what=rng.choice(sorted(SCRIPTS) + ["dir", "missing", "noexec", "devnull", "longpath"]), nullerr=rng.random() < 0.2)

    @staticmethod
    def pieces(rng, n):
        out, p = [], 0
        while p < n:
            k = rng.choice([1, 17, 1000, 5000, 16384])
            out.append((p, k))
            p += k
        return out

    def corpus(self):
        out = [dict(kind="exec", what=w, nullerr=e) for w in sorted(SCRIPTS) + ["dir", "missing", "noexec", "devnull", "longpath"] for e in (False, True)]
        for c in CALLS:
            for end in ("close", "notify", "reset"):
                for r in ([], [["hex", msg("ERROR", 5, b"no").hex()]], [["hex", msg(*GOOD[c])[:-1].hex()]], [["hex", b"\n".hex()]], [["hex", "00"]]):
                    out.append(dict(kind="reply", pre=[], call=c, recs=r, end=end, nullerr=False, tls="1.3", after=c))
            # no line feed, so not complete, whatever comes instead of it or after it
            for m in (b"VERSION 11", b"VERSION 1x", b"VERSION 1 ", b"VERSION 1", b"YESS", b"YES ", b"YES\0", b"YES", b"NOTSIMPLE,", b"NO 0", b"NO 00", b"FILECONT 0", b"FILECONT 00", b"ERROR 1 0", b"ERROR 1 00"):
                out.append(dict(kind="reply", pre=[], call=c, recs=[["hex", m.hex()]], end="close", nullerr=False, tls="1.3", after=c))
                out.append(dict(kind="reply", pre=[], call=c, recs=[["hex", m.hex()], ["hex", "0a"]], end="close", nullerr=False, tls="1.3", after=c))
            for t in TEXTS:
                for m in (msg("ERROR", 5, t * 4), msg("NO", t * 4)):
                    out.append(dict(kind="reply", pre=[], call=c, recs=[["hex", m.hex()]], end="close", nullerr=False, tls="1.2", after=c))
        return out

    def valid(self, case):
        if case["kind"] == "reply":
            for r in case["recs"]:
                self.rec(r)
            return case["call"] in CALLS and case["after"] in CALLS and all(c in CALLS for c in case["pre"]) \
                and case["end"] in ("close", "notify", "reset") and case["tls"] in ("1.2", "1.3")
        if case["kind"] == "cut":
            return all(c in CALLS for c in case["calls"])
        return True

    def shrinks(self, case):
        if case["kind"] == "reply":
            for k in ("pre", "recs"):
                for s in generic_shrinks(case[k]):
                    yield {**case, k: s}
            for i, r in enumerate(case["recs"]):
                if r[0] != "hex":
                    yield {**case, "recs": case["recs"][:i] + [["hex", self.rec(r).hex()]] + case["recs"][i + 1:]}
        elif case["kind"] == "cut":
            for s in generic_shrinks(case["calls"]):
                yield {**case, "calls": s}

    @staticmethod
    def rec(spec):
        if spec[0] == "sl":
            _, head, ch, total, p, n = spec
            h = bytes.fromhex(head)
            return (h + bytes.fromhex(ch) * max(0, total - len(h)))[p:p + n]
        return blob(spec)

    def run(self, case, env):
        h = env.proc("tool", self.b + "/h_tool")
        try:
            h.ask("nullerr", 1 if case.get("nullerr") else 0)
            return getattr(self, "run_" + case["kind"])(case, env, h)
        except P.Died as e:
            env.dropproc("tool")
            raise Violation("tool library: %s" % e)
        except (P.Timeout, Violation):
            env.dropproc("tool")
            raise
        except Exception:
            env.dropproc("tool")
            raise

    def check_failed(self, r, what, nullerr):
        if r.ret == 1:
            raise Violation("%s: success" % what)
        if not nullerr and (r.err is None or r.err[2] is None):
            raise Violation("%s: failed without an error message (%s)" % (what, r.line))

    def run_reply(self, case, env, h):
        f = P.FakeLve(env.scratch, self.b + "/relay", tls=case["tls"])
        ne = case["nullerr"]
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            t.handshake()
            r = h.reply()
            if r.ret != 1:
                raise Violation("start failed: %s" % r.line)
            for c in case["pre"]:
                call(h, c)
                t.recv()
                t.send(msg(*GOOD[c]))
                r = h.reply()
                if (r.ret == 1) != (c != "license"):
                    raise Violation("%s with a proper reply: %s" % (c, r.line))
                if c == "file":
                    h.ask("ffree", 0)
            c = case["call"]
            call(h, c)
            t.recv()
            recs = [self.rec(x) for x in case["recs"]]
            text = b"".join(recs)
            for x in recs:
                if x:
                    try:
                        t.send(x)
                    except P.Died:
                        break
            if case["end"] == "notify":
                t.unwrap()
            elif case["end"] == "close":
                f.close()
            else:
                f.c.setsockopt(__import__("socket").SOL_SOCKET, __import__("socket").SO_LINGER, b"\1\0\0\0\0\0\0\0")
                f.close()
            r = h.reply()
            u = understood(text)
            first = recs[0] if recs else b""
            expected = u is not None and u[0] in OKCMD[c] and (c != "version" or u[1] == 1) and first.find(b"\n") >= 0
            if expected and u[0] in P.SIMPLE | P.NUMBER and len([x for x in recs if x]) != 1:
                expected = None
            if expected and r.ret != 1:
                raise Violation("%s: complete reply %r in %d records refused: %s" % (c, text[:60], len(recs), r.line[:200]))
            if r.ret == 1:
                head = first.lstrip(b" ")
                line = head.partition(b"\n")
                if not head.startswith(OKCMD[c][0].encode()) or not line[1] or b"\0" in line[0] or line[0].split(b" ")[0] not in [x.encode() for x in OKCMD[c]]:
                    raise Violation("%s: success for reply %r" % (c, text[:80]))
                if c == "file":
                    s = h.ask("size", 0)
                    g = h.ask("read", 0, max(len(text), 1) + 5)
                    got = b"" if g.ret == -1 else g.data
                    # what was sent, or sent before a record that does not belong to the reply any more
                    skip = text.find(b"\n") + 1
                    num = re.match(rb" *FILECONT (\d+)", text)
                    if s.ret != len(got) or num and s.ret != int(num.group(1)) or got not in [b"".join(recs[:k])[skip:] for k in range(1, len(recs) + 1)]:
                        raise Violation("file: %d bytes announced and %d taken, %d sent" % (s.ret, len(got), len(text) - skip))
                    h.ask("ffree", 0)
            else:
                self.check_failed(r, "%s with reply %r" % (c, text[:60]), ne)
            # the LVE is gone: further calls fail, and the connection can be closed
            if r.ret != 1 or case["end"] != "notify":
                call(h, case["after"])
                r2 = h.reply()
                # what was left over from the reply may still be taken as an answer
                if not text and r2.ret == 1:
                    raise Violation("%s: success after the LVE had ended" % case["after"])
                if r2.ret != 1:
                    self.check_failed(r2, "%s after the end" % case["after"], ne)
                elif case["after"] == "file":
                    h.ask("ffree", 0)
            if h.ask("free", 0).ret != 1:
                raise Violation("connection pointer not reset")
            return not (expected and case["end"] == "close"), ["reply-" + c, case["end"]]
        finally:
            f.close()

    def run_cut(self, case, env, h):
        f = P.FakeLve(env.scratch, self.b + "/relay", tls=case["tls"])
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            sent, done = [0], [False]
            real, pump = t.flush, t.pump

            def flush(deadline):
                data = t.outb.read()
                a, cut = case["at"], False
                if sent[0] <= a < sent[0] + len(data) and not done[0]:
                    done[0] = True
                    if case["flip"]:
                        x = bytearray(data)
                        x[a - sent[0]] ^= 0x41
                        data = bytes(x)
                    else:
                        data, cut = data[:a - sent[0]], True
                sent[0] += len(data)
                t.outb.write(data)
                real(deadline)
                if cut:
                    raise P.Died("cut")

            def pump2(deadline):
                pump(min(deadline, time.time() + 1.0) if done[0] else deadline)
            t.flush, t.pump = flush, pump2
            pending, started, ncalls = True, False, 0
            try:
                t.handshake()
                r = h.reply(1.0 if done[0] else P.TIMEOUT)      # it may rightly wait for more of a damaged record
                pending = False
                if r.ret != 1:
                    raise P.Died("start failed")
                started = True
                for c in case["calls"]:
                    call(h, c)
                    pending = True
                    t.recv()
                    t.send(msg(*GOOD[c]))
                    if done[0]:
                        break
                    r = h.reply()
                    pending = False
                    ncalls += 1
                    if (r.ret == 1) != (c != "license"):
                        raise Violation("%s with a proper reply: %s" % (c, r.line))
                    if c == "file":
                        h.ask("ffree", 0)
            except P.Died:
                pass
            except P.Timeout:
                if not done[0]:
                    raise
            f.close()
            if pending:
                r = h.reply()
                c = case["calls"][ncalls] if started else "start"
                if r.ret == 1 and started and c != "license" and not (case["flip"] or sent[0]):
                    raise Violation("success although the LVE died")
                if r.ret != 1:
                    self.check_failed(r, "%s, stream damaged at %d" % (c, case["at"]), False)
                    if not started and r.ret == 0:
                        return done[0], ["cut-start"]
                if r.ret == 1 and c == "file":
                    h.ask("ffree", 0)
                started = True
            elif not started:
                if r.ret != 1:
                    self.check_failed(r, "start", False)
                    return done[0], ["cut-start"]
            call(h, "feature")
            r = h.reply()
            self.check_failed(r, "feature after the end", False)
            h.ask("free", 0)
            return done[0], ["cut-session"]
        finally:
            f.close()

    def run_exec(self, case, env, h):
        w = case["what"]
        d = env.newdir()
        try:
            p = d + "/lve"
            if w in SCRIPTS:
                with open(p, "w", encoding="latin1") as f:
                    f.write(SCRIPTS[w])
                os.chmod(p, 0o755)
            elif w == "dir":
                os.mkdir(p)
            elif w == "noexec":
                open(p, "w").write("#!/bin/sh\n")
                os.chmod(p, 0o644)
            elif w == "devnull":
                p = "/dev/null"
            elif w == "longpath":
                p = d + "/x" * 3000
            r = h.ask("start", 0, p.encode())
            self.check_failed(r, "mlle_start_executable of %s" % w, case["nullerr"])
            return True, ["exec"]
        finally:
            h.ask("reap")
            env.drop(d)


PROP = C07()
