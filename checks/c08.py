import random

from semla import gens as G, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg
from checks.c07 import CALLS, call

CMD = {"libpath": "LIB", "feature": "FEATURE", "returnfeature": "RETURNFEATURE", "license": "LICENSE", "returnlicense": "RETURNLICENSE", "file": "FILE"}
EXPECT = {"version": ["VERSION"], "libpath": ["YES"], "feature": ["YES", "NO"], "returnfeature": ["YES"], "license": ["YES", "NOTSIMPLE", "NO"],
          "returnlicense": ["YES"], "file": ["FILECONT"]}
TEXTS = ["", "x", "Feature not licensed", "100% %s %n %d", "\xe5\xe4\xf6", "line1\nline2", " lead", "trail ", "tab\t", "a" * 255, "b" * 256, "c" * 1000,
         "d" * 2000, "e" * 2046, "f" * 2047, "g" * 2048, "h" * 3000, "i" * 16300, "k" * 16366, "l" * 16370, "m" * 16374, "n" * 16377, "o" * 16384, "j" * 20000, "\n", "5", "ERROR 1 2"]
SIZES = [0, 1, 2, 3, 5, 16, 100, 255, 256, 1000, 4095, 4096, 4097, 16369, 16370, 16371, 16372, 16373, 16383, 16384, 16385, 32768, 32757, 40000, 70000]


def arg(spec):
    """argument strings: no NUL"""
    return spec.encode("latin1")


class C08(Prop):
    id = "C08"
    rule = ("a case is a sequence of API calls with the replies of a played LVE, their record cuts and the reads of file contents; non-trivial: at "
            "least one file of two or more bytes was read in more than one piece, or three different kinds of reply occurred")
    quick_n, thorough_n = 3600, 24000

    def gen(self, rng):
        ops, nf, openf = [], 0, []
        for _ in range(rng.randrange(1, 14)):
            x = rng.random()
            if x < 0.45 and openf:
                f = rng.choice(openf)
                y = rng.random()
                if y < 0.8:
                    ops.append(["read", f, rng.choice([0, 1, 2, 3, 7, 16, 100, 255, 1000, 4096, 16384, 100000, 2**31, 2**32 + 1, 2**63 - 1, 2**64 - 1])])
                elif y < 0.92:
                    ops.append(["size", f])
                else:
                    ops.append(["ffree", f])
                    openf.remove(f)
            else:
                c = rng.choice(CALLS + ["file", "file", "feature", "license"])
                rep = rng.choice(EXPECT[c]) if rng.random() < 0.75 else rng.choice(P.ALL)
                a = rng.choice(TEXTS) if rng.random() < 0.6 else "".join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(0, 60)))
                if rep == "FILECONT":
                    b = [rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(0, 3000), rng.randrange(1 << 30)]
                elif rep == "VERSION":
                    b = rng.choice([1, 1, 0, 2, 5])
                elif rep in P.SIMPLE:
                    b = None
                else:
                    b = rng.choice(TEXTS)
                cuts = [rng.choice([1, 2, 3, 10, 100, 4096, 8191, 16383, 16384]) for _ in range(rng.randrange(0, 6))]
                if c == "file":
                    nf += 1
                    openf.append(nf)
                ops.append(["call", c, a, rep, b, cuts, nf, rng.randrange(0, 40)])
        return dict(ops=ops, tls=rng.choice(["1.2", "1.3"]), slow=rng.choice([1, 4, 5, 17, 60, 500]) if rng.random() < 0.06 else 0)

    def corpus(self):
        out = []
        for n in SIZES:
            for step in (1 if n < 300 else 977, 4096):
                out.append(dict(tls="1.3", slow=0, ops=[["call", "file", "f.moc", "FILECONT", [n, n], [], 1, 0], ["size", 1]]
                                + [["read", 1, step]] * (n // step + 2)))
        for n in (10, 30000):
            for big in (2**31 - 1, 2**31, 2**32, 2**32 + 3, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1):
                out.append(dict(tls="1.3", slow=0, ops=[["call", "file", "f.moc", "FILECONT", [n, n], [], 1, 0], ["read", 1, 3], ["read", 1, big], ["read", 1, big]]))
                out.append(dict(tls="1.3", slow=0, ops=[["call", "file", "f.moc", "FILECONT", [n, n], [], 1, 0], ["read", 1, big], ["read", 1, big]]))
        for n in (300000, 1500001):
            out.append(dict(tls="1.3", slow=0, ops=[["call", "file", "f.moc", "FILECONT", [n, n], [], 1, 0]] + [["read", 1, 100000]] * 17))
            for step in (4096, 1000, 65536, 16384):
                out.append(dict(tls="1.3", slow=0, ops=[["call", "file", "f.moc", "FILECONT", [n, n], [], 1, 0]] + [["read", 1, step]] * (n // step + 2)))
        for c in CALLS:
            for rep in P.ALL:
                b = [10, 1] if rep == "FILECONT" else 1 if rep == "VERSION" else None if rep in P.SIMPLE else "some text"
                out.append(dict(tls="1.2", slow=0, ops=[["call", c, "arg", rep, b, [], 1, 0], ["call", "libpath", "x", "YES", None, [], 1, 0]]))
        for n in (1, 2, 3, 4, 5, 6, 11, 16, 17, 40):      # bytes that arrive in pieces
            out.append(dict(tls="1.2" if n % 3 else "1.3", slow=n, ops=[["call", "version", "1", "VERSION", 1, [], 1, 0], ["call", "feature", "f", "NO", "no", [], 1, 0],
                                                                        ["call", "file", "f.moc", "FILECONT", [40000, n], [100], 1, 0]] + [["read", 1, 3000]] * 15))
        return out

    def valid(self, case):
        for o in case["ops"]:
            if o[0] == "call":
                _, c, a, rep, b, cuts, f, lead = o
                if c not in CALLS or rep not in P.ALL or not isinstance(a, str) or "\0" in a or any(x < 1 for x in cuts) or lead < 0:
                    return False
                msg_of(rep, b)
                if not (isinstance(b, list) and len(b) == 2 or rep != "FILECONT"):
                    return False
        return True

    def shrinks(self, case):
        for s in generic_shrinks(case["ops"]):
            yield {**case, "ops": s}

    def run(self, case, env):
        h = env.proc("tool", self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay", tls=case["tls"])
        try:
            h.ask("nullerr", 0)
            h.send("start", 0, f.path.encode())
            t = f.accept()
            t.slow = case["slow"]
            t.handshake()
            r = h.reply()
            if r.ret != 1:
                raise Violation("start failed: %s" % r.line)
            files, kinds, pieces = {}, set(), {}
            for k, o in enumerate(case["ops"]):
                if o[0] == "call":
                    self.one(k, o, h, t, files)
                    kinds.add(o[3])
                    if o[1] == "file":
                        pieces[o[6]] = 0
                elif o[1] not in files:
                    continue
                elif o[0] == "size":
                    s = h.ask("size", o[1])
                    if s.ret != len(files[o[1]][0]):
                        raise Violation("step %d: size %d, sent %d" % (k, s.ret, len(files[o[1]][0])))
                elif o[0] == "ffree":
                    if h.ask("ffree", o[1]).ret != 1:
                        raise Violation("pointer not reset")
                    del files[o[1]]
                elif o[0] == "read":
                    self.read(k, h, files, o[1], o[2])
                    pieces[o[1]] = pieces.get(o[1], 0) + (1 if len(files[o[1]][0]) > 1 else 0)
            for i in list(files):
                while files[i][1] < len(files[i][0]):
                    self.read("end", h, files, i, 50000)
                self.read("end", h, files, i, 10)
                h.ask("ffree", i)
            if h.ask("free", 0).ret != 1:
                raise Violation("connection pointer not reset")
            return len(kinds) >= 3 or any(v > 1 for v in pieces.values()), ["k%d" % len(kinds)]
        except P.Died as e:
            env.dropproc("tool")
            raise Violation("tool library: %s" % e)
        except Exception:
            env.dropproc("tool")
            raise
        finally:
            f.close()

    def read(self, k, h, files, i, n):
        data, off = files[i]
        r = h.ask("read", i, n)
        want = data[off:off + n]
        if off >= len(data):
            if r.ret != -1:
                raise Violation("step %s: read at the end returned %d" % (k, r.ret))
        elif r.ret != len(want) or r.data != want:
            raise Violation("step %s: read(%d) at offset %d of %d returned %d bytes%s"
                            % (k, n, off, len(data), r.ret, "" if r.ret != len(want) else ", other ones"))
        files[i][1] = off + len(want)

    def one(self, k, o, h, t, files):
        _, c, a, rep, b, cuts, fno, lead = o
        if c == "file" and fno in files:
            h.ask("ffree", fno)
            del files[fno]
        if c == "version":
            h.send("version", 0, 1, 1)
        elif c == "file":
            h.send("file", 0, fno, arg(a))
        else:
            h.send(c, 0, arg(a))
        if c != "version" and len(msg(CMD[c], arg(a))) > 16384:      # longer than the LVE takes
            r = h.reply()
            if r.ret == 1 or r.err is None or r.err[2] is None:
                raise Violation("step %d: %s with a string of %d bytes: %s" % (k, c, len(a), r.line[:200]))
            return
        got = t.recv()
        want = ("VERSION", 1) if c == "version" else (CMD[c], arg(a))
        if got != want:
            raise Violation("step %d: %s sent %s, expected %s" % (k, c, repr(got)[:150], repr(want)[:150]))
        if t.buf or t.pending(0):
            raise Violation("step %d: more than one message sent" % k)
        text = msg_of(rep, b)
        head = text.index(b"\n") + 1
        pos = head + min(lead, len(text) - head)
        if not cuts:
            t.send(text)
        else:
            t.send(text[:pos])
            for x in cuts:
                if pos < len(text):
                    t.send(text[pos:pos + x])
                    pos += x
            if pos < len(text):
                t.send(text[pos:])
        r = h.reply()
        what = "step %d: %s answered %s" % (k, c, rep)
        ok = rep in ("YES", "FILECONT", "VERSION") and rep in EXPECT[c] and (rep != "VERSION" or b == 1)
        if (r.ret == 1) != ok:
            raise Violation("%s: result %s" % (what, r.line[:200]))
        if ok:
            if r.err is not None:
                raise Violation("%s: success with an error %r" % (what, r.err))
            if c == "file":
                data = text[head:]
                files[fno] = [data, 0]
                s = h.ask("size", fno)
                if s.ret != len(data):
                    raise Violation("%s: size %d, sent %d" % (what, s.ret, len(data)))
            return
        if r.err is None or r.err[2] is None:
            raise Violation("%s: no error object" % what)
        dom, code, m = r.err
        s = b if isinstance(b, str) else ""
        if rep == "NO" and rep in EXPECT[c]:
            if code != 3 or m != arg(s)[:2047]:
                raise Violation("%s %r: error %d %r" % (what, s[:40], code, m[:80]))
        elif rep == "NOTSIMPLE" and rep in EXPECT[c]:
            if code != 4:
                raise Violation("%s: error code %d" % (what, code))
        elif rep == "ERROR":
            if arg(s)[:1900] not in m:
                raise Violation("%s: text %r not in error %r" % (what, s[:60], m[:160]))
            if code in (3, 4):
                raise Violation("%s: error code %d" % (what, code))
        elif rep == "VERSION" and c == "version":
            if (b"too low" if b < 1 else b"too high") not in m:
                raise Violation("%s %d: %r" % (what, b, m))
        elif rep.encode() not in m or code in (3, 4):
            raise Violation("%s: error %d %r does not name the command" % (what, code, m[:160]))


def msg_of(rep, b):
    if rep in P.SIMPLE:
        return msg(rep)
    if rep == "VERSION":
        return msg(rep, b)
    if rep == "FILECONT":
        return msg(rep, random.Random(b[1]).randbytes(b[0]) if b[1] % 3 else bytes([b[1] % 7]) * b[0])
    if rep == "ERROR":
        return msg(rep, 5, arg(b))
    return msg(rep, arg(b))


PROP = C08()
