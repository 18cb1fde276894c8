"""Several LVE connections through the tool API: every connection against its own model, processes and descriptors counted."""
import ctypes
import functools
import os
import signal
import time

from semla import crypt, lib, model, small, proto as P
from semla.engine import Prop, Violation

NC = 24
BIG = "big.txt"
FILES = small.NAMES1 + [BIG] + ["missing.moc", "sub", "../two/x.moc"]
CALLS = ["version", "libpath", "feature", "returnfeature", "license", "returnlicense", "file"]

NAMES = {"version": "VERSION", "libpath": "LIB", "feature": "FEATURE", "returnfeature": "RETURNFEATURE",
         "license": "LICENSE", "returnlicense": "RETURNLICENSE", "file": "FILE"}


@functools.lru_cache(None)
def fnv(data):
    h = 14695981039346656037
    for b in data:
        h = (h ^ b) * 1099511628211 & (1 << 64) - 1
    return h


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0] not in ("Z", "X")
    except (FileNotFoundError, ProcessLookupError):
        return False


def children(pid):
    out = set()
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            out |= {int(x) for x in open("/proc/%d/task/%s/children" % (pid, t)).read().split()}
    except (FileNotFoundError, ProcessLookupError):
        pass
    return out


def ours():
    """processes whose parent has ended become children of this one"""
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)         # PR_SET_CHILD_SUBREAPER


def started(h):
    """processes started by the tool, directly or by one that has ended"""
    return children(h.p.pid) | children(os.getpid()) - {h.p.pid}


def raw(sm, a):
    if a.startswith("LONG"):
        return b"a" * int(a[4:])
    return sm.resolve(a)


def fits(k, a, sm):
    """the request fits in one TLS record, which is the longest message an LVE takes"""
    return k == "version" or len(P.msg(NAMES[k], raw(sm, a))) <= 16384


def gone(pids, limit=P.TIMEOUT):
    dl = time.time() + limit
    while time.time() < dl:
        if not any(alive(p) for p in pids):
            return True
        time.sleep(0.002)
    return False


class C19(Prop):
    id = "C19"
    rule = ("a case is a history of operations on up to five (in some cases 24) connections (starts that succeed and fail, calls, killed LVEs, frees), ended by freeing all or "
            "by killing the tool; non-trivial: two connections are open at the same time and a third of the calls is made while they are")
    quick_n, thorough_n = 320, 9000
    assumptions = ["the tool ignores SIGPIPE", "operations on one connection are made one after the other (the API is synchronous)"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        ops, up = [], {}
        nc = 5 if rng.random() < 0.97 else rng.choice([10, 20])
        for _ in range(rng.randrange(6, 45) if nc == 5 else rng.randrange(60, 120)):
            c = rng.randrange(nc)
            x = rng.random()
            if c not in up:
                if x < 0.75:
                    ops.append(["start" if rng.random() < 0.85 else "spoilstart", c])
                    up[c] = 0
                    if rng.random() < 0.8:
                        ops += [["version", c, 1], ["libpath", c, rng.choice(["@one", "@two"])]]
                        up[c] = 2
                elif x < 0.87:
                    ops.append(["badstart", c, rng.randrange(6)])
                else:
                    ops.append(["faultstart", c, rng.randrange(4)])
            elif x < 0.12:
                ops.append(["free", c])
                del up[c]
            elif x < 0.17:
                ops.append(rng.choice([["kill", c], ["spoil", c, rng.randrange(2)]]))
            elif x < 0.21:
                ops.append(["par", rng.choice([1, 5, 20]), [[i, [self.acall(rng) for _ in range(rng.randrange(1, 4))]] for i in sorted(up)]])
            elif x < 0.225:
                ops.append(["storm", rng.choice([0, 1, 3]), rng.randrange(2, 7), rng.randrange(1 << 16)])
            elif x < 0.3 and up[c] < 2:
                ops.append(["version", c, rng.choice([1, 1, 1, 0, 2])])
            else:
                k, a = self.acall(rng)
                ops.append([k, c, a])
        return dict(ops=ops, end=rng.choice(["free", "free", "free", "kill", "exit"]), seed=rng.randrange(1 << 30),
                    close=rng.randrange(8) if rng.random() < 0.25 else 0,
                    tick=rng.choice([200, 400, 1000, 3000, 10000, 40000]) if rng.random() < 0.2 else 0)

    @staticmethod
    def acall(rng):
        k = rng.choice(["file"] * 4 + ["feature"] + CALLS)
        if k not in ("version", "libpath") and rng.random() < 0.03:
            return [k, "LONG%d" % rng.choice([2000, 5000, 16300, 16366, 16377, 16385, 20000, 32768, 40000])]
        return [k, {"version": 1, "libpath": rng.choice(["@one", "@two", "@none"]), "file": rng.choice(FILES),
                    "feature": rng.choice(small.FEATURES)}.get(k, rng.choice(["x", "test_licensed_feature"]))]

    def corpus(self):
        up = lambda c, l: [["start", c], ["version", c, 1], ["libpath", c, l]]
        two = up(0, "@one") + up(1, "@two")
        out = []
        for end in ("free", "kill", "exit"):
            out += [dict(ops=two + [["file", 0, "x.moc"], ["file", 1, "x.moc"], ["free", 0], ["file", 1, "sub/y.moc"]] + up(0, "@one") + [["file", 0, "x.moc"]], end=end, seed=1, close=0, tick=0),
                    dict(ops=two + [["kill", 0], ["file", 1, "x.moc"], ["file", 0, "x.moc"], ["file", 1, "x.moc"]], end=end, seed=1, close=0, tick=0),
                    dict(ops=[["start", 0], ["start", 1], ["start", 2], ["start", 3]], end=end, seed=1, close=0, tick=0),
                    dict(ops=up(0, "@one") * 1, end=end, seed=1, close=0, tick=0)]
            for i in range(6):
                out.append(dict(ops=two + [["badstart", 2, i], ["file", 0, "x.moc"]] * 3, end=end, seed=1, close=0, tick=0))
            for i in range(4):
                out.append(dict(ops=two + [["faultstart", 2, i], ["file", 0, "x.moc"]] * 3, end=end, seed=1, close=0, tick=0))
        out.append(dict(ops=[x for _ in range(40) for x in up(0, "@one") + [["file", 0, "x.moc"], ["free", 0]]], end="free", seed=1, close=0, tick=0))
        many = [x for c in range(24) for x in up(c, ["@one", "@two"][c % 2])]
        for end in ("free", "kill"):
            out.append(dict(ops=many + [["file", c, "x.moc"] for c in range(24)] + [["free", c] for c in range(3, 20, 4)] + [["file", c, "sub/y.moc"] for c in range(24)], end=end, seed=1, close=0, tick=0))
        for t in (200, 1000, 5000):
            out.append(dict(ops=two + [["file", 0, "x.moc"], ["kill", 0], ["file", 0, "x.moc"], ["file", 1, "x.moc"], ["free", 0], ["file", 1, "big.moc"]] + up(0, "@two") + [["file", 0, "x.moc"]], end="free", seed=1, close=0, tick=t))
        for k in CALLS[1:]:          # at the longest message, and above it
            n = 16384 - len(NAMES[k]) - 7
            out.append(dict(ops=two[:3] + [x for i in (n - 1, n, n + 1, n + 2, 20000, 40000) if k != "libpath" or i > n for x in ([k, 0, "LONG%d" % i], ["file", 0, "x.moc"], ["file", 0, "sub/y.moc"])],
                            end="free", seed=1, close=0, tick=0))
        for i in range(2):
            for end in ("free", "kill", "exit"):
                out.append(dict(ops=[["spoilstart", 0], ["version", 0, 1], ["libpath", 0, "@one"]] + up(1, "@two") + [["file", 0, "x.moc"], ["spoil", 0, i], ["file", 0, "x.moc"], ["file", 1, "x.moc"], ["free", 0], ["file", 1, "x.moc"]], end=end, seed=1, close=0, tick=0))
        # the tool gives up a connection while its LVE has more to send
        out.append(dict(ops=[["spoilstart", 0], ["version", 0, 1], ["libpath", 0, "@one"]] + up(1, "@two") + [["spoil", 0, 0], ["file", 0, BIG], ["free", 0], ["file", 1, "x.moc"]], end="free", seed=1, close=0, tick=0))
        calls = [["file", BIG], ["feature", "other"], ["file", "x.moc"], ["file", "missing.moc"], ["license", "x"]]
        for n in (2, 4, 8):
            out.append(dict(ops=[x for c in range(n) for x in up(c, ["@one", "@two"][c % 2])] + [["par", 30, [[c, calls[c % 3:]] for c in range(n)]]] * 3, end="free", seed=1, close=0, tick=0))
        for n in (2, 3, 5, 8):
            for t in (0, 1000):
                out.append(dict(ops=up(0, "@one") + [["storm", 0, n, 1], ["file", 0, "x.moc"], ["storm", 4, n, 2], ["file", 0, BIG]], end="free", seed=1, close=0, tick=t))
        for k in range(1, 8):
            out.append(dict(ops=two + [["file", 0, "x.moc"], ["file", 1, "x.moc"], ["badstart", 2, 2], ["free", 0], ["file", 1, "x.moc"]], end="free", seed=1, close=k, tick=0))
        return out

    def valid(self, case):
        if case["close"] not in range(8) or case["tick"] not in (0, 200, 400, 1000, 3000, 5000, 10000, 40000):
            return False
        for o in case["ops"]:
            if len(o) < 2 or not 0 <= o[1] < NC + 10:
                return False
            if o[0] == "par":
                if len(o) != 3 or not 0 < o[1] < 31 or not all(len(t) == 2 and 0 <= t[0] < NC and len(t[1]) < 60 and all(
                        len(x) == 2 and x[0] in CALLS and (x[0] == "version") == isinstance(x[1], int) for x in t[1]) for t in o[2]):
                    return False
                if len({t[0] for t in o[2]}) < len(o[2]):
                    return False
                continue
            if o[0] == "storm":
                if len(o) != 4 or o[1] > 10 or not 0 < o[2] < 20:
                    return False
                continue
            if o[1] >= NC or (o[0] == "spoil" and (len(o) != 3 or o[2] not in (0, 1))):
                return False
            if o[0] in CALLS and (len(o) != 3 or (o[0] == "version") != isinstance(o[2], int)):
                return False
            if o[0] in CALLS and isinstance(o[2], str) and o[2].startswith("LONG") and not (o[2][4:].isdigit() and int(o[2][4:]) < 1 << 20):
                return False
            if o[0] in ("badstart", "faultstart") and len(o) != 3:
                return False
        return True

    def bad(self, env, i):
        """executables that are no LVE"""
        d = getattr(env, "bad", None)
        if d is None:
            d = env.bad = env.newdir()
            lib.put(d + "/noexec", b"#!/bin/sh\nexit 0\n")
            os.chmod(d + "/noexec", 0o644)
            lib.put(d + "/exits", b"#!/bin/sh\nexit 3\n")
            lib.put(d + "/talks", b"#!/bin/sh\necho hello; echo world\nexit 0\n")
            lib.put(d + "/junk", b"\x7fELFjunk" + bytes(100))
            for n in ("exits", "talks", "junk"):
                os.chmod(d + "/" + n, 0o755)
            os.mkdir(d + "/dir")
        return [d + "/nothing", d + "/noexec", d + "/exits", d + "/talks", d + "/junk", d + "/dir"][i % 6]

    def run(self, case, env):
        ours()
        sm = small.get(self, env)
        for i, d in enumerate((sm.one, sm.two)):
            if BIG.encode() not in sm.map[d.encode()]:
                lib.put(d + "/" + BIG, bytes([65 + i]) * 150000 + bytes(range(256)) * 100)
                sm.map[d.encode()][BIG.encode()] = open(d + "/" + BIG, "rb").read()
        h = P.LineProc(self.b + "/h_tool", env={"H_CLOSE": str(case["close"])} if case["close"] else None)
        pids = set()
        try:
            return self.history(case, env, sm, h, pids)
        except P.Died as e:
            raise Violation("the tool: %s" % e)
        finally:
            h.kill()
            for p in pids:
                try:      # only what is still the LVE we started
                    os.waitpid(p, os.WNOHANG)
                except OSError:
                    pass
                try:
                    if os.readlink("/proc/%d/exe" % p) in [os.path.realpath(self.b + x) for x in ("/lve_linux64", "/spoil")]:
                        os.kill(p, signal.SIGKILL)
                except OSError:
                    pass

    def history(self, case, env, sm, h, pids):
        if case["tick"]:         # the tool handles a signal every so many microseconds
            h.ask("tick", case["tick"])
        base = h.ask("fds").ret
        conn = {}                # slot -> dict(pid, model, dead)
        both = calls = most = 0
        for n, o in enumerate(case["ops"]):
            k, c = o[0], o[1]
            what = "operation %d %r" % (n, o)
            if k in ("start", "badstart", "faultstart", "spoilstart"):
                if c in conn:
                    continue
                before = started(h)
                path = self.bad(env, o[2]) if k == "badstart" else self.b + ("/spoil" if k == "spoilstart" else "/lve_linux64")
                if k == "faultstart":
                    h.ask("fault", *[[0, -1], [1, -1], [-1, 0], [-1, 1]][o[2] % 4])
                r = h.ask("start", c, path.encode())
                new = started(h) - before
                pids |= new
                if k == "faultstart":
                    h.ask("fault", -1, -1)
                if k == "badstart" or (k == "faultstart" and r.ret != 1):
                    if r.ret == 1:
                        raise Violation("%s: mlle_start_executable succeeded with something that is no LVE" % what)
                    if r.err is None or r.err[2] is None:
                        raise Violation("%s: failed start without an error" % what)
                    if not gone(new):
                        raise Violation("%s: a process is left after the failed start" % what, soft=True)
                    self.fds(h, base, conn, what)
                    self.left(h, conn, what)
                    continue
                if r.ret != 1 or len(new) != 1:
                    raise Violation("%s: start failed with %d connections open: %s, processes %r" % (what, len(conn), r.line, new))
                conn[c] = dict(pid=new.pop(), m=model.LveModel(lookup=sm.lookup), dead=False, between=k == "spoilstart", spoilt=False)
            elif k == "free":
                if c not in conn:
                    continue
                if h.ask("free", c).ret != 1:
                    raise Violation("%s: pointer not reset" % what)
                self.closed(h, conn.pop(c), conn, base, what)
            elif k == "kill":
                if c not in conn or conn[c]["dead"] or conn[c]["spoilt"]:
                    continue
                os.kill(conn[c]["pid"], signal.SIGKILL)
                gone([conn[c]["pid"]])
                conn[c]["dead"] = True
            elif k == "spoil":           # what is sent next is damaged
                if c not in conn or conn[c]["dead"] or conn[c]["spoilt"] or not conn[c]["between"]:
                    continue
                os.kill(conn[c]["pid"], [signal.SIGUSR1, signal.SIGUSR2][o[2]])
                conn[c]["spoilt"] = True
            elif k == "par":             # a thread for each connection, all at the same time
                jobs = [(i, x) for i, x in o[2] if i in conn and not conn[i]["spoilt"] and x]
                if not jobs:
                    continue
                self.par(h, conn, jobs, o[1], sm, what)
                calls += sum(len(x) for _, x in jobs)
                both += sum(len(x) for _, x in jobs) if len(jobs) > 1 else 0
            elif k == "storm":           # connections are opened and closed at the same time
                self.storm(h, conn, o, sm, pids, base, what)
                calls += 3 * o[2]
                both += 3 * o[2]
                most = max(most, len(conn) + o[2])
            elif k in CALLS and c in conn:
                self.call(h, conn[c], o, sm, what)
                calls += 1
                both += len(conn) > 1
            most = max(most, len(conn))
        for c, x in conn.items():
            if not (x["dead"] or x["spoilt"]) and not alive(x["pid"]):
                raise Violation("at the end: the LVE of connection %d is gone" % c)
        if case["end"] == "free":
            for i, c in enumerate(sorted(conn, key=lambda c: hash((case["seed"], c)) % 97)):
                x = conn.pop(c)
                if h.ask("free", c).ret != 1:
                    raise Violation("free: pointer not reset")
                self.closed(h, x, conn, base, "freeing connection %d at the end" % c)
                for y, z in conn.items():
                    self.call(h, z, ["file", y, "x.moc"], sm, "after freeing connection %d: file on %d" % (c, y))
            self.fds(h, base, {}, "at the end")
            self.left(h, {}, "at the end")
        else:
            if case["end"] == "kill":
                os.kill(h.p.pid, signal.SIGKILL)
            else:
                h.send("quit")
            h.p.wait()
            if not gone([x["pid"] for x in conn.values()]):
                raise Violation("an LVE is still running after its tool %s" % ("was killed" if case["end"] == "kill" else "exited without disconnecting"), soft=True)
        a = h.asan()
        if a:
            raise Violation("memory error: %s" % a)
        return most > 1 and both * 3 > calls, ["open%d" % most, "end-" + case["end"]] + ["closed%d" % case["close"]] * bool(case["close"]) + ["signals"] * bool(case["tick"])

    def closed(self, h, x, conn, base, what):
        if not gone([x["pid"]]):
            raise Violation("%s: its LVE does not end" % what, soft=True)
        for c, y in conn.items():
            if not (y["dead"] or y["spoilt"]) and not alive(y["pid"]):
                raise Violation("%s: the LVE of connection %d ended as well" % (what, c))
        self.fds(h, base, conn, what)
        self.left(h, conn, what)

    def left(self, h, conn, what):
        """no process is left for the tool to wait for"""
        n = children(h.p.pid) - {x["pid"] for x in conn.values()}
        if n:
            raise Violation("%s: the tool still has child processes that ended: %r" % (what, n))

    def fds(self, h, base, conn, what):
        if not conn:
            n = h.ask("fds").ret
            if n != base:
                raise Violation("%s: %d descriptors are open, %d before the first connection" % (what, n, base))

    def par(self, h, conn, jobs, reps, sm, what):
        arg = lambda k, a: str(a).encode() if k == "version" else raw(sm, a)
        r = h.ask("par", ";".join("%d/%d/%s" % (i, reps, ",".join("%s:%s" % (k, P.hx(arg(k, a))) for k, a in x)) for i, x in jobs), timeout=P.TIMEOUT)
        for n, (i, x) in enumerate(jobs):
            got = r.f["t%d" % n].split(",")
            for j in range(reps):
                for m, (k, a) in enumerate(x):
                    ret, size, read, h64, code, text = got[j * len(x) + m].split(".")
                    w = "%s: %s(%r) on connection %d, round %d" % (what, k, a, i, j)
                    if conn[i]["dead"] or not fits(k, a, sm):
                        if ret == "1" or code == "none" or text == "null":
                            raise Violation("%s: call on a connection whose LVE was killed, or with a string that is too long: %s" % (w, got[j * len(x) + m]))
                        continue
                    want = conn[i]["m"].step((NAMES[k], a if k == "version" else raw(sm, a)))
                    ok = want[0] in ("YES", "FILECONT") or (want[0] == "VERSION" and k == "version")
                    if (ret == "1") != ok or (code == "none") != ok or text == "null":
                        raise Violation("%s: %s, expected %s (library %r)" % (w, got[j * len(x) + m][:400], model.show(want), conn[i]["m"].lib))
                    if not ok and want[0] == "NO" and (code != "3" or bytes.fromhex(text) != want[1]):
                        raise Violation("%s: error %s %r, expected the text of the LVE %r" % (w, code, bytes.fromhex(text), want))
                    if k == "file" and ok and (int(size) != len(want[1]) or int(read) != len(want[1]) or int(h64, 16) != fnv(want[1])):
                        raise Violation("%s: other contents (%s bytes) than those of library %r (%d bytes)" % (w, size, conn[i]["m"].lib, len(want[1])))

    def storm(self, h, conn, o, sm, pids, base, what):
        reps, n, seed = o[1:]
        before = started(h)
        ids = range(100, 100 + n)
        lve = P.hx((self.b + "/lve_linux64").encode())
        dirs = [(sm.one, sm.two)[i % 2] for i in ids]
        seq = lambda i: ["start:" + lve, "version:31", "libpath:" + P.hx(dirs[i - 100].encode()), "file:" + P.hx(BIG.encode())]

        def go(todo, again):
            r = h.ask("par", ";".join("%d/%d/%s" % (i, again, ",".join(todo(i))) for i in ids), timeout=P.TIMEOUT)
            for m, i in enumerate(ids):
                data = sm.map[dirs[m].encode()][BIG.encode()]
                for t, g in zip(todo(i) * again, r.f["t%d" % m].split(",")):
                    ret, size, read, h64, code, text = g.split(".")
                    if ret != "1" or code != "none" or t[:5] == "file:" and (int(read) != len(data) or int(h64, 16) != fnv(data)):
                        raise Violation("%s: %s on connection %d of %d opened at the same time: %s %s" % (what, t.split(":")[0], i, n, g[:80], bytes.fromhex(text) if text != "null" else None))

        if reps:
            go(lambda i: seq(i) + ["free:-"], reps)
            new = started(h) - before
            pids |= new
            before |= new
            if not gone(new):
                raise Violation("%s: a process is left after %d threads opened and closed connections" % (what, n), soft=True)
            self.fds(h, base, conn, what)
            self.left(h, conn, what)
        go(seq, 1)
        new = sorted(started(h) - before)
        pids |= set(new)
        if len(new) != n:
            raise Violation("%s: %d processes for %d connections" % (what, len(new), n))
        new = sorted(new, key=lambda p: (seed * 40503 + p * 2654435761) >> 7 & 1023)[:seed % (n + 1)]
        up = set(ids)
        for p in new:                   # end one LVE after the other: each time one connection fails, the others do not
            os.kill(p, signal.SIGKILL)
            gone([p])
            dead = []
            for i in sorted(up):
                r = h.ask("feature", i, b"test_licensed_feature")
                if r.ret != 1:
                    dead.append(i)
                    if r.err is None or r.err[2] is None:
                        raise Violation("%s: failure without an error" % what)
            if len(dead) != 1:
                raise Violation("%s: one LVE of %d was killed, connections %r fail" % (what, len(up), dead))
            up -= set(dead)
        go(lambda i: ["free:-"], 1)
        if not gone(started(h) - before):
            raise Violation("%s: a process is left after %d connections were closed at the same time" % (what, n), soft=True)
        for c, y in conn.items():
            if not (y["dead"] or y["spoilt"]) and not alive(y["pid"]):
                raise Violation("%s: the LVE of connection %d ended as well" % (what, c))
        self.fds(h, base, conn, what)
        self.left(h, conn, what)

    def call(self, h, x, o, sm, what):
        k, c, a = o
        t = (NAMES[k], a)
        if k == "version":
            r = h.ask("version", c, 1, a)
        else:
            t = (NAMES[k], raw(sm, a))
            r = h.ask("file", c, c, t[1]) if k == "file" else h.ask(k, c, t[1])
        if not fits(k, a, sm):
            if r.ret == 1 or r.err is None or r.err[2] is None:
                raise Violation("%s: call with a string that is too long: %s" % (what, r.line))
            return
        if x["dead"] or x["spoilt"]:
            if r.ret == 1 or r.err is None or r.err[2] is None:
                raise Violation("%s: call on a connection %s: %s" % (what, "whose LVE was killed" if x["dead"] else "that was damaged", r.line))
            return
        want = x["m"].step(t)
        ok = want[0] in ("YES", "FILECONT") or (want[0] == "VERSION" and k == "version")
        if (r.ret == 1) != ok:
            raise Violation("%s: %s, expected %s (library %r)" % (what, r.line, model.show(want), x["m"].lib))
        if not ok:
            if r.err is None or r.err[2] is None:
                raise Violation("%s: failure without an error" % what)
            if want[0] == "NO" and (r.err[1] != 3 or r.err[2] != want[1]):
                raise Violation("%s: error %r, expected the text of the LVE %r" % (what, r.err, want))
        elif k == "file":
            got = h.ask("read", c, len(want[1]) + 9)
            if (got.data if got.ret != -1 else b"") != want[1]:
                raise Violation("%s: other contents than those of library %r" % (what, x["m"].lib))
            h.ask("ffree", c)


PROP = C19()
