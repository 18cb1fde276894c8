"""Version negotiation: tool API with a played LVE and with the real one; the real LVE with a played tool."""
from semla import lib, proto as P, small
from semla.engine import Prop, Violation
from semla.proto import msg

I = [0, 1, 2, 3, -1, -2, 4, 5, 10, 100, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1, 65536, 32768, 255, 256, 257]
L = I + [2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**32 + 2, -2**32, -2**32 + 1, -2**31 - 1, 2**40 + 1, 2**63 - 1, -2**63, 2**62, 10**15, 10**18]
HUGE = [2**63, 2**64 + 1, -2**64 + 1, 10**30, -10**30, 10**40 + 1]


def near(rng, vs, pool):
    if rng.random() < 0.5:
        return rng.choice(pool)
    v = rng.choice(vs) + rng.choice([-1, 0, 0, 1])
    return v


class C21(Prop):
    id = "C21"
    rule = ("a case is a sequence of negotiations on one connection (played LVE, real LVE with the tool API, or real LVE with a played tool); "
            "non-trivial: a refused and an accepted negotiation, or a value outside the range 0..2")
    quick_n, thorough_n = 2800, 40000
    assumptions = ["the messages of the errors contain 'low' and 'high'"]

    def setup(self):
        super().setup()
        from semla import crypt
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        x = rng.random()
        n = rng.randrange(1, 7)
        if x < 0.55:
            steps = []
            for _ in range(n):
                a = rng.choice(I)
                b = min(max(near(rng, [a], I), -2**31), 2**31 - 1)
                steps.append([a, b, rng.choice(HUGE) if rng.random() < 0.05 else near(rng, [a, b], L)])
            return dict(side="played-lve", steps=steps)
        if x < 0.75:
            return dict(side="real", steps=[[rng.choice(I), rng.choice(I)] for _ in range(n)])
        return dict(side="played-tool", steps=[rng.choice(HUGE) if rng.random() < 0.1 else rng.choice(L) if rng.random() < 0.8 else rng.randrange(-2**40, 2**40)
                                               for _ in range(n)])

    def corpus(self):
        out = []
        for a in (-1, 0, 1, 2):
            for b in (-1, 0, 1, 2, 3):
                out.append(dict(side="played-lve", steps=[[a, b, v] for v in (-2, -1, 0, 1, 2, 3, 4)]))
                out.append(dict(side="real", steps=[[a, b]]))
        out += [dict(side="played-tool", steps=[v]) for v in L + HUGE]
        out += [dict(side="played-lve", steps=[[1, 1, v]]) for v in L + HUGE]
        return out

    def valid(self, case):
        s = case["steps"]
        if case["side"] == "played-tool":
            return len(s) > 0 and all(isinstance(v, int) for v in s)
        k = 3 if case["side"] == "played-lve" else 2
        return len(s) > 0 and all(len(v) == k and all(-2**31 <= x < 2**31 for x in v[:2]) for v in s)

    def run(self, case, env):
        return getattr(self, case["side"].replace("-", "_"))(case, env)

    @staticmethod
    def judge(r, lo, hi, v):
        what = "mlle_tool_version(%d, %d), LVE says %s" % (lo, hi, v)
        want = v is not None and lo <= v <= hi
        if (r.ret == 1) != want:
            raise Violation("%s: returned %d, error %r" % (what, r.ret, r.err))
        if want:
            if r.err is not None:
                raise Violation("%s: success with an error object" % what)
            return
        if r.err is None or not r.err[2]:
            raise Violation("%s: failure without an error message" % what)
        if v is not None:
            t = r.err[2].decode("latin1").lower()
            # with an empty range both are true
            ok = (v < lo and "low" in t) or (v > hi and "high" in t)
            if not ok:
                raise Violation("%s: error message %r" % (what, t))

    def played_lve(self, case, env):
        h = env.proc("tool", self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay")
        good = bad = 0
        try:
            h.send("start", 0, f.path.encode())
            t = f.accept()
            t.handshake()
            r = h.reply()
            if r.ret != 1:
                raise Violation("mlle_start_executable failed: %s" % r.line)
            for lo, hi, v in case["steps"]:
                h.send("version", 0, lo, hi)
                got = t.recv()
                if got != ("VERSION", hi):
                    raise Violation("mlle_tool_version(%d, %d) sent %r" % (lo, hi, got))
                t.send(b"VERSION %d\n" % v)
                r = h.reply()
                self.judge(r, lo, hi, v)
                good, bad = good + r.ret, bad + 1 - r.ret
            h.ask("free", 0)
        except P.Died as e:
            env.dropproc("tool")
            raise Violation("tool library: %s" % e)
        except Exception:
            env.dropproc("tool")
            raise
        finally:
            f.close()
        return (good and bad) or any(not 0 <= x <= 2 for s in case["steps"] for x in s), ["played-lve"]

    def real(self, case, env):
        h = env.proc("tool", self.b + "/h_tool")
        good = 0
        try:
            r = h.ask("start", 0, (self.b + "/lve_linux64").encode())
            if r.ret != 1:
                raise Violation("mlle_start_executable failed: %s" % r.line)
            for lo, hi in case["steps"]:
                r = h.ask("version", 0, lo, hi)
                if good:      # the LVE has agreed already: VERSION is not valid any more
                    if r.ret == 1 or r.err is None:
                        raise Violation("a second VERSION after an agreed one: %s" % r.line)
                    continue
                self.judge(r, lo, hi, 1 if hi >= 1 else None)
                if hi >= 1:
                    good = 1
            h.ask("free", 0)
            h.ask("reap")
        except P.Died as e:
            env.dropproc("tool")
            raise Violation("tool library: %s" % e)
        except Exception:
            env.dropproc("tool")
            raise
        return any(not 0 <= x <= 2 for s in case["steps"] for x in s) or len(case["steps"]) > 1, ["real"]

    def played_tool(self, case, env):
        sm = small.get(self, env)
        agreed = False
        with lib.LveSession(self.b + "/lve_linux64") as l:
            for v in case["steps"]:
                r = l.ask(b"VERSION %d\n" % v)
                if agreed:
                    want = r[0] == "ERROR" and r[1] == 1
                elif v >= 1:
                    want, agreed = r == ("VERSION", 1), True
                else:
                    want = r[0] == "ERROR" and r[1] == 2
                if not want:
                    raise Violation("VERSION %d -> %r" % (v, r))
            r = l.ask(msg("LIB", sm.one.encode()))
            if (r == ("YES",)) != agreed:
                raise Violation("LIB after VERSION %r -> %r" % (case["steps"], r))
            if not agreed:
                if l.ask(msg("VERSION", 1)) != ("VERSION", 1) or l.ask(msg("LIB", sm.one.encode())) != ("YES",):
                    raise Violation("the negotiation cannot be repeated after %r" % case["steps"])
            if l.ask(msg("FILE", b"plain.txt"))[0] != "FILECONT":
                raise Violation("no file after VERSION %r" % case["steps"])
            lib.session_end(l)
        return any(v < 0 or v > 2 for v in case["steps"]), ["played-tool"]


PROP = C21()
