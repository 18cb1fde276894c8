import random
import time

from semla import crypt, lib, model, small, proto as P
from semla.engine import Prop, Violation
from semla.proto import msg

BIG = ["f05.txt", "f20.txt", "f20.moc", "f32.txt", "f32.moc"]        # megabytes


class C04(Prop):
    id = "C04"
    rule = ("a case is a sequence of well-formed messages, some sent in one go; non-trivial: the model passed at least two state changes "
            "and the sequence contains at least one command that is invalid in its state")
    quick_n, thorough_n = 2800, 24000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        if rng.random() < 0.006:
            return {"_build": "rel", "limit": rng.randrange(40, 200), "reqs": [rng.choice(BIG) for _ in range(rng.randrange(1, 6))]}
        m = model.LveModel()
        ops = []
        stick = rng.choice([0.4, 0.7, 0.95])
        for _ in range(rng.randrange(3, 45) if rng.random() > 0.02 else rng.randrange(45, 700)):
            o = small.gen_msg(rng, m.state if rng.random() < stick else None)
            m.step(tuple(v.encode("latin1") if isinstance(v, str) and i else v for i, v in enumerate(o)))
            ops.append([o, rng.random() < 0.25])
        return dict(ops=ops, tls=rng.choice(["1.2", "1.3"]), slow=rng.choice([1, 4, 5, 17, 60, 500]) if rng.random() < 0.06 else 0)

    def corpus(self):
        """every command in every state, then the session has to work"""
        import random
        rng = random.Random(5)
        pre = {"VERSION": [], "TOOLS": [["VERSION", 1]], "LIB": [["VERSION", 1], ["TOOLS"]], "LICENSE": [["VERSION", 1], ["LIB", "@one"]]}
        out = []
        for s, p in pre.items():
            for c in P.ALL:
                for arg in (1, 2):
                    o = small.fill(rng, c)
                    if c == "LIB":
                        o = ["LIB", "@two" if arg == 1 else ""]
                    if c == "VERSION":
                        o = ["VERSION", 1 if arg == 1 else 0]
                    if c == "FILE":
                        o = ["FILE", "x.moc" if arg == 1 else "missing"]
                    seq = p + [o] + [["VERSION", 1], ["LIB", "@one"], ["FILE", "x.moc"], ["FILE", "sub/y.moc"],
                                     ["FEATURE", "test_licensed_feature"], ["FEATURE", "no"], ["LICENSE", "L"], ["RETURNFEATURE", "x"],
                                     ["RETURNLICENSE", "L"], ["FILE", "plain.txt"]]
                    out.append(dict(ops=[[q, False] for q in seq], tls="1.3", slow=0))
        seq = [["VERSION", 1], ["LIB", "@one"], ["FILE", "x.moc"], ["FILE", "none"], ["FEATURE", "test_licensed_feature"], ["FILE", "x.moc"]]
        for n in (1, 2, 3, 4, 5, 6, 11, 16, 17, 40):      # bytes that arrive in pieces
            out.append(dict(ops=[[q, n % 2 == 0] for q in seq], tls="1.2" if n % 3 else "1.3", slow=n))
        for lim in (30, 60, 70, 85, 100, 120):            # an LVE that runs short of memory
            out.append({"_build": "rel", "limit": lim, "reqs": BIG})
        out.append(dict(ops=[[q, False] for q in seq[:3] + [["WAIT", 2500]] + seq[3:]], tls="1.3", slow=0))
        return out

    def valid(self, case):
        if "limit" in case:
            return case.get("_build") == "rel" and case["limit"] >= 30 and all(x in BIG for x in case["reqs"])
        return case["slow"] >= 0 and all(len(o) == 2 and (small.valid_msg(o[0]) or o[0] == ["WAIT", 2500]) for o in case["ops"])

    def shrinks(self, case):
        from semla.engine import generic_shrinks
        if "limit" in case:
            for s in generic_shrinks(case["reqs"]):
                yield {**case, "reqs": s}
            return
        for s in generic_shrinks(case["ops"]):
            yield {**case, "ops": s}

    def short(self, case, env):
        """every request for a large file gets its contents or an ERROR, and the session goes on"""
        d = getattr(env, "large", None)
        if d is None:
            d = env.large = env.newdir()
            env.large_data = {}
            for n in BIG:
                data = env.large_data[n] = random.Random(n).randbytes(1 << 16) * (int(n[1:3]) * 16)
                if n.endswith(".moc"):
                    data = crypt.seal(self.key, random.Random(n).randbytes(16), data)
                lib.put(d + "/" + n, data)
            lib.put(d + "/small.txt", b"some text")
        served = 0
        with lib.LveSession(self.b + "/lve_linux64", env={"V_AS": str(case["limit"])}) as l:
            if l.to_license(d)[0] != "YES":
                raise Violation("LIB refused")
            for n in case["reqs"]:
                r = l.ask(msg("FILE", n.encode()))
                if r[0] == "FILECONT" and r[1] == env.large_data[n]:
                    served += 1
                elif r[0] != "ERROR":
                    raise Violation("%r with %d MB of memory: %s" % (n, case["limit"], model.show(r)))
                if l.ask(msg("FILE", b"small.txt")) != ("FILECONT", b"some text"):
                    raise Violation("small file not served after %r with %d MB of memory" % (n, case["limit"]))
            lib.session_end(l)
        return len(case["reqs"]) > served, ["memory-short", "served%d" % served]

    def run(self, case, env):
        if "limit" in case:
            return self.short(case, env)
        sm = small.get(self, env)
        m = model.LveModel(lookup=sm.lookup)
        states, invalid = [m.state], False
        with lib.LveSession(self.b + "/lve_linux64", tls=case["tls"], slow=case["slow"]) as l:
            ops, k = case["ops"] + [[["YES"], False]], 0
            while k < len(ops):
                batch = [ops[k][0]]
                while ops[k][1] and k + 1 < len(ops) and len(batch) < 6:
                    k += 1
                    batch.append(ops[k][0])
                k += 1
                if batch[0][0] == "WAIT":       # the tool is idle for a while
                    time.sleep(batch.pop(0)[1] / 1000)
                ts = [small.to_tuple(sm, o) for o in batch]
                for t in ts:
                    l.send(msg(*t))
                for o, t in zip(batch, ts):
                    st = m.state
                    want = m.step(t)
                    if m.state != st:
                        states.append(m.state)
                    if want == ("ERROR", 1):
                        invalid = True
                    r = l.recv()
                    if not model.match(want, r):
                        raise Violation("state %s: %r -> %s, expected %s" % (st, o, model.show(r), model.show(want)))
            if l.pending(0.003):
                raise Violation("more replies than messages: %r" % l.buf[:100])
            lib.session_end(l)
        return len(states) >= 3 and invalid, ["end-" + m.state]


PROP = C04()
