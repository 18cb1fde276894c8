"""Licensing: the dummy licence manager of the repository and a scripted one that records what it is asked."""
import os
import signal
import subprocess

from semla import crypt, lib, model, small, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg

OK = "test_licensed_feature"
NAMES = ["ok", "ok_a", "okay" * 30, "o", "OK", "nok", "", "keep", "keep_ok", "ok keep", "refused", "a b", "\xe5\xe4\xf6", "%s%n%d", "global_feature",
         OK, "x" * 255, "ok" + "y" * 254, "z" * 1023, "z" * 1024, "z" * 2040, "z" * 2048, "ok" + "z" * 5000, "q" * 12000, "also", "also2", "5\nok", "ok\n", "\nok", " ok"]
NULS = ["ok\0", "\0", "ok\0ok", "no\0ok", "keep\0", "\0keep", "also\0", "also\0x", "a\0b\0c", "ok" + "\0" * 300, "global_feature\0", "x" * 254 + "\0ok"]
CMDS = ["FEATURE"] * 4 + ["RETURNFEATURE"] * 3 + ["LICENSE", "RETURNLICENSE", "FILE", "FILE"]


ENDS = ["end", "end", "end", "close", "junk", "big0", "big1", "big5000", "big100000", "half"]


class Model(model.LveModel):
    """lm: None for the dummy manager of the repository, or the settings of the scripted one."""

    def __init__(self, lm, **k):
        super().__init__(**k)
        self.lm, self.log = lm, []

    def licensed(self, name):
        # the scripted manager reads the name up to the first NUL, and records it in full
        return name.startswith(b"ok") or (self.lm["also"] is not None and name.split(b"\0")[0] == self.lm["also"])

    def step(self, m):
        if self.lm is None:
            return super().step(m)
        c, st = m[0], self.state
        if c == "LIB" and st in (self.TOOLS, self.LIB) and m[1] and self.glob and self.trusted:
            g, self.glob = self.glob, None
            super().step(m)
            self.glob = g
            if self.lm["fail"] is not None:
                self.refused = True
                return ("ERROR", 7, self.lm["fail"])
            self.log.append(("out", b"global_feature"))
            if not self.licensed(b"global_feature"):
                self.refused = True
                return ("ERROR", 7, b"refused: global_feature")
            return ("YES",)
        if st == self.LICENSE and c in ("FEATURE", "RETURNFEATURE"):
            if self.lm["fail"] is not None:
                return ("ERROR", 7, self.lm["fail"])
            self.log.append(("out" if c == "FEATURE" else "in", m[1]))
            if c == "FEATURE":
                return ("YES",) if self.licensed(m[1]) else ("NO", b"refused: " + m[1].split(b"\0")[0])
            return ("ERROR", 7, b"cannot return " + m[1].split(b"\0")[0]) if m[1].startswith(b"keep") else ("YES",)
        return super().step(m)


def match(want, got):
    return want == got if len(want) == 3 else model.match(want, got)


class C10(Prop):
    id = "C10"
    configs = ["asan", "asan-glob-ok", "asan-glob-no", "asan-lm", "asan-lm-glob"]
    rule = ("a case is a build (dummy or scripted licence manager, with or without global feature), settings of the manager, a client "
            "certificate and a history of messages; non-trivial: licensed and refused requests, or a refused library with a file request after it")
    quick_n, thorough_n = 2600, 26000
    assumptions = ["feature names up to 12000 bytes (with NUL bytes only for the scripted manager)", "a FILE request is refused with any ERROR code"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        cfg = rng.choice(self.configs + ["asan-lm", "asan-lm-glob"])
        lm = "lm" in cfg
        ops = [["VERSION", 1]] + [["TOOLS"]] * rng.randrange(2) + [["LIB", rng.choice(["@one", "@one", "@one/", "@two", "@one//"])]]
        if rng.random() < 0.1:
            ops = ops[:rng.randrange(len(ops))]
        if rng.random() < 0.015:        # many different features in one session
            pre = rng.choice(["ok", "no", "keep", "ok_" + "x" * 60, ""])
            ops += [[rng.choice(["FEATURE", "FEATURE", "RETURNFEATURE"]), rng.choice([pre, pre, "ok", "no"]) + str(rng.randrange(400))] for _ in range(rng.randrange(25, 500))]
        for _ in range(rng.randrange(1, 25)):
            c = rng.choice(CMDS if rng.random() < 0.95 else P.ALL)
            o = small.fill(rng, c)
            if c in ("FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE") and rng.random() < 0.8:
                o = [c, rng.choice(NAMES if rng.random() < 0.8 or not lm else ["ok", "keep", "also"])]
                if lm and rng.random() < 0.06:
                    o[1] = rng.choice(NULS)
                elif rng.random() < 0.2:
                    s = list(o[1])
                    if s:
                        s[rng.randrange(len(s))] = chr(rng.randrange(1, 256))
                    o[1] = "".join(s)
            ops.append(o)
        also = rng.choice([None, "also", "global_feature", "", "global_feature", "global_feature "]) if lm else None
        fail = rng.choice([None] * 7 + ["no server", "", "100% %s", "m" * 3000]) if lm else None
        return dict(cfg=cfg, ops=ops, cert=rng.choice(["tool", "toolb", "toolc", "evil"]) if rng.random() < 0.4 else "tool", also=also, fail=fail,
                    end=rng.choice(ENDS) if lm else "end", pipe=rng.randrange(2))

    def corpus(self):
        out = []
        for cfg in self.configs:
            for also in ([None, "global_feature"] if "lm" in cfg else [None]):
                for fail in ([None, "no licence server"] if "lm" in cfg else [None]):
                    for cert in ("tool", "evil"):
                        ops = [["VERSION", 1], ["LIB", "@one"], ["FILE", "x.moc"], ["FILE", "plain.txt"], ["FEATURE", OK], ["FILE", "x.moc"], ["FEATURE", "ok"], ["FEATURE", "ok"],
                               ["FEATURE", "global_feature"], ["FEATURE", "other_feature"], ["RETURNFEATURE", "global_feature"], ["FILE", "x.moc"], ["RETURNFEATURE", OK], ["RETURNFEATURE", "keep"],
                               ["FEATURE", "no"], ["LICENSE", "ok"], ["RETURNLICENSE", "keep"], ["FEATURE", ""], ["RETURNFEATURE", ""], ["FILE", "sub/y.moc"], ["FILE", "plain.txt"]]
                        out.append(dict(cfg=cfg, ops=ops, cert=cert, also=also, fail=fail))
        out.append(dict(cfg="asan-lm", cert="tool", also=None, fail=None, ops=[["VERSION", 1], ["LIB", "@one"]] + [[c, p + str(i)] for c in ("FEATURE", "RETURNFEATURE", "FEATURE") for i in range(150) for p in ("ok", "no")]))
        for end in sorted(set(ENDS)):
            for pipe in (0, 1):
                for c in ("FEATURE", "RETURNFEATURE", "FILE"):
                    out.append(dict(cfg="asan-lm", cert="tool", also=None, fail=None, ops=[["VERSION", 1], ["LIB", "@one"], ["FEATURE", "ok"], ["FILE", "x.moc"], [c, "x.moc"]], end=end, pipe=pipe))
        for n in NULS:
            out.append(dict(cfg="asan-lm", cert="tool", also="also", fail=None, ops=[["VERSION", 1], ["LIB", "@one"], ["FEATURE", n], ["RETURNFEATURE", n], ["FEATURE", "ok"], ["FEATURE", "no"]]))
        for n in NAMES:
            out.append(dict(cfg="asan-lm", cert="tool", also=None, fail=None, ops=[["VERSION", 1], ["LIB", "@one"], ["FEATURE", n], ["RETURNFEATURE", n], ["FEATURE", n], ["FEATURE", "ok"], ["FEATURE", "no"], ["RETURNFEATURE", "keep"]]))
            out.append(dict(cfg="asan", cert="tool", also=None, fail=None, ops=[["VERSION", 1], ["LIB", "@one"], ["FEATURE", n], ["RETURNFEATURE", n], ["FEATURE", n], ["FEATURE", OK], ["FEATURE", "no"]]))
        return out

    def valid(self, case):
        return case.get("end", "end") in ENDS and all(small.valid_msg(o) and (o[0] in ("FEATURE", "RETURNFEATURE") and "lm" in case["cfg"] or not any("\0" in x for x in o if isinstance(x, str))) for o in case["ops"])

    def shrinks(self, case):
        for s in generic_shrinks(case["ops"]):
            yield {**case, "ops": s}
        for k in ("also", "fail"):
            if case[k] is not None:
                yield {**case, k: None}

    def small(self, env, cfg):
        d = env.__dict__.setdefault("smalls", {})
        if cfg not in d:
            keep, self.key = self.key, crypt.product_key(self.bin[cfg])
            d[cfg] = small.Small(self, env)
            self.key = keep
        return d[cfg]

    def run(self, case, env):
        cfg, lm = case["cfg"], "lm" in case["cfg"]
        sm = self.small(env, cfg)
        d = env.newdir()
        log = d + "/log"
        e = {}
        if lm:
            e["LM_LOG"] = log
            for k, v in (("LM_ALSO", case["also"]), ("LM_NEW_FAIL", case["fail"])):
                if v is not None:
                    e[k] = os.fsdecode(v.encode("latin1"))
        enc = lambda s: None if s is None else s.encode("latin1")
        m = Model(dict(also=enc(case["also"]), fail=enc(case["fail"])) if lm else None, trusted=case["cert"] != "evil",
                  glob={"asan-glob-ok": "yes", "asan-glob-no": "no", "asan-lm-glob": "lm"}.get(cfg), lookup=sm.lookup)
        seen = set()
        libpath = None
        try:
            with lib.LveSession(self.bin[cfg] + "/lve_linux64", cert=case["cert"], env=e,
                                preexec=(lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)) if case.get("pipe") else None) as l:
                for k, o in enumerate(case["ops"]):
                    t = small.to_tuple(sm, o)
                    if o[0] == "LIB" and o[1] == "@one//":
                        t = ("LIB", sm.resolve("@one") + b"//")
                    want = m.step(t)
                    r = l.ask(msg(*t))
                    if not match(want, r):
                        raise Violation("%s %s, step %d %r -> %s, expected %s" % (cfg, case["cert"], k, [x[:60] if isinstance(x, str) else x for x in o], model.show(r), model.show(want)))
                    if o[0] == "FEATURE" and r[0] in ("YES", "NO"):
                        seen.add(r[0])
                    if m.refused and o[0] == "FILE":
                        seen.add("refused-file")
                if l.pending(0.002):
                    raise Violation("more replies than messages: %r" % l.buf[:100])
                self.end(case, sm, m, l)
            if lm:
                self.log(case, m, log)
        finally:
            env.drop(d)
        return {"YES", "NO"} <= seen or "refused-file" in seen, [cfg]

    def end(self, case, sm, m, l):
        """the tool disconnects, orderly or not: also while the LVE is sending it a file"""
        end = case.get("end", "end")
        if end == "end":
            lib.session_end(l)
            return
        if end == "junk":
            os.write(l.w, b"\x17\x03\x03\x00\x20" + b"no TLS record at all, whatever it says")
        elif end.startswith("big"):
            big = sm.one + "/big.bin"
            if not os.path.exists(big):
                lib.put(big, b"b" * 3000000)
                sm.map[sm.one.encode()][b"big.bin"] = b"b" * 3000000
            if m.state == m.LICENSE:
                l.send(msg("FILE", b"big.bin"))
                n = int(end[3:])
                while n > 0:
                    d = os.read(l.r, min(n, 1 << 16))
                    if not d:
                        raise P.Died("end of file")
                    n -= len(d)
                    if m.lib is None or m.lib.rstrip(b"/") != sm.one.encode() or not m.trusted or m.refused:
                        break           # a short answer
        elif end == "half":             # only what it says is not read any more
            l.p.stdout.close()
            if m.state == m.LICENSE:
                try:
                    l.send(msg("FILE", b"x.moc"))
                except P.Died:
                    pass
        l.p.stdin.close()
        if end != "half":
            l.p.stdout.close()
        try:
            l.p.wait(P.TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Violation("the LVE did not end after the tool disconnected", soft=True)
        a = l.asan()
        if a:
            raise Violation("memory error in the LVE: %s" % a)

    def log(self, case, m, path):
        lines = [x.split(b" ") for x in lib.get(path).splitlines()] if os.path.exists(path) else []
        calls = []
        for k, n, x in lines:
            data = bytes.fromhex(x[1:].decode())
            if k in (b"out", b"in", b"new") and int(n) != len(data):
                raise Violation("the licence manager was given length %s for %r" % (n.decode(), data[:60]))
            calls.append((k.decode(), data))
        got = [c for c in calls if c[0] not in ("new", "free")]
        if got != m.log:
            i = next((i for i in range(max(len(got), len(m.log))) if got[i:i + 1] != m.log[i:i + 1]), 0)
            raise Violation("the licence manager saw request %d as %r, expected %r" % (i, got[i:i + 1], m.log[i:i + 1]))
        news = [c for c in calls if c[0] == "new"]
        want = m.lib.rstrip(b"/\\") if m.lib else None
        for n in news:
            if n[1] != want:
                raise Violation("the licence manager was set up for %r, the library is %r" % (n[1], want))
        if case["fail"] is None:
            if got and len(news) != 1 or len(news) > 1:
                raise Violation("the licence manager was set up %d times" % len(news))
            if news and (calls[0][0] != "new" or calls[-1][0] != "free" or [c[0] for c in calls].count("free") != 1):
                raise Violation("the licence manager was not set up first and freed last: %r" % ([c[0] for c in calls],))


PROP = C10()
