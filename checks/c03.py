import os

from semla import crypt, lib, model, small, proto as P
from semla.engine import Prop, Violation
from semla.proto import msg

TRUSTED = ["toolb", "tool", "toolc", "tool_chain", "tool_old", "tool_future", "tool_issued"]
# keys that differ from a trusted one in one or two characters of their PEM text (harness/keys/make_alike.py)
NEAR = ["near_tool_case", "near_tool_mid", "near_tool_first", "near_tool_line1", "near_tool_last", "near_tool_eol", "near_tool_swap",
        "near_toolb_case", "near_toolb_mid", "near_toolc_case", "near_toolc_mid"]
UNTRUSTED = ["evil", "evil2", "alike_e", "alike_hi", "alike_lo", "big", "evil_subj", "evil_chain", "evil_issued", "evil_issued_chain", "lve", None] + NEAR
NOSESSION = ["forged"]          # the tool's certificate, without its private key
EITHER = ["ec"]                 # a key of another type: no session, or one without files


class C03(Prop):
    id = "C03"
    rule = ("a case is a client certificate, TLS version, LVE build and command history with FILE requests; non-trivial: a FILE request "
            "for an existing file was answered (trusted: contents, untrusted: ERROR) or the session was refused to a client that does "
            "not own the key")
    configs = ["asan", "asan-glob-ok"]
    quick_n, thorough_n = 2400, 16000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)
        self.keys = {c: crypt.product_key(self.bin[c]) for c in self.configs}

    def gen(self, rng):
        x = rng.random()
        cert = rng.choice(TRUSTED if x < 0.3 else UNTRUSTED if x < 0.9 else NOSESSION + EITHER)
        m = model.LveModel()
        ops = []
        for _ in range(rng.randrange(3, 25)):
            o = small.gen_msg(rng, m.state)
            ops.append(o)
            m.step(tuple(v.encode("latin1") if isinstance(v, str) and i else v for i, v in enumerate(o)))
        return dict(cert=cert, tls=rng.choice(["1.2", "1.3"]), cfg=rng.choice(self.configs), ops=ops)

    def corpus(self):
        hist = [["VERSION", 1], ["LIB", "@one"], ["FILE", "x.moc"], ["FEATURE", "test_licensed_feature"], ["FILE", "x.moc"],
                ["FILE", "plain.txt"], ["FILE", "sub/y.moc"], ["LIB", "@one"], ["FILE", "x.moc"]]
        hist2 = [["VERSION", 0], ["VERSION", 1], ["TOOLS"], ["LIB", ""], ["LIB", "@none"], ["FILE", "x.moc"], ["FILE", "plain.txt"]]
        return [dict(cert=c, tls=t, cfg=g, ops=h) for c in TRUSTED + UNTRUSTED + NOSESSION + EITHER for t in ("1.2", "1.3")
                for g in self.configs for h in (hist, hist2)]

    def valid(self, case):
        return all(small.valid_msg(o) for o in case["ops"]) and case["cfg"] in self.configs

    def shrinks(self, case):
        from semla.engine import generic_shrinks
        for s in generic_shrinks(case["ops"]):
            yield {**case, "ops": s}

    def run(self, case, env):
        sm = small.get(self, env)
        if case["cfg"] != "asan":
            # the other build has its own product key
            sm = getattr(env, "small2", None)
            if sm is None:
                save, self.key = self.key, self.keys[case["cfg"]]
                sm = env.small2 = small.Small(self, env)
                self.key = save
        cert = case["cert"]
        lve = P.Lve(self.bin[case["cfg"]] + "/lve_linux64", cert=cert, tls=case["tls"])
        tags = ["cert-%s" % cert, "tls" + case["tls"], case["cfg"]]
        hit = False
        with lve as l:
            try:
                l.handshake()
                first = l.ask(msg("VERSION", 0))
            except (P.Died, P.BadReply) as e:
                l.finish(5)
                if l.asan():
                    raise Violation("memory error in the LVE: %s" % l.asan())
                if cert in NOSESSION + EITHER:
                    return True, tags + ["refused"]
                raise Violation("no session for certificate %s: %s" % (cert, e))
            if cert in NOSESSION:
                raise Violation("a client that does not have the private key of the certificate got a session: %r" % (first,))
            m = model.LveModel(trusted=cert in TRUSTED, glob="ok" if case["cfg"] == "asan-glob-ok" else None, lookup=sm.lookup)
            if not model.match(m.step(("VERSION", 0)), first):
                raise Violation("VERSION 0 -> %r" % (first,))
            for k, o in enumerate(case["ops"]):
                t = small.to_tuple(sm, o)
                want = m.step(t)
                try:
                    r = l.ask(msg(*t))
                except P.Died as e:
                    l.finish(5)
                    raise Violation("step %d %r: %s %s" % (k, o, e, l.asan()))
                if not model.match(want, r):
                    raise Violation("step %d, certificate %s: %r -> %s, expected %s" % (k, cert, o, model.show(r), model.show(want)))
                if t[0] == "FILE" and m.state == "LICENSE" and sm.lookup(m.lib, t[1]) is not None:
                    hit = True
                if not m.trusted and any(s in x for x in r if isinstance(x, bytes) for s in sm.secrets()):
                    raise Violation("step %d: contents in the reply to an untrusted tool" % k)
            lib.session_end(l)
        return hit, tags


PROP = C03()
