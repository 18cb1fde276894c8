import os
import random
import signal
import time

from semla import crypt, lib, small, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg

INTS = [0, 1, 2, 9, 10, 127, 128, 255, 256, 1023, 1024, 2047, 2048, 4082, 4083, 4084, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 65535, 65536,
        2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**30, -1, -2, -2**31, -2**63, -2**63 - 1]


def blob(spec):
    """A record, from a JSON description."""
    k = spec[0]
    if k == "hex":
        return bytes.fromhex(spec[1])[:16384]
    if k == "rand":
        return random.Random(spec[2]).randbytes(max(1, min(spec[1], 16384)))
    if k == "alpha":      # random over a small alphabet
        return bytes(random.Random(spec[2]).choices(b"VERSIONLFT \n\n 0123456789-\0\xff", k=max(1, min(spec[1], 16384))))
    if k == "msg":        # command, number tokens, data length, byte, lf
        _, cmd, nums, n, ch, lf = spec
        return ((" ".join([cmd] + [str(x) for x in nums])).encode("latin1") + (b"\n" if lf else b"") + bytes([ch % 256]) * max(0, n))[:16384] or b"\n"
    if k == "path":       # FILE/LIB/FEATURE with a path of repeated elements
        _, cmd, elem, n, tail = spec
        d = (elem.encode("latin1") * max(0, n))[:16300] + tail.encode("latin1")
        return b"%s %d\n" % (cmd.encode(), len(d)) + d
    if k == "mut":        # mutations of a message
        x = bytearray(blob(spec[1]))
        for op, a, b in spec[2]:
            n = len(x)
            if op == 0 and n:
                x[a % n] ^= 1 << (b % 8)
            elif op == 1 and n:
                x[a % n] = b % 256
            elif op == 2 and n:
                del x[a % n:a % n + 1 + b % 8]
            elif op == 3:
                x[a % (n + 1):a % (n + 1)] = bytes([b % 256]) * (1 + b % 5)
            elif op == 4 and n:
                x = x[:a % n]
            elif op == 5 and n:
                i = a % n
                x[i:i] = x[i:i + 1 + b % 30]
            elif op == 6:
                x[a % (n + 1):a % (n + 1)] = str(INTS[b % len(INTS)]).encode()
        return bytes(x[:16384]) or b"\n"
    raise ValueError(k)


def gen_blob(rng, depth=0):
    x = rng.random()
    if x < 0.08:
        return ["rand", rng.choice([1, 2, 5, 100, 1000, 16384, rng.randrange(1, 16384)]), rng.randrange(1 << 30)]
    if x < 0.2:
        return ["alpha", rng.choice([1, 2, 5, 30, 100, 1000, 16384]), rng.randrange(1 << 30)]
    if x < 0.45:
        c = rng.choice(P.ALL + ["", "X", "x" * rng.choice([20, 200, 900, 1100, 5000, 16383])])
        nums = [rng.choice(INTS) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 8, 50]))]
        n = rng.choice([0, 0, 1, 5, 100, 1000, 4000, 4090, 4096, 5000, 16000, rng.randrange(16384)])
        if rng.random() < 0.5 and nums:
            nums[-1] = n + rng.choice([0, 0, 0, 1, -1, 5])
        return ["msg", c, nums, n, rng.choice([0, 10, 32, 46, 47, 65, 92, 255, 37]), rng.random() < 0.9]
    if x < 0.65:
        return ["path", rng.choice(["FILE", "FILE", "FILE", "LIB", "FEATURE", "LICENSE", "RETURNFEATURE", "RETURNLICENSE"]),
                rng.choice(["a", "/", "a/", "../", "./", "sub/", "\\", ".", "%n", "%s", "\xff", "\n", "package.moc/", "x" * 200 + "/"]),
                rng.choice([0, 1, 2, 50, 255, 256, 1023, 1024, 2020, 2040, 2046, 2047, 2048, 4070, 4080, 4081, 4082, 4083, 4084, 4085, 4090, 4094, 4095,
                            4096, 4097, 8192, 16000, rng.randrange(16000)]),
                rng.choice(["", ".moc", "x.moc", "package.moc", ".", "/x.moc", "/package.moc", ".moc/"])]
    base = ["msg", rng.choice(P.ALL), [rng.choice([0, 1, 5])], rng.choice([0, 1, 5]), 65, True] if depth or rng.random() < 0.5 else \
        ["hex", msg(rng.choice(["FILE", "LIB", "FEATURE"]), rng.choice([b"x.moc", b"sub/y.moc", b"package.moc", b"plain.txt", b"test_licensed_feature"])).hex()]
    return ["mut", base, [[rng.randrange(7), rng.randrange(1 << 16), rng.randrange(1 << 16)] for _ in range(rng.randrange(1, 6))]]


class C06(Prop):
    id = "C06"
    rule = ("a case is a session with arbitrary records (or a raw byte stream, or a cut or damaged TLS stream); non-trivial: at least one "
            "record that is not a plain valid message was answered and the session went on, or the LVE ended after a broken stream")
    quick_n, thorough_n = 2800, 24000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        x = rng.random()
        if x < 0.82:
            return dict(kind="records", state=rng.choice(["VERSION", "TOOLS", "LIB", "LICENSE", "LICENSE", "LICENSE"]), lib=rng.choice(["@one", "@one", "@none"]),
                        recs=[gen_blob(rng) for _ in range(rng.randrange(1, 25))], cert=rng.choice(["tool", "tool", "evil", None]))
        if x < 0.88:
            return dict(kind="raw", data=rng.choice([["rand", rng.choice([1, 5, 100, 5000]), rng.randrange(1 << 30)],
                                                     ["hex", ("1603010200010001fc0303" + "00" * rng.randrange(0, 600))],
                                                     ["hex", b"VERSION 1\n".hex()], ["hex", ""],
                                                     ["hex", ("170303%04x" % rng.randrange(65536)) + "41" * rng.randrange(0, 50)]]))
        if x < 0.94:
            return dict(kind="cut", at=rng.choice([rng.randrange(0, 3000), rng.randrange(0, 700)]), tls=rng.choice(["1.2", "1.3"]))
        return dict(kind="flip", at=rng.choice([rng.randrange(0, 3000), rng.randrange(0, 700)]), bit=rng.randrange(8), tls=rng.choice(["1.2", "1.3"]))

    def corpus(self):
        out = []
        for n in range(4060, 4110, 2):
            out.append(dict(kind="records", state="LICENSE", lib="@one", cert="tool",
                            recs=[["path", "FILE", "a/" if n % 4 else "a", n // (2 if n % 4 else 1), t] for t in ("x.moc", ".moc", "/package.moc")]))
        for n in (100, 470, 1000, 2000, 4070):
            out.append(dict(kind="records", state="LICENSE", lib="@one", cert="tool",
                            recs=[["path", "FILE", "/", n, "x.moc"], ["path", "FILE", "sub/" if n < 1000 else "/", n, "x.moc"]]))
        return out

    def valid(self, case):
        if case["kind"] == "records":
            for r in case["recs"]:
                blob(r)
            return case["state"] in ("VERSION", "TOOLS", "LIB", "LICENSE") and case["lib"] in ("@one", "@none")
        return True

    def shrinks(self, case):
        if case["kind"] != "records":
            for c in generic_shrinks(case):
                if c["kind"] == case["kind"] and c.get("tls") == case.get("tls"):
                    yield c
            return
        for s in generic_shrinks(case["recs"]):
            yield {**case, "recs": s}
        for i, r in enumerate(case["recs"]):
            if r[0] != "hex":
                yield {**case, "recs": case["recs"][:i] + [["hex", blob(r).hex()]] + case["recs"][i + 1:]}

    def run(self, case, env):
        return getattr(self, "run_" + case["kind"])(case, env)

    def run_records(self, case, env):
        sm = small.get(self, env)
        state, libok = "VERSION", False
        nontriv = False
        with lib.LveSession(self.b + "/lve_linux64", cert=case["cert"]) as l:
            def ask(b, what):
                r = l.ask(b)
                return r
            pre = {"VERSION": [], "TOOLS": [("VERSION", 1)], "LIB": [("VERSION", 1), ("TOOLS",)],
                   "LICENSE": [("VERSION", 1), ("LIB", sm.resolve(case["lib"]))]}[case["state"]]
            for t in pre:
                r = ask(msg(*t), "")
                if r[0] == "ERROR":
                    raise Violation("set-up %r -> %r" % (t, r))
            state = case["state"]
            libok = state == "LICENSE" and case["lib"] == "@one"
            for k, spec in enumerate(case["recs"]):
                r = ask(blob(spec), "record %d" % k)
                nontriv = True
                # a reply tells whether the message changed the state
                if r[0] != "ERROR":
                    if state == "VERSION":
                        state = "TOOLS"
                    elif state in ("TOOLS", "LIB"):
                        state, libok = ("LICENSE", False) if r == ("YES",) else ("LIB", False)
            # the session is in a known state: it has to go on
            if state == "VERSION":
                r = ask(msg("VERSION", 1), "afterwards")
                if r != ("VERSION", 1):
                    raise Violation("afterwards VERSION 1 -> %r" % (r,))
                state = "TOOLS"
            if state in ("TOOLS", "LIB"):
                r = ask(msg("LIB", sm.one.encode()), "afterwards")
                if r != ("YES",):
                    raise Violation("afterwards LIB -> %r" % (r,))
                libok = True
            r = ask(msg("FEATURE", b"test_licensed_feature"), "afterwards")
            if r != ("YES",):
                raise Violation("afterwards FEATURE -> %r" % (r,))
            r = ask(msg("FILE", b"sub/y.moc"), "afterwards")
            want = sm.lookup(sm.one.encode(), b"sub/y.moc")
            if case["cert"] == "tool" and libok:
                if r != ("FILECONT", want):
                    raise Violation("afterwards FILE sub/y.moc -> %s" % repr(r)[:200])
            elif r[0] not in ("ERROR", "FILECONT"):
                raise Violation("afterwards FILE -> %r" % (r,))
            if l.pending(0.002):
                raise Violation("more replies than records: %r" % l.buf[:100])
            lib.session_end(l)
        return nontriv, ["rec-" + case["state"]]

    def ended(self, l, what):
        rc = l.finish(notify=False)
        if l.asan():
            raise Violation("%s: memory error in the LVE: %s" % (what, l.asan()))
        if rc is None:
            raise Violation("%s: the LVE does not end" % what, soft=True)
        if rc < 0 and rc != -signal.SIGPIPE or rc == 97:
            raise Violation("%s: the LVE ended with status %d" % (what, rc))
        return True

    def run_raw(self, case, env):
        with P.Lve(self.b + "/lve_linux64") as l:
            l.outb.write(blob(case["data"])) if case["data"][0] != "hex" or case["data"][1] else None
            try:
                l.flush(time.time() + 10)
            except P.Died:
                pass
            self.ended(l, "raw bytes")
        return True, ["raw"]

    def stream(self, case, env, damage):
        """A normal session whose client bytes are damaged at offset `at` (cut: nothing after it is sent)."""
        sm = small.get(self, env)
        sent, done = [0], [False]
        l = P.Lve(self.b + "/lve_linux64", tls=case["tls"])
        real, pump = l.flush, l.pump

        def flush(deadline):
            data = l.outb.read()
            a, cut = case["at"], False
            if sent[0] <= a < sent[0] + len(data) and not done[0]:
                done[0] = True
                data, cut = damage(data, a - sent[0])
            sent[0] += len(data)
            l.outb.write(data)
            real(deadline)
            if cut:
                raise P.Died("cut")

        def pump2(deadline):
            # after the damage the LVE may be waiting for more bytes: do not wait long for it
            pump(min(deadline, time.time() + 1.5) if done[0] else deadline)
        with l:
            l.flush, l.pump = flush, pump2
            try:
                l.handshake()
                for m in [("VERSION", 1), ("LIB", sm.one.encode()), ("FILE", b"x.moc"), ("FEATURE", b"f"), ("FILE", b"sub/y.moc"), ("FILE", b"nope")]:
                    l.ask(msg(*m))
            except P.Died:
                pass
            except P.Timeout:
                if not done[0]:
                    raise
            l.flush = real
            l.outb.read()
            self.ended(l, "stream %s at %d" % (case["kind"], case["at"]))
        return done[0], [case["kind"]]

    def run_cut(self, case, env):
        return self.stream(case, env, lambda data, i: (data[:i], True))

    def run_flip(self, case, env):
        def damage(data, i):
            x = bytearray(data)
            x[i] ^= 1 << case["bit"]
            return bytes(x), False
        return self.stream(case, env, damage)


PROP = C06()
