"""Error objects: random call histories over several slots against a table of what was stored."""
from semla import proto as P
from semla.engine import Prop, Violation

NSLOT = 6
NULL = 63
LENS = [0, 1, 2, 5, 100, 255, 1023, 1024, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 4096, 5000, 9000]
WORDS = ["%s", "%n", "%d%d", "%", "%%", "text ", "\xe5\xe4", "\n", "Error: ", "a", "%1000c", "%x%x", "\t", "\x01\xff", "code 5"]


def text(spec):
    """[words index list, length] -> bytes without NUL"""
    ws, n = spec
    w = b"".join(WORDS[i % len(WORDS)].encode("latin1") for i in ws) or b"q"
    return (w * (n // len(w) + 1))[:n]


class C17(Prop):
    id = "C17"
    rule = ("a case is a sequence of calls over six error slots; non-trivial: two errors exist at the same time while others are created, moved "
            "or freed, and a message has 2047 bytes or more, is absent, or contains format directives")
    quick_n, thorough_n = 24000, 300000

    def gen(self, rng):
        ops, full = [], set()
        for _ in range(rng.randrange(4, 70)):
            i = rng.randrange(NSLOT)
            x = rng.random()
            m = [[rng.randrange(len(WORDS)) for _ in range(rng.randrange(1, 4))],
                 rng.choice(LENS) if rng.random() < 0.4 else rng.randrange(0, 60)]
            dc = [rng.choice([0, 1, -1, 3, 7, 2**31 - 1, -2**31, 100]), rng.choice([0, 1, 2, -1, 9, 2**31 - 1, -2**31, 12345])]
            if x < 0.45:
                k = rng.choice(["new", "newlit", "set", "setlit", "newfmt", "newva", "setfmt"])
                if k.startswith("set") and rng.random() < 0.2:
                    ops.append([k, NULL] + dc + [m])
                elif i in full:
                    continue
                else:
                    if k.endswith("lit") and rng.random() < 0.15:
                        m = None
                    ops.append([k, i] + dc + [m])
                    full.add(i)
            elif x < 0.6:
                j = rng.randrange(NSLOT)
                d = NULL if rng.random() < 0.25 else i
                if d != NULL and (d in full or d == j):
                    continue
                ops.append(["prop", d, j])
                if j in full and d != NULL:
                    full.add(d)
                full.discard(j)
            elif x < 0.8:
                i = NULL if rng.random() < 0.05 else i
                ops.append(["free", i])
                full.discard(i)
            else:
                ops.append(["get", i])
        return dict(ops=ops)

    def valid(self, case):
        full = set()
        for o in case["ops"]:
            if len(o) < 2 or (not 0 <= o[1] < NSLOT and o[1] != NULL):
                return False
            if o[0] in ("get",) and o[1] == NULL:
                return False
            if o[0] == "prop":
                if len(o) != 3 or not 0 <= o[2] < NSLOT or o[1] == o[2] or o[1] in full:
                    return False
                if o[2] in full and o[1] != NULL:
                    full.add(o[1])
                full.discard(o[2])
            elif o[0] == "free":
                full.discard(o[1])
            elif o[0] != "get":
                if len(o) != 5 or o[1] in full or (o[1] == NULL and not o[0].startswith("set")):
                    return False
                if o[4] is None:
                    if not o[0].endswith("lit"):
                        return False
                elif len(o[4]) != 2 or o[4][1] < 0:
                    return False
                if o[1] != NULL:
                    full.add(o[1])
        return True

    def run(self, case, env):
        h = env.proc("error", self.b + "/h_error")
        try:
            return self.steps(case, h)
        except P.Died as e:
            env.dropproc("error")
            raise Violation("the program using the error API ended: %s" % e)
        except Violation:
            env.dropproc("error")
            raise

    def steps(self, case, h):
        base = h.ask("heap").f["heap"]
        slots, live, special, moves = {}, 0, False, 0
        for n, o in enumerate(case["ops"]):
            k, i = o[0], o[1]
            if k in ("new", "newlit", "set", "setlit", "newfmt", "newva", "setfmt"):
                m = None if o[4] is None else text(o[4])
                r = h.ask(k, i, o[2], o[3], "null" if m is None else m, o[2]) if k in ("newfmt", "newva", "setfmt") else \
                    h.ask(k, i, o[2], o[3], "null" if m is None else m)
                if m is not None:
                    if k in ("newfmt", "newva", "setfmt"):
                        m = b"<%s|%d|%s>" % (m, o[2], m[:3])
                    if not k.endswith("lit"):
                        m = m[:2047]
                special = special or m is None or len(m) >= 2047 or b"%" in m
                if i != NULL:
                    slots[i] = (o[2], o[3], m)
                live = max(live, len(slots))
            elif k == "prop":
                r = h.ask("prop", i, o[2])
                e = slots.pop(o[2], None)
                if e is not None and i != NULL:
                    slots[i] = e
                    moves += 1
            elif k == "free":
                r = h.ask("free", i)
                if i != NULL and slots.pop(i, None):
                    moves += 1
            else:
                r = h.ask("get", i)
            self.same(r.line, None if i == NULL else slots.get(i), "call %d %s" % (n, k))
            if n % 7 == 6:
                for s in range(NSLOT):
                    self.same(h.ask("get", s).line, slots.get(s), "after call %d: slot %d" % (n, s))
        for s in range(NSLOT):
            self.same(h.ask("get", s).line, slots.get(s), "at the end: slot %d" % s)
            self.same(h.ask("free", s).line, None, "freeing slot %d" % s)
        end = h.ask("heap").f["heap"]
        if int(end) > int(base):
            raise Violation("%d bytes of freed errors are still allocated" % (int(end) - int(base)))
        return live > 1 and special and moves > 0, ["live%d" % live]

    @staticmethod
    def same(line, e, what):
        if e is None:
            want = "none"
        else:
            want = "%d,%d,%s,nocause" % (e[0], e[1], "null" if e[2] is None else P.hx(e[2]))
        if line != want:
            raise Violation("%s: error is %s, expected %s" % (what, show(line), show(want)))


def show(x):
    return x if len(x) < 200 else "%s...(%d characters)" % (x[:200], len(x))


PROP = C17()
