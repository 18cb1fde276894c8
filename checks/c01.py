import os
import random
import signal
import time

from semla import crypt, gens as G, lib, proto as P
from semla.engine import Prop, Violation
from semla.proto import msg


class C01(Prop):
    id = "C01"
    rule = ("a case is a library tree, an encryption method and a request sequence; non-trivial: at least two encrypted files were "
            "served and at least one directory has a package.mo")
    quick_n, thorough_n = 640, 6000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)
        self.lve = os.path.join(self.b, "lve_linux64")

    def gen(self, rng):
        if rng.random() < 0.008:
            return dict(swap=[rng.choice([0, 1, 100, 5000, 70000]) for _ in range(rng.randrange(2, 4))], ext=rng.choice(["mo", "moc", "txt"]),
                        n=rng.randrange(50, 400), seed=rng.randrange(1 << 20))
        big = 0.05 if self.tier == "thorough" else 0.02
        x = rng.random()
        if x < 0.04:        # many packages in one session
            dirs = wide(rng.randrange(20, 70), rng.choice([1, 3, 8]), rng.randrange(1 << 20), rng.choice([1, 2, 3]))
        elif x < 0.07:      # long chains of directories
            dirs = chain(rng.randrange(8, 60), rng.choice([1, 2, 3, 7]), rng.randrange(1 << 20), rng.choice([1, 1, 20, 60]))
        else:
            dirs = G.tree(rng, maxdirs=rng.choice([3, 6, 10]), maxdepth=rng.choice([5, 5, 9]), big=big, huge=0.004 if self.tier == "thorough" else 0.001)
        how = rng.choice(["api", "api", "cli", "model"])
        n = len(lib.files(dirs))
        sess = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            style = rng.random()
            if style < 0.5:
                q = list(range(n))
                rng.shuffle(q)
            elif style < 0.6:
                q = list(range(n))[::-1]
            else:
                q = [rng.randrange(n) for _ in range(rng.randrange(1, 2 * n + 2))] if n else []
            if rng.random() < 0.3 and n:
                q = q + [rng.randrange(n) for _ in range(3)]
            if rng.random() < 0.01 and n:       # a long session
                q = [rng.randrange(n) for _ in range(rng.randrange(100, 1100))]
            sess.append(q)
        return dict(dirs=dirs, how=how, seed=rng.randrange(1 << 30), sess=sess, tls=rng.choice(["1.2", "1.3"]),
                    lib=rng.choice(["abs", "slash", "rel"]))

    def corpus(self):
        c = lambda n, s=1: [0, n, s]
        deep = [["", True, c(10), [["r.mo", c(40), True]]]]
        p = ""
        for k in range(7):
            p = G.join(p, "d%d" % k)
            deep.append([p, k % 3 == 1, c(100 + k), [["f.mo", c(300 + k, k), True], ["t.txt", c(70, k), False]]])
        out = []
        for how in ("api", "cli", "model"):
            n = len(lib.files(deep))
            out.append(dict(dirs=deep, how=how, seed=1, sess=[list(range(n)), list(range(n))[::-1]], tls="1.3", lib="abs"))
            edge = [["", True, c(0), [["e%d.mo" % i, c(n), True] for i, n in enumerate(G.EDGE)]]]
            n = len(G.EDGE) + 1
            out.append(dict(dirs=edge, how=how, seed=2, sess=[list(range(n))], tls="1.2", lib="abs"))
        big = [["", True, c(1 << 20), [["big.mo", c((1 << 23) + 5), True], ["big.txt", c((1 << 23) + 1), False]]]]
        out.append(dict(dirs=big, how="api", seed=3, sess=[[0, 1, 2]], tls="1.3", lib="abs"))
        bigger = [["", False, c(5), [["big.mo", c((1 << 24) + 70001), True], ["big.txt", c((1 << 24) + 90001), False]]]]
        out.append(dict(dirs=bigger, how="model", seed=3, sess=[[0, 1]], tls="1.3", lib="abs"))
        for k, dirs in enumerate((wide(70, 1, 5, 1), wide(40, 8, 6, 2), chain(45, 1, 7), chain(30, 3, 8))):
            n = len(lib.files(dirs))
            out.append(dict(dirs=dirs, how="model", seed=k, sess=[list(range(n)), list(range(n))[::-1]], tls="1.3", lib="abs"))
        many = [["", True, c(9), [["f%d.mo" % i, c(i, i), True] for i in range(300)]]]
        out.append(dict(dirs=many, how="api", seed=4, sess=[list(range(301))], tls="1.2", lib="abs"))
        out.append(dict(dirs=wide(330, 1, 9, 1), how="api", seed=5, sess=[[i for _ in range(2) for i in range(660)]], tls="1.3", lib="abs"))
        for every in (1, 4):
            out.append(dict(dirs=chain(50, every, 3, 61), how="api" if every > 1 else "model", seed=6, sess=[list(range(50))], tls="1.3", lib="abs"))
        out.append(dict(dirs=deep, how="model", seed=7, sess=[[3, 1, 6] * (400 if self.tier == "quick" else 30000)], tls="1.3", lib="abs"))
        for n in [4095 - k for k in range(16)] + [4000, 2000]:
            out.append(dict(longest=n))
        for ext in ("moc", "txt"):
            for q in ([100, 5000], [70000, 3, 20000]):
                out.append(dict(swap=q, ext=ext, n=400, seed=8))
        if self.tier == "thorough":     # files longer than an int (holes with a few marked bytes)
            out += [dict(giant=(1 << 31) - 11), dict(giant=(1 << 31) + 70001), dict(giant=(1 << 32) + 5)]
        return out

    def valid(self, case):
        if "giant" in case:
            return set(case) == {"giant"} and isinstance(case["giant"], int) and 0 < case["giant"] < 1 << 33
        if "longest" in case:
            return set(case) == {"longest"} and 1000 <= case["longest"] <= 4095
        if "swap" in case:
            return len(case["swap"]) >= 2 and all(0 <= n <= 1 << 20 for n in case["swap"]) and case["ext"] in ("mo", "moc", "txt") and case["n"] > 0
        n = len(lib.files(case["dirs"]))
        return (G.valid_tree(case["dirs"]) and case["how"] in ("api", "cli", "model") and case["tls"] in ("1.2", "1.3")
                and case["lib"] in ("abs", "slash", "rel") and all(0 <= i < n for q in case["sess"] for i in q))

    def shrinks(self, case):
        if "giant" in case or "swap" in case or "longest" in case:
            return
        # dropping trailing things changes file indices, so offer "request all" too
        from semla.engine import generic_shrinks
        for d in generic_shrinks(case["dirs"]):
            try:
                n = len(lib.files(d))
            except Exception:
                continue
            yield {**case, "dirs": d, "sess": [[i for i in q if i < n] for q in case["sess"]]}
            yield {**case, "dirs": d, "sess": [list(range(n))]}
        for s in generic_shrinks(case["sess"]):
            yield {**case, "sess": s}
        for h in ("model", "api"):
            if case["how"] == "cli" or (case["how"] == "api" and h == "model"):
                yield {**case, "how": h}

    def giant(self, size, env):
        top = env.newdir()
        try:
            os.mkdir(top + "/enc")
            marks = {o: bytes([1 + i]) for i, o in enumerate([0, 16384, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, size - 1]) if o < size}
            with open(top + "/enc/g.bin", "wb") as f:
                f.truncate(size)
                for o, b in marks.items():
                    f.seek(o)
                    f.write(b)
            e = dict(ASAN_OPTIONS=P.child_env()["ASAN_OPTIONS"] + ":max_allocation_size_mb=10000")
            with lib.LveSession(self.lve, tls="1.3", cwd=top, env=e) as l:
                r = l.to_license(top + "/enc")
                if r != ("YES",):
                    raise Violation("LIB -> %r" % (r,))
                l.send(msg("FILE", b"g.bin"))
                head, pos, zero = b"", 0, bytes(1 << 17)
                while b"\n" not in head:
                    head += l.read_some(60)
                head, d = head.split(b"\n", 1)
                if head != b"FILECONT %d" % size:
                    raise Violation("FILE of %d bytes -> %r" % (size, head[:100]))
                while True:
                    want = zero[:len(d)]
                    for o, b in marks.items():
                        if pos <= o < pos + len(d):
                            want = want[:o - pos] + b + want[o - pos + 1:]
                    if d != want:
                        raise Violation("FILE of %d bytes: other bytes at %d..%d" % (size, pos, pos + len(d)))
                    pos += len(d)
                    if pos >= size:
                        break
                    d = l.read_some(60)
                del d
                if pos != size:
                    raise Violation("FILE of %d bytes: %d bytes came" % (size, pos))
                if l.ask(msg("FILE", b"none"))[0] != "ERROR":
                    raise Violation("no error for a missing file after a file of %d bytes" % size)
                lib.session_end(l)
            return True, ["giant"]
        finally:
            env.drop(top)

    def longest(self, n, env):
        """files whose whole path has n bytes, about as long as the system allows"""
        top = env.newdir()
        try:
            own = random.Random(n).randbytes(32)
            put = lambda rel, data: lib.put(top + "/enc/" + rel, data)
            os.mkdir(top + "/enc")
            put("package.moc", crypt.seal(self.key, bytes(range(16)), b"package" + own))
            dirs, left = "", n - len(top + "/enc/") - len("x.moc")
            while left > 1:
                k = min(200, left - 1) if left != 202 else 199
                dirs, left = dirs + "d" * k + "/", left - k - 1
                os.mkdir(top + "/enc/" + dirs)
            names = {dirs + "x.moc": b"within;" + own, dirs + "y.txt": own, dirs + "z.moc": b""}
            for name, data in names.items():
                put(name, crypt.seal(crypt.xor(self.key, own), bytes(range(16)), data) if name.endswith("c") else data)
            with lib.LveSession(self.lve, tls="1.3", cwd=top) as l:
                r = l.to_license(top + "/enc")
                if r != ("YES",):
                    raise Violation("LIB -> %r" % (r,))
                for name in list(names) * 2:
                    r = l.ask(msg("FILE", name.encode()))
                    if r != ("FILECONT", names[name]):
                        raise Violation("FILE with a path of %d bytes (%d in all) -> %r" % (len(name), len(top + "/enc/" + name), r[:3]))
                lib.session_end(l)
            return True, ["longest"]
        finally:
            env.drop(top)

    def swap(self, case, env):
        """the file is replaced again and again (by renaming) while it is asked for"""
        top = env.newdir()
        pid = 0
        try:
            rng = random.Random(case["seed"])
            os.mkdir(top + "/enc")
            name = "x." + case["ext"]
            versions = [rng.randbytes(n) for n in case["swap"]]
            for i, d in enumerate(versions):
                lib.put(top + "/v%d" % i, crypt.seal(self.key, rng.randbytes(16), d) if case["ext"] == "moc" else d)
            os.link(top + "/v0", top + "/enc/" + name)
            seen = set()
            with lib.LveSession(self.lve, tls="1.3", cwd=top) as l:
                r = l.to_license(top + "/enc")
                if r != ("YES",):
                    raise Violation("LIB -> %r" % (r,))
                pid = os.fork()
                if pid == 0:
                    try:
                        os.chdir(top)
                        end, i, parent = time.time() + 60, 0, os.getppid()
                        while time.time() < end and os.getppid() == parent:
                            i = (i + 1) % len(versions)
                            os.link("v%d" % i, "t%d" % i)
                            os.rename("t%d" % i, "enc/" + name)
                    finally:
                        os._exit(0)
                for _ in range(case["n"]):
                    r = l.ask(msg("FILE", name.encode()))
                    if r[0] != "FILECONT" or r[1] not in versions:
                        raise Violation("FILE %r while versions of %r bytes replace each other -> %s" % (name, case["swap"], show(r, versions[0])))
                    seen.add(versions.index(r[1]))
                pid = stopped(pid)
                lib.session_end(l)
            return len(seen) > 1, ["swap", case["ext"]]
        finally:
            stopped(pid)
            env.drop(top)

    def run(self, case, env):
        if "giant" in case:
            return self.giant(case["giant"], env)
        if "longest" in case:
            return self.longest(case["longest"], env)
        if "swap" in case:
            return self.swap(case, env)
        top = env.newdir()
        try:
            clear, enc = top + "/clear", top + "/enc"
            lib.build(self, env, case["dirs"], case["how"], case["seed"], clear, enc)
            fl = lib.files(case["dirs"])
            served = set()
            for k, q in enumerate(case["sess"]):
                path = {"abs": enc, "slash": enc + "/", "rel": "enc"}[case["lib"]]
                with lib.LveSession(self.lve, tls=case["tls"], cwd=top) as l:
                    r = l.to_license(path)
                    if r != ("YES",):
                        raise Violation("LIB -> %r" % (r,))
                    for i in q:
                        name, want, _, e = fl[i]
                        r = l.ask(msg("FILE", lib.fs(name)))
                        if r != ("FILECONT", want):
                            raise Violation("session %d: FILE %r (%d bytes) -> %s" % (k, name, len(want), show(r, want)))
                        if e:
                            served.add(i)
                    if l.pending():
                        raise Violation("unasked data from the LVE after the replies")
                    lib.session_end(l)
            return (len(served) >= 2 and any(d[1] for d in case["dirs"]),
                    [case["how"], "tls" + case["tls"], "sessions%d" % len(case["sess"])]
                    + (["nopkgdir"] if any(not d[1] for d in case["dirs"]) else [])
                    + (["rootless"] if not case["dirs"][0][1] else []))
        finally:
            env.drop(top)


def stopped(pid):
    if pid:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return 0


def wide(n, fan, seed, every):
    """n directories below the root, fan of them at each level"""
    out, level, k = [["", True, [0, 20, seed], [["r.mo", [0, 30, seed], True]]]], [""], 0
    while k < n:
        nxt = []
        for p in level:
            for i in range(fan):
                if k < n:
                    q = G.join(p, "d%d" % i) if fan > 1 else "p%d" % k
                    out.append([q, k % every == 0, [0, 10 + k % 7, seed + k], [["f.mo", [0, 5 + k % 40, seed - k], True]]])
                    nxt.append(q)
                    k += 1
        level = nxt if fan > 1 else [""]
    return out


def chain(n, every, seed, width=1):
    out, p = [["", True, [0, 20, seed], []]], ""
    for k in range(n):
        p = G.join(p, "c" * width + str(k))
        out.append([p, k % every == 0, [0, k, seed + k], [["f.mo", [0, 33 + k, seed - k], True]]])
    return out


def show(r, want=None):
    if r[0] == "FILECONT":
        d = r[1]
        k = next((i for i, (a, b) in enumerate(zip(d, want or b"")) if a != b), None)
        return "FILECONT with %d bytes, first difference at %s" % (len(d), k)
    return repr(r)[:300]


PROP = C01()
