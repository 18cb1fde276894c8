import os
import random
import subprocess

from semla import crypt, gens as G, lib
from semla.engine import Prop, Violation
from semla.proto import msg, child_env

ALTER = ["flip", "setbyte", "trunc", "cut", "append", "ins", "del", "swapblk", "dupblk", "zero", "empty", "rm", "copy", "splice",
         "addblk", "rand"]


def alter(op, cur, other):
    """-> new bytes (None: removed). op = [kind, file, a, b, other file]"""
    k, _, a, b, _ = op
    n = len(cur)
    if k == "flip":
        if not n:
            return cur
        x = bytearray(cur)
        x[a % n] ^= 1 << (b % 8)
        return bytes(x)
    if k == "setbyte":
        x = bytearray(cur)
        if n:
            x[a % n] = b % 256
        return bytes(x)
    if k == "trunc":
        return cur[:a % (n + 1)]
    if k == "cut":
        return cur[:max(0, n - 1 - a % 80)]
    if k == "append":
        return cur + random.Random(b).randbytes(1 + a % 70)
    if k == "ins":
        p = a % (n + 1)
        return cur[:p] + random.Random(b).randbytes(1 + b % 40) + cur[p:]
    if k == "del":
        p = a % (n + 1)
        return cur[:p] + cur[p + 1 + b % 33:]
    if k in ("swapblk", "dupblk", "addblk"):
        blocks = [cur[i:i + 16] for i in range(0, n, 16)]
        if len(blocks) < 2:
            return cur
        i, j = a % len(blocks), b % len(blocks)
        if k == "swapblk":
            blocks[i], blocks[j] = blocks[j], blocks[i]
        elif k == "dupblk":
            blocks[i] = blocks[j]
        else:
            blocks.insert(i, blocks[j])
        return b"".join(blocks)
    if k == "zero":
        p = a % (n + 1)
        m = min(n - p, 1 + b % 40)
        return cur[:p] + bytes(m) + cur[p + m:]
    if k == "empty":
        return b""
    if k == "rm":
        return None
    if k == "copy":
        return other
    if k == "splice":
        p = a % (n + 1)
        return cur[:p] + (other or b"")[p:]
    return random.Random(b).randbytes(a % 200)


class C02(Prop):
    id = "C02"
    level = "fault_enumeration"
    rule = ("a case is an encrypted tree and a history of alterations, requests, restorations and new sessions; non-trivial: at least "
            "one encrypted file was altered and requested, and at least one intact one was served")
    quick_n, thorough_n = 480, 6000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)
        self.lve = os.path.join(self.b, "lve_linux64")

    def gen(self, rng):
        def c():
            if rng.random() < 0.006:
                return [rng.randrange(6), rng.randrange(1 << rng.randrange(11, 20)), rng.randrange(1 << 30)]
            return [rng.randrange(6), rng.choice([0, 0, 1, 5, 15, 16, 17, 31, 32, 33, 48, 100, 250, 256, 300, 1000]), rng.randrange(1 << 30)]
        dirs = [["", rng.random() < 0.85, c(), [["x.mo", c(), True], ["y.mo", c(), True]]]]
        for p in ["a", "b", "a/c", "a/c/e", "b/f"][:rng.randrange(1, 6)]:
            dirs.append([p, rng.random() < 0.6, c(), [["x.mo", c(), True]]])
        names = [f[0] for f in lib.files(dirs)]
        n = len(names)
        pkgs = [i for i, f in enumerate(names) if f.rpartition("/")[2] == "package.moc"]
        ops = []
        for _ in range(rng.randrange(5, 60)):
            x = rng.random()
            if x < 0.05 and pkgs:
                # the mask of a directory is needed for the first time while it cannot be read, and again when it can
                i = rng.choice(pkgs)
                below = [j for j in range(n) if names[j].startswith(names[i][:-11])]
                ops.append(["new", 0, 0, 0, 0])
                ops.append([rng.choice(["rm", "rm", "flip", "empty", "cut"]), i, rng.randrange(2000), rng.randrange(1 << 20), 0])
                ops += [["req", j, 0, 0, 0] for j in rng.sample(below, min(len(below), rng.randrange(1, 4)))]
                ops.append(["restore", i, 0, 0, 0])
                ops += [["req", j, 0, 0, 0] for j in rng.sample(below, len(below))]
            elif x < 0.62:
                # byte positions from either end, so that IV, data, padding and MAC are all hit
                a = rng.choice([rng.randrange(2000), rng.randrange(96), rng.randrange(1 << 20)])
                k = rng.choice(ALTER) if rng.random() < 0.7 else "flip"
                ops.append([k, rng.randrange(n), a, rng.randrange(1 << 20), rng.randrange(n)])
                if rng.random() < 0.8:
                    ops.append(["restore", ops[-1][1], 0, 0, 0])
            elif x < 0.72:
                ops.append(["restore", rng.randrange(n), 0, 0, 0])
            elif x < 0.87:
                ops.append(["req", rng.randrange(n), 0, 0, 0])
            elif x < 0.97:
                ops.append(["new", 0, 0, 0, 0])
            else:
                ops.append(["cli", rng.randrange(n), 0, 0, 0])
        return dict(dirs=dirs, ops=ops, seed=rng.randrange(1 << 30), how=rng.choice(["api", "model", "model0"]), auto=rng.random() < 0.8)

    def corpus(self):
        # every single bit of every file of a small tree, every truncation length
        out = []
        for how in ("api", "model0"):
            dirs = [["", True, [0, 20, 1], [["x.mo", [1, 45, 2], True]]], ["a", True, [0, 0, 3], [["x.mo", [2, 33, 4], True]]]]
            for f in range(4):
                out.append(dict(dirs=dirs, ops=[["flipall", f, 0, 0, 0]], seed=7, how=how, auto=True))
                out.append(dict(dirs=dirs, ops=[["truncall", f, 0, 0, 0]], seed=7, how=how, auto=True))
                out.append(dict(dirs=dirs, ops=[["cli" + k, f, 0, 0, 0] for k in ("flip", "trunc", "")], seed=8, how=how, auto=True))
            for f in (0, 2):
                for k in ("rm", "flip", "empty"):
                    out.append(dict(dirs=dirs, ops=[[k, f, 40, 3, 0], ["req", 3, 0, 0, 0], ["restore", f, 0, 0, 0], ["req", 3, 0, 0, 0], ["req", 1, 0, 0, 0]], seed=7, how=how, auto=False))
        # large files, altered close to their ends and to all powers of two
        for n in (5000, 66000, 270000, (1 << 20) + 77000, (1 << 22) + 9) + ((1 << 24) + 3, (1 << 26) + 1) * (self.tier == "thorough"):
            dirs = [["", True, [0, 20, 1], [["x.mo", [1, n, 2], True]]], ["a", True, [0, n, 3], [["x.mo", [2, 33, 4], True]]]]
            at = [0, 15, 16] + [(1 << k) + d for k in range(11, 27) for d in (-1, 0, 16) if (1 << k) + d < n] + [n // 3, n // 2, n - 20, n, n + 30, n + 50]
            for f in (1, 2):
                for k, b in (("flip", 5), ("swapblk", 9), ("del", 15)):
                    out.append(dict(dirs=dirs, ops=[x for a in at for x in ([k, f, a // 16 if k == "swapblk" else a, b, 0], ["req", f, 0, 0, 0], ["req", 3, 0, 0, 0], ["restore", f, 0, 0, 0], ["new", 0, 0, 0, 0])][:5 * (8 if n > 1 << 19 and self.tier == "quick" and k != "flip" else 1000)],
                                    seed=9, how="model", auto=False))
        if self.tier == "thorough":     # more bytes inserted than an int counts
            out += [dict(giant=[at, n]) for at in (16, -32) for n in (1 << 32, (1 << 31) + 16, (1 << 31) - 64)]
        return out

    def giant(self, at, n, env):
        top = env.newdir()
        try:
            plain = b"model x end x;"
            blob = crypt.seal(self.key, bytes(range(16)), plain)
            os.mkdir(top + "/e")
            lib.put(top + "/e/x.moc", blob)
            with open(top + "/e/y.moc", "wb") as f:
                f.write(blob[:at])
                f.seek(at % len(blob) + n)
                f.write(blob[at:])
            e = dict(ASAN_OPTIONS=child_env()["ASAN_OPTIONS"] + ":max_allocation_size_mb=10000")
            with lib.LveSession(self.lve, env=e) as l:
                if l.to_license(top + "/e") != ("YES",):
                    raise Violation("LIB refused")
                for name, want in (("x.moc", "FILECONT"), ("y.moc", "ERROR"), ("x.moc", "FILECONT")):
                    r = l.ask(msg("FILE", name.encode()), 60)
                    if r[0] != want:
                        raise Violation("%s (%d bytes inserted at %d of y.moc) -> %s" % (name, n, at, r[0]))
            return True, ["giant"]
        finally:
            env.drop(top)

    def valid(self, case):
        if "giant" in case:
            return True
        n = len(lib.files(case["dirs"]))
        return (G.valid_tree(case["dirs"]) and all(f[0].endswith(".mo") and f[2] is True for d in case["dirs"] for f in d[3]) and case["how"] in ("api", "model", "model0")
                and all(len(o) == 5 and (o[0] in ALTER or o[0] in ("restore", "req", "new", "cli", "flipall", "truncall", "cliflip", "clitrunc"))
                        and 0 <= o[1] < n and 0 <= o[4] < n for o in case["ops"]))

    def shrinks(self, case):
        if "giant" in case:
            return
        from semla.engine import generic_shrinks
        for s in generic_shrinks(case["ops"]):
            yield {**case, "ops": s}
        for d in generic_shrinks(case["dirs"]):
            yield {**case, "dirs": d}

    def run(self, case, env):
        if "giant" in case:
            return self.giant(*case["giant"], env)
        top = env.newdir()
        st = dict(l=None)
        try:
            return self._run(case, env, top, st)
        finally:
            if st["l"]:
                st["l"].kill()
            env.drop(top)

    def _run(self, case, env, top, st):
        clear, enc = top + "/clear", top + "/enc"
        how = case["how"]
        lib.build(self, env, case["dirs"], "model" if how == "model0" else how, case["seed"], clear, enc)
        fl = lib.files(case["dirs"])
        path = [os.path.join(enc, f[0]) for f in fl]
        if how == "model0":
            self.nul_macs(case, fl, path)
        orig = [lib.get(p) for p in path]
        cur = list(orig)
        pkg = {f[0].rpartition("/")[0]: i for i, f in enumerate(fl) if f[0].rpartition("/")[2] == "package.moc"}

        def parent(d):
            return d.rpartition("/")[0]

        def keydir(i, have=None):
            """directory whose package.moc (of those that exist) gives the mask of file i, or None at the top"""
            have = pkg if have is None else have
            d = fl[i][0].rpartition("/")[0]
            if pkg.get(d) == i:
                if d == "":
                    return None
                d = parent(d)
            while d not in have:
                if d == "":
                    return None
                d = parent(d)
            return d

        def chain(i):
            out = []
            d = keydir(i)
            while d is not None:
                out.append(pkg[d])
                d = keydir(pkg[d])
            return out

        def authentic(i):
            """altered, but a file encrypted under this file's mask, or the one it has now that package.moc files are removed or exchanged"""
            if cur[i] is None:
                return False
            d = keydir(i, {d for d in pkg if cur[pkg[d]] is not None})
            now = None if d is None else next((q for q in pkg if orig[pkg[q]] == cur[pkg[d]]), d)
            return any(cur[i] == orig[j] and keydir(j) in (keydir(i), now) for j in range(len(fl)))

        S = dict(requests=0, poisoned=False)
        stats = dict(bad=0, good=0)
        tags = set()

        def session():
            if st["l"] is None:
                st["l"] = __import__("semla.proto", fromlist=["Lve"]).Lve(self.lve)
                st["l"].handshake()
                if st["l"].to_license(enc) != ("YES",):
                    raise Violation("LIB refused")
                S["requests"], S["poisoned"] = 0, False
            return st["l"]

        def close():
            l, st["l"] = st["l"], None
            if l:
                try:
                    lib.session_end(l)
                finally:
                    l.kill()

        def request(i, why):
            l = session()
            try:
                r = l.ask(msg("FILE", lib.fs(fl[i][0])))
            except Exception as e:
                a = None
                if l.p.poll() is not None or not isinstance(e, __import__("semla.proto", fromlist=["x"]).Timeout):
                    l.finish(3)
                    a = l.asan()
                if a:
                    raise Violation("%s: memory error in the LVE: %s" % (why, a))
                raise
            first = S["requests"] == 0
            S["requests"] += 1
            self_alt = cur[i] != orig[i]
            ch = [j for j in chain(i) if cur[j] != orig[j]]
            if any(authentic(j) and cur[j] != orig[j] for j in pkg.values()):
                S["poisoned"] = True
            good = ("FILECONT", fl[i][1])
            if self_alt:
                if not authentic(i):
                    stats["bad"] += 1
                    if r[0] != "ERROR":
                        raise Violation("%s: altered file %r was answered %s" % (why, fl[i][0], repr(r)[:120]))
                elif r[0] not in ("ERROR", "FILECONT"):
                    raise Violation("%s: %r" % (why, r))
            elif ch:
                stats["bad"] += 1
                if r[0] != "ERROR" and (first or r != good):
                    raise Violation("%s: file %r whose package.moc %r is altered was answered %s"
                                    % (why, fl[i][0], fl[ch[0]][0], repr(r)[:120]))
            elif S["poisoned"]:
                if r[0] != "ERROR" and r != good:
                    raise Violation("%s: wrong contents for %r" % (why, fl[i][0]))
            else:
                stats["good"] += 1
                if r != good:
                    raise Violation("%s: intact file %r (%d bytes) was answered %s" % (why, fl[i][0], len(fl[i][1]), repr(r)[:160]))

        def write(i, b):
            cur[i] = b
            if b is None:
                if os.path.exists(path[i]):
                    os.unlink(path[i])
            else:
                lib.put(path[i], b)

        def cli(i, why):
            out = top + "/out"
            r = subprocess.run([self.b + "/decrypt_file", enc, fl[i][0], out], env=child_env(), stdin=subprocess.DEVNULL,
                               capture_output=True, timeout=60)
            left = lib.get(out) if os.path.exists(out) else None
            if left is not None:
                os.unlink(out)
            if r.returncode < 0 or r.returncode == 97:
                raise Violation("%s: decrypt_file ended with status %d: %s" % (why, r.returncode, lib.err_tail(r.stderr)))
            alt = cur[i] != orig[i] or any(cur[j] != orig[j] for j in chain(i))
            if alt and not (authentic(i) and cur[i] != orig[i]):
                stats["bad"] += 1
                if r.returncode == 0 or left is not None:
                    raise Violation("%s: decrypt_file of altered %r: status %d, output %s" % (why, fl[i][0], r.returncode,
                                                                                          "left" if left is not None else "absent"))
            elif not alt:
                stats["good"] += 1
                if r.returncode or left != fl[i][1]:
                    raise Violation("%s: decrypt_file of intact %r: status %d" % (why, fl[i][0], r.returncode))

        n = len(fl)
        for k, op in enumerate(case["ops"]):
            kind, i = op[0], op[1]
            why = "step %d %s" % (k, op)
            if kind == "new":
                close()
            elif kind == "restore":
                write(i, orig[i])
            elif kind == "req":
                request(i, why)
            elif kind == "cli":
                cli(i, why)
            elif kind in ("flipall", "truncall"):
                m = len(orig[i])
                for p in (range(8 * m) if kind == "flipall" else range(m)):
                    x = bytearray(orig[i])
                    if kind == "flipall":
                        x[p // 8] ^= 1 << (p % 8)
                    else:
                        x = x[:p]
                    write(i, bytes(x))
                    request(i, why + " %d" % p)
                write(i, orig[i])
                for j in range(n):
                    request(j, why)
            elif kind in ("cliflip", "clitrunc"):
                for p in range(0, len(orig[i]), 5):
                    write(i, alter(["flip" if kind == "cliflip" else "trunc", i, p, p, 0], orig[i], None))
                    cli(i, why + " %d" % p)
                    cli((i + 1) % n, why + " %d" % p)
                write(i, orig[i])
                cli(i, why)
            else:
                tags.add(kind)
                write(i, alter(op, cur[i] if cur[i] is not None else b"", cur[op[4]]))
                if case["auto"]:
                    request(i, why)
                    request((i + 1 + op[3]) % n, why)
            if kind == "restore" and case["auto"]:
                request(i, why)
        for i in range(n):
            write(i, orig[i])
        session()
        for i in range(n):
            request(i, "after restoring everything")
        close()
        return stats["bad"] >= 1 and stats["good"] >= 1, sorted(tags)

    def nul_macs(self, case, fl, path):
        """Re-seals files with IVs such that the MAC starts with a NUL byte (1 in 256): comparison has to cover what follows."""
        own, of = lib.model_masks(case["dirs"], case["seed"])
        r = random.Random(case["seed"])
        for (name, data, _, e), p in zip(fl, path):
            if not e:
                continue
            d, _, base = name.rpartition("/")
            if base == "package.moc":
                plain, m = data + own[d], bytes(32) if d == "" else of(d.rpartition("/")[0])
            else:
                plain, m = data, of(d)
            key = crypt.xor(self.key, m)
            import hashlib
            import hmac
            for _ in range(5000):
                iv = r.randbytes(16)
                if hmac.new(key, iv + plain, hashlib.sha256).digest()[0] == 0:
                    break
            lib.put(p, crypt.seal(key, iv, plain))


PROP = C02()
