"""Encrypted files opened by an independent implementation of the file format; freshness of IVs and masks."""
import os
import random

from semla import crypt, gens as G, lib, proto as P
from semla.engine import Prop, Violation, generic_shrinks


def leak(plain, blob):
    """a run of 12 bytes of the plaintext in the encrypted file (None if there is none)"""
    for i in range(0, max(0, len(plain) - 11), 12 if len(plain) < 20000 else 1200):
        if plain[i:i + 12] in blob:
            return i
    return None


class C15(Prop):
    id = "C15"
    rule = ("a case is a library tree, encrypted twice in an allowed order through one context or by encrypt_file runs, or in any order with repetitions, or with a random "
            "number generator that fails at a chosen call; non-trivial: a package.mo below another one, or a directory without package.mo below one with it, or a fault")
    quick_n, thorough_n = 1800, 16000
    assumptions = ["package.mo is encrypted before other files of its directory and of the directories below (the documented order)"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        x = rng.random()
        t = G.tree(rng, big=0.02)
        for d in t:
            d[3] = [f for f in d[3] if f[2]]
        how = "api" if x < 0.55 else "any" if x < 0.75 else "cli" if x < 0.85 else "rng"
        if how == "cli":
            t = t[:3]
        return dict(tree=t, how=how, seed=rng.randrange(1 << 30), fail=rng.randrange(0, 14))

    def corpus(self):
        many = [["", True, [1, 40, 1], [["m%d.mo" % i, [2, 16, i], True] for i in range(200)]]]
        many += [["s%d" % i, True, [2, 5, i], []] for i in range(100)]
        out = [dict(tree=many, how="api", seed=1, fail=0), dict(tree=many[:1] + many[-20:], how="cli", seed=1, fail=0)]
        for n in G.EDGE:
            out.append(dict(tree=[["", True, [2, n, 1], [["x.mo", [1, n, 2], True]]], ["s", False, [0, 0, 0], [["y.mo", [2, n, 3], True]]],
                                  ["s/t", True, [1, n, 1], [["y.mo", [1, n, 3], True]]]], how="api", seed=n, fail=0))
        t = [["", True, [1, 100, 1], [["x.mo", [1, 300, 2], True]]], ["s", True, [1, 10, 1], [["y.mo", [1, 20, 3], True]]]]
        out += [dict(tree=t, how="rng", seed=3, fail=k) for k in range(8)]
        t = t + [["s/u", True, [1, 5, 1], [["z.mo", [1, 33, 2], True]]], ["v", False, [1, 5, 1], [["z.mo", [1, 33, 2], True]]]]
        out += [dict(tree=t, how="any", seed=k, fail=0) for k in range(30)]
        return out

    def valid(self, case):
        return G.valid_tree(case["tree"]) and all(f[2] for d in case["tree"] for f in d[3])

    def shrinks(self, case):
        for s in generic_shrinks(case["tree"]):
            yield {**case, "tree": s}

    def run(self, case, env):
        d = env.newdir()
        try:
            if case["how"] == "rng":
                return self.rng(case, env, d)
            if case["how"] == "any":
                return self.anyorder(case, env, d)
            for i in "12":
                lib.build(self, env, case["tree"], case["how"], case["seed"], d + "/clear" + i, d + "/enc" + i)
            return self.look(case, d)
        finally:
            env.drop(d)

    def files(self, tree):
        order = sorted(tree, key=lambda x: x[0].count("/") + (x[0] != ""))
        for p, pkg, pc, fl in order:
            if pkg:
                yield p, "package.mo", G.data(pc), True
            for n, c, e in fl:
                yield p, n, G.data(c), False

    def decode(self, base, tree, done=None):
        own, out = {}, {}

        def mask(p):
            return own[p] if p in own else bytes(32) if p == "" else mask(p.rpartition("/")[0])
        for p, n, data, ispkg in self.files(tree):
            rel = G.join(p, n)
            if done is not None and rel not in done:
                continue
            blob = lib.get(os.path.join(base, rel + "c"))
            full = len(data) + (32 if ispkg else 0)
            if len(blob) != 16 + (full // 16 + 1) * 16 + 32:
                raise Violation("%r of %d bytes is encrypted in %d bytes" % (rel, len(data), len(blob)))
            m = (bytes(32) if p == "" else mask(p.rpartition("/")[0])) if ispkg else mask(p)
            plain = crypt.open_(crypt.xor(self.key, m), blob)
            if plain is None:
                raise Violation("%r does not follow the file format (key, cipher or authentication code)" % rel)
            if plain[:len(data)] != data or len(plain) != full:
                raise Violation("%r decrypts to other contents" % rel)
            if ispkg:
                own[p] = plain[len(data):]
            i = leak(data, blob)
            if i is not None:
                raise Violation("bytes %d.. of %r appear in the encrypted file" % (i, rel))
            out[rel] = blob
        return own, out

    def look(self, case, d):
        tree = case["tree"]
        m1, b1 = self.decode(d + "/enc1", tree)
        m2, b2 = self.decode(d + "/enc2", tree)
        masks = list(m1.values()) + list(m2.values())
        ivs = [b[:16] for b in list(b1.values()) + list(b2.values())]
        if len(set(masks)) != len(masks):
            raise Violation("two directories have the same mask")
        if len(set(ivs)) != len(ivs):
            raise Violation("two encrypted files have the same IV")
        pool = ivs + [m[:16] for m in masks] + [m[16:] for m in masks]
        if len(set(pool)) != len(pool) or bytes(16) in pool:
            raise Violation("IVs and masks are not independent")
        for rel in b1:
            x, y = b1[rel], b2[rel]
            for i in range(0, len(x), 16):
                if x[i:i + 16] == y[i:i + 16]:
                    raise Violation("encrypting %r twice gave the same bytes at %d" % (rel, i))
        if len(ivs) > 300:
            self.stat("IV", ivs)
        if len(masks) > 150:
            self.stat("mask", masks)
        ps = {x[0]: x[1] for x in tree}
        nt = any(p and any(ps.get(q) for q in self.up(p)) for p in ps)
        return nt, [case["how"]]

    def up(self, p):
        while p:
            p = p.rpartition("/")[0]
            yield p

    def stat(self, what, vs):
        al = b"".join(vs)
        e = len(al) / 256
        chi = sum((al.count(b) - e) ** 2 / e for b in range(256))
        if chi > 520:
            raise Violation("%s bytes are not uniform (chi-square %.0f for 255 degrees of freedom)" % (what, chi))
        for p in range(len(vs[0])):
            for b in range(8):
                ones = sum(v[p] >> b & 1 for v in vs)
                if abs(ones - len(vs) / 2) > 4 * len(vs) ** 0.5:
                    raise Violation("bit %d of byte %d of the %s is set %d times in %d" % (b, p, what, ones, len(vs)))

    def anyorder(self, case, env, d):
        """what is accepted can be read in the end; only a package.mo that comes too late is refused"""
        tree = case["tree"]
        h = env.proc("crypt", self.b + "/h_crypt")
        lib.mkdirs(d + "/clear", tree)
        lib.mkdirs(d + "/enc", tree)
        r = random.Random(case["seed"])
        fl = list(self.files(tree))
        todo = fl + [r.choice(fl) for _ in range(len(fl) // 3 if fl else 0)]
        r.shuffle(todo)
        done, used, refused = set(), set(), 0
        try:
            h.ask("ctx", 0, lib.fs(d + "/enc"))
            for p, n, data, ispkg in todo:
                rel = G.join(p, n)
                lib.put(os.path.join(d + "/clear", rel), data)
                out = os.path.join(d + "/enc", rel + "c")
                ok = h.ask("enc", 0, lib.fs(rel), lib.fs(os.path.join(d + "/clear", rel)), lib.fs(out + ".new")).ret == 1
                if ok:
                    os.rename(out + ".new", out)
                    done.add(rel)
                    used.add(p)
                    used.update(self.up(p))
                else:
                    refused += 1
                    if not ispkg or p not in used:
                        raise Violation("encrypting %r failed" % rel)
            h.ask("cfree", 0)
        except P.Died as e:
            env.dropproc("crypt")
            raise Violation("h_crypt: %s" % e)
        except Exception:
            env.dropproc("crypt")
            raise
        own, _ = self.decode(d + "/enc", tree, done)
        if len(set(own.values())) != len(own):
            raise Violation("two directories have the same mask")
        return refused > 0 and len(own) > 0, ["any"]

    def rng(self, case, env, d):
        """no randomness, no success"""
        tree = case["tree"]
        h = env.proc("crypt", self.b + "/h_crypt")
        lib.mkdirs(d + "/clear", tree)
        lib.mkdirs(d + "/enc", tree)
        left = case["fail"]
        try:
            h.ask("ctx", 0, lib.fs(d + "/enc"))
            h.ask("rand", 3, left)
            for p, n, data, ispkg in self.files(tree):
                rel = G.join(p, n)
                lib.put(os.path.join(d + "/clear", rel), data)
                r = h.ask("enc", 0, lib.fs(rel), lib.fs(os.path.join(d + "/clear", rel)), lib.fs(os.path.join(d + "/enc", rel + "c")))
                if int(r.f["failed"]):
                    if r.ret == 1:
                        raise Violation("encrypting %r succeeded although random bytes could not be had" % rel)
                    break
                if r.ret != 1:
                    raise Violation("encrypting %r failed" % rel)
            h.ask("rand", 0, 1)
        except P.Died as e:
            env.dropproc("crypt")
            raise Violation("h_crypt: %s" % e)
        except Exception:
            env.dropproc("crypt")
            raise
        return True, ["rng"]


PROP = C15()
