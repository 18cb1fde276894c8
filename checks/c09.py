import os

from semla import crypt, gens as G, lib, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg

INSIDE = ["x.txt", "sub/y.txt", "sub/deep/z.txt", "a..b.txt", "..hidden", "...", "x.", "sub/....", ".dot", "sub/..a", "sub/a..", "sub/.b/c.txt", "t..", "-",
          "sub dir/q.txt", "..a/r.txt", "n...n/s.txt", "secret.txt.in", "lib", "etc/passwd"]
ENCIN = ["m.mo", "sub/n.mo", "..a/k.mo", "sub/..z.mo"]
# relative to the parent of the library directory "lib"
OUTSIDE = ["secret.txt", "lib2/x.txt", "lib.txt", "libx.txt", "lib2/sub/y.txt", "aa/secret.txt", "lib..txt", "...lib", "..", "top.txt"]
ENCOUT = ["s.mo", "lib2/m.mo"]
ELEMS = ["..", ".", "...", "sub", "deep", "x.txt", "y.txt", "secret.txt", "lib", "lib2", "lib.txt", "", "m.moc", "n.moc", "s.moc", "..a", "a..", "....",
         " ..", ".. ", "..;", "%2e%2e", "..%2f", "aa", "top.txt", "..\n", "\xc0\xae\xc0\xae", "etc", "passwd", "..\\", ".\\..", "..\\..\\secret.txt", "~"]

DEPTH = 640                 # a chain of directories "d" in the library, deep enough for paths of some 3,900 bytes


def long_way(rng):
    """A path that leaves the library only after many elements or bytes, and the same one staying inside."""
    n = rng.choice([1, 5, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 513, 600, DEPTH])
    pad = rng.choice([0, 0, 0, 1, 60, 100, 200, 250, 255, 500, 900, 1000, 1010, 1024, 2000, 2040, 3000, 4000])
    pad = max(0, min(pad, 4000 - 5 * n - 90))
    up = rng.choice([0, 1, 1, 1, n]) if n > 1 else 1
    tail = rng.choice(["secret.txt", "lib2/x.txt", "s.moc", "lib/x.txt"]) if up == 1 else "d/x.txt"
    at = rng.choice(["first", "last"])
    down = "d/" * n
    ups = "../" * (n + 1 if up == 1 else up)
    return (down + "/" * pad + ups if at == "last" else "d/" + "/" * pad + "d/" * (n - 1) + ups) + tail


PROCDIRS = ["task", "ns", "fdinfo", "attr", "fd", "task/", "net/stat", "root/", "cwd/."]    # directories, most of size 0


class C09(Prop):
    id = "C09"
    rule = ("a case is a list of FILE paths over a library with neighbours; non-trivial: at least one path contains a dot element, an empty element "
            "or a backslash, and at least one file of the library was served")
    quick_n, thorough_n = 2400, 24000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        ps = []
        for _ in range(rng.randrange(5, 60)):
            x = rng.random()
            if x < 0.2:
                p = rng.choice(INSIDE + [e + "c" for e in ENCIN])
            elif x < 0.55:
                n = rng.choice([1, 2, 3, 3, 4, 6, 12])
                p = rng.choice(["/", "/", "/", "\\", "//"]).join(rng.choice(ELEMS) for _ in range(n))
            elif x < 0.75:
                # a way out, and what lies there
                q = ["sub", "..a", "sub/deep", "", "x.txt", "nonexistent", ".", "sub/.", "./."]
                p = rng.choice(q)
                ups = p.count("/") + (1 if p else 0) + rng.choice([0, 1, 1, 1, 2])
                sep = rng.choice(["/", "/", "//", "/./", "\\"])
                p = (p + sep if p else "") + sep.join([".."] * ups) + sep + rng.choice(OUTSIDE[:7] + [e + "c" for e in ENCOUT] + ["lib/x.txt", "lib/m.moc"])
            elif x < 0.85:
                p = rng.choice(["@TOP/secret.txt", "/@TOP/secret.txt", "@LIB/x.txt", "@TOP/lib2/x.txt", "//@TOP/secret.txt", "../@TOP/secret.txt", "/etc/passwd",
                                "/etc/hostname", "../../../../../../../../etc/passwd", "file:@TOP/secret.txt", "\\etc\\passwd", "2/x.txt", "x.txt/../../secret.txt"])
            elif x < 0.88:
                p = long_way(rng)
            elif x < 0.94:
                p = rng.choice(INSIDE) + rng.choice(["/", "/.", "/..", "\0/../../secret.txt", "\0", " ", "\n", "/../../lib2/x.txt", "/../" + rng.choice(INSIDE)])
            else:
                p = rng.choice(["../" * rng.randrange(1, 60), "./" * rng.randrange(1, 1500), "sub/../" * rng.randrange(1, 40), "/" * rng.randrange(1, 60)]) \
                    + rng.choice(["secret.txt", "x.txt", "../secret.txt", "s.moc", "m.moc", "sub/n.moc"])
            ps.append(p)
        return dict(paths=ps, lib=rng.choice(["@LIB", "@LIB", "@LIB/", "@LIB//", "lib", "./lib", "lib/", "@LIB/sub/..", "."]))

    def corpus(self):
        return [dict(paths=INSIDE + [e + "c" for e in ENCIN] + [pre + "../" * k + o for pre in ("", "sub/", "sub/deep/", "..a/", "x.txt/", "./", "none/")
                                                               for k in range(0, 5) for o in OUTSIDE[:7] + [e + "c" for e in ENCOUT]], lib=l)
                for l in ("@LIB", "@LIB/", "lib", ".")] + [
            dict(paths=["x.txt"] + ["d/" * n + "/" * k + "../" * (n + 1) + "secret.txt" for n in (1, 32, 64, 65, 128, 256, 300, 512, DEPTH)
                                    for k in (0, 100, 256, 512, 700)], lib=l) for l in ("@LIB", "lib")] + [dict(paths=PROCDIRS, lib="/proc/self")]

    def valid(self, case):
        return case["lib"] == "/proc/self" and set(case["paths"]) <= set(PROCDIRS) or case["lib"] in ("@LIB", "@LIB/", "@LIB//", "lib", "./lib", "lib/", "@LIB/sub/..", ".")

    def shrinks(self, case):
        for s in generic_shrinks(case["paths"]):
            yield {**case, "paths": s}

    def world(self, env):
        w = getattr(env, "world", None)
        if w:
            return w
        top = env.newdir() + "/top"
        os.makedirs(top)
        inside, outside = {}, []

        def mk(base, rel, data):
            p = os.path.join(base, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.isdir(p):
                lib.put(p, data)
        L = top + "/lib"
        os.mkdir(L)
        for i, f in enumerate(INSIDE):
            d = b"INSIDE-%d-%s" % (i, f.encode())
            mk(L, f, d)
            inside[f] = d
        for f in ENCIN:
            d = b"ENC-INSIDE-" + f.encode()
            mk(L, f + "c", crypt.seal(self.key, os.urandom(16), d))
            inside[f + "c"] = d
        os.makedirs(L + "/" + "/".join(["d"] * DEPTH))
        mk(L, "d/d/x.txt", b"INSIDE-deep")
        inside["d/d/x.txt"] = b"INSIDE-deep"
        for f in OUTSIDE:
            if f not in ("..", "."):
                mk(top, f, b"OUTSIDE-" + f.encode())
        for f in ENCOUT:
            mk(top, f + "c", crypt.seal(self.key, os.urandom(16), b"OUTSIDE-" + f.encode()))
        lib.put(os.path.dirname(top) + "/top.txt", b"OUTSIDE-top")
        lib.put(os.path.dirname(top) + "/secret.txt", b"OUTSIDE-secret2")
        raw = set(inside.values()) | {lib.get(os.path.join(L, f + "c")) for f in ENCIN}
        env.world = (top, L, inside, raw)
        return env.world

    def run(self, case, env):
        top, L, inside, raw = self.world(env)
        sub = lambda s: s.replace("@TOP", top).replace("@LIB", L)
        odd = served = False
        with lib.LveSession(self.b + "/lve_linux64", cwd=L if case["lib"] == "." else top) as l:
            if l.to_license(sub(case["lib"])) != ("YES",):
                raise Violation("LIB refused")
            for p in case["paths"]:
                b = sub(p).encode("latin1")[:16000]
                r = l.ask(msg("FILE", b))
                if r[0] == "FILECONT":
                    if case["lib"] == "/proc/self":
                        raise Violation("FILE %r returned %d bytes for a directory" % (p, len(r[1])))
                    if r[1] not in raw:
                        raise Violation("FILE %r returned contents from outside the library: %r" % (p, r[1][:80]))
                elif r[0] != "ERROR":
                    raise Violation("FILE %r -> %r" % (p, r))
                if p in inside:
                    served = True
                    if r != ("FILECONT", inside[p]):
                        raise Violation("file of the library %r -> %r" % (p, r))
                elif r[0] == "FILECONT" and "\0" not in p:
                    norm = os.path.normpath("/lib/" + sub(p)) if "\\" not in p else None
                    if norm is not None and inside.get(norm[5:]) != r[1]:
                        raise Violation("FILE %r returned another file: %r" % (p, r[1][:60]))
                el = p.replace("\\", "/").split("/")
                if any(e in ("", ".", "..") for e in el) or "\\" in p:
                    odd = True
            lib.session_end(l)
        return odd and served, [case["lib"]]


PROP = C09()
