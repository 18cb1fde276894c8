"""Generators shared by the checks. All cases are JSON values."""
import random

EDGE = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 223, 224, 225, 239, 240, 241, 255, 256, 257, 271, 272,
        479, 480, 481, 496, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 4079, 4080, 4095, 4096, 4097, 8191, 8192, 8193,
        16383 - 15, 16384 - 15, 16385 - 15, 16370, 16371, 16372, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537]


def size(rng, big=0.03, huge=0.0):
    x = rng.random()
    if x < huge:
        return rng.randrange(1 << 20, 6 << 20)
    if x < huge + big:
        return rng.randrange(65536, 600000)
    x = rng.random()
    if x < 0.45:
        return rng.choice(EDGE)
    if x < 0.6:
        return 16 * rng.randrange(0, 80) + rng.choice([-1, 0, 0, 1]) if rng.random() < 0.9 else 0
    if x < 0.9:
        return rng.randrange(0, 400)
    return rng.randrange(0, 20000)


HEADS = [b"\xef\xbb\xbf", b"\xff\xfe", b"FILECONT 3\nabc", b"ERROR 1 3\nabc", b"NO 2\nxx", b"\x7fELF", b"PK\3\4", b"\x1f\x8b\x08", b"within ;\n", b"\r\n", b"\n", b" ",
         b"\0", b"#!/bin/sh\n", b"-----BEGIN PUBLIC KEY-----\n", b"encrypted", b"Salted__", b"\x16\x03\x01"]
TAILS = [b"\r\n", b"\n", b"\n\n", b"\r", b" ", b"\0", bytes(16), b"\x1a", b"\x10" * 16, b"\x01", b"\x02\x02", b"\x08" * 8, b"\x0f" * 15, b"\x11" * 17, b"\xef\xbb\xbf",
         b"EOF", b"\xff" * 32, b"-----END PUBLIC KEY-----\n"]


def content(rng, **k):
    """[kind, length, seed]"""
    return [rng.randrange(7), max(0, size(rng, **k)), rng.randrange(1 << 30)]


def data(spec):
    kind, n, seed = spec
    n = max(0, n)
    r = random.Random(seed)
    if kind == 0:
        return r.randbytes(n)
    if kind == 1:
        words = [b"within Lib;", b"model M", b"  Real x;", b"\r\n", b"\n", b"equation", b" der(x) = ", b"end M;", b"//", b"\xc3\xa5"]
        out = bytearray()
        while len(out) < n:
            out += r.choice(words)
        return bytes(out[:n])
    if kind == 2:
        return bytes(n)
    if kind == 3:
        p = r.randbytes(16)
        return (p * (n // 16 + 1))[:n]
    if kind == 4:
        return bytes(r.choices(b"\n\r\0\x1a\xff \x10\x01", k=n))
    if kind == 6:       # what looks like something else, at both ends
        a, z = r.choice(HEADS), r.choice(TAILS)
        return (a + r.randbytes(max(0, n - len(a) - len(z))) + z)[:n] if r.random() < 0.5 else (r.randbytes(max(0, n - len(z))) + z)[-n:] if n else b""
    p = r.randbytes(r.randrange(1, 40))
    return (p * (n // len(p) + 1))[:n]


DIRS = ["a", "b", "A", "Sub", "sub dir", "x.y", "package", "package.moc.d", "Resources", "d\u00e9p", "_", "a.moc", "ab", "-x", "a;b",
        "...", ".hid", "100%", "%s", "n" * 60]
FILES = ["x.mo", "y.mo", "X.mo", "Test.MO", "mypackage.mo", "packages.mo", "package2.mo", "a.b.mo", ".mo", "long" * 20 + ".mo",
         "\u00fcml.mo", "with space.mo", "%s%n.mo", "-f.mo", "ckage.mo", "z.mo", "pack.mo", "q.Mo", "xpackage.mo", "age.mo"]
PLAIN = ["readme.txt", "package.order", "data.mat", "noext", "x.moc.txt", "img.png", "a.mos", "x.mo.bak", "moc", ".hidden",
         "h\u00e9.csv", "package", "libraryinfo.mos", "x.m", "dot.", "x.mocc", "xmoc"]


def tree(rng, maxdirs=6, maxdepth=5, **k):
    """{"dirs": [[path, haspkg, pkgcontent, [[name, content, encrypted]...]]...]} ; dirs[0] is the root ''"""
    paths = [""]
    for _ in range(rng.randrange(0, maxdirs)):
        par = rng.choice(paths[-2:] if rng.random() < 0.5 else paths)
        if par.count("/") + 2 > maxdepth:
            continue
        p = (par + "/" if par else "") + rng.choice(DIRS)
        if p not in paths:
            paths.append(p)
    ppkg = rng.choice([0.0, 0.5, 0.8, 1.0])
    dirs = []
    for p in paths:
        fs, seen = [], {d.rsplit("/", 1)[-1] for d in paths if d and d.rpartition("/")[0] == p}
        for _ in range(rng.randrange(0, 4)):
            enc = rng.random() < 0.75
            n = rng.choice(FILES if enc else PLAIN)
            if n + ("c" if enc else "") in seen:
                continue
            seen.add(n + ("c" if enc else ""))
            fs.append([n, content(rng, **k), enc])
        dirs.append([p, rng.random() < (0.85 if p == "" and ppkg else ppkg), content(rng, **k), fs])
    return dirs


def valid_tree(dirs):
    paths = [d[0] for d in dirs]
    if not dirs or paths[0] != "" or len(set(paths)) != len(paths):
        return False
    for p in paths[1:]:
        if not p or p.rpartition("/")[0] not in paths:
            return False
        if p.startswith("/") or p.endswith("/") or any(c in ("", ".", "..") for c in p.split("/")) or "\\" in p:
            return False
    for p, pkg, pc, fs in dirs:
        names = [n + ("c" if e else "") for n, c, e in fs] + (["package.moc"] if pkg else [])
        names += [q.rsplit("/", 1)[-1] for q in paths if q and q.rpartition("/")[0] == p]
        if len(set(names)) != len(names) or any(n in ("", "c") for n in names):
            return False
        for n, c, e in fs:
            if not n or n in (".", "..") or "/" in n or n.lower() in ("package.mo", "package.moc") or n.startswith("/"):
                return False
            if not e and n.lower().endswith(".moc"):
                return False
            if e and not n.lower().endswith(".mo"):
                return False
    return True


def join(p, n):
    return p + "/" + n if p else n


def order(dirs, rng):
    """An encryption order respecting the rule: list of (reldir index, file index or -1 for package.mo)."""
    items = []
    for i, (p, pkg, pc, fs) in enumerate(dirs):
        if pkg:
            items.append((i, -1))
        items += [(i, j) for j, f in enumerate(fs) if f[2]]
    rng.shuffle(items)
    out, done = [], set()
    pk = {i for i, d in enumerate(dirs) if d[1]}

    def ready(i, j):
        p = dirs[i][0]
        for a in pk:
            q = dirs[a][0]
            if a in done:
                continue
            if a == i and j == -1:
                continue
            if q == "" or p == q or p.startswith(q + "/"):
                return False
        return True
    while items:
        for k, (i, j) in enumerate(items):
            if ready(i, j):
                out.append((i, j))
                if j == -1:
                    done.add(i)
                items.pop(k)
                break
        else:
            raise AssertionError("no order")
    return out
