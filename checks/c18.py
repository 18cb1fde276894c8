"""encrypt_file and decrypt_file: round trips through trees, and faults (write limit at every byte, damaged parents, bad arguments)."""
import os
import shutil

from semla import crypt, gens as G, lib, pkg, util
from semla.engine import Prop, Violation, generic_shrinks

NAMES = ["x.mo", "package.mo", "package.mo", "packages.mo", "q w.mo", "%s.mo", "\u00e5.mo", ".mo", "a.b.mo", "mypackage.mo"]
ENC = ["package.mo", "package.mox", "PACKAGE.MO", "package.mo1", "package.mocc", "package", "x", "c", "package.moC", "Package.moc", "x.bin", "apackage.mo", "package.m", "x.c"]
ARGS = ["none", "clear", "noout", "extra", "emptyname", "longname", "edgename"]


def snap(top):
    out = {}
    for d, sub, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = os.readlink(p)
                continue
            out[os.path.relpath(p, top)] = lib.get(p)
        for s in sub:
            out[os.path.relpath(os.path.join(d, s), top) + "/"] = None
    return out


class C18(Prop):
    id = "C18"
    level = "fault_enumeration"
    rule = ("a case is an encrypted library, one file encrypted into it and decrypted again by the two programs, and possibly a fault; non-trivial: the "
            "file lies in a directory that inherits or has a mask, or there is a fault")
    quick_n, thorough_n = 2200, 25000
    assumptions = ["a directory's package.mo is encrypted once, before its other files",
                   "a full disk is simulated by a file size limit (RLIMIT_FSIZE)"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        t = G.tree(rng, maxdirs=4, maxdepth=4, big=0.0)
        for d in t:
            d[2][1] = min(d[2][1], 600)
            d[3] = []
        i = rng.randrange(len(t))
        c = G.content(rng, big=0.04)
        name = rng.choice(NAMES)
        if name == "package.mo" and t[i][1]:
            if any(d[0].startswith(t[i][0] + "/" if t[i][0] else "") and d[1] and d is not t[i] for d in t):
                name = "y.mo"       # package.mo comes before those below
            else:
                t[i][1] = False
        form = 2 if rng.random() < 0.15 else 3
        if form == 2:
            t, i = [["", False, [0, 0, 0], []]], 0
        full = 16 + ((c[1] + (32 if name == "package.mo" else 0)) // 16 + 1) * 16 + 32
        x = rng.random()
        if x < 0.45:
            fault = ["", 0, 0]
        elif x < 0.65:
            fault = ["wenc", rng.choice([rng.randrange(full), max(0, full - rng.randrange(1, 70)), rng.randrange(0, 50), full, full + 1]), 0]
        elif x < 0.8:
            fault = ["wdec", rng.choice([rng.randrange(c[1] + 1), max(0, c[1] - 1), c[1], 0]), 0]
        elif x < 0.88:
            fault = ["parent", rng.randrange(1 << 20), rng.randrange(6)]
        elif x < 0.92:
            fault = ["damage", rng.randrange(1 << 20), rng.randrange(4)]
        else:
            fault = [rng.choice(["noin", "nodir", "nodecdir", "nodecin", "isdir", "decout-is-dir", "encargs", "encargs", "decargs", "same", "samedec"]), rng.randrange(700), 0]
        enc = ""
        if name not in ("package.mo", "packages.mo") and rng.random() < 0.15:
            enc = rng.choice(ENC)
            if enc.lower() == "package.moc":
                t, i = [x for x in t if x[0] == t[i][0] or not x[0].startswith(t[i][0] + "/" if t[i][0] else "")], [x[0] for x in t if x[0] == t[i][0] or not x[0].startswith(t[i][0] + "/" if t[i][0] else "")].index(t[i][0])
                t[i][1], t[i][2] = False, [0, 0, 0]
        return dict(tree=t, dir=i, name=name, content=c, form=form, fault=fault, enc=enc)

    def corpus(self):
        root = [["", True, [1, 30, 1], []], ["s", False, [0, 0, 0], []], ["s/t", True, [1, 8, 2], []]]
        out = []

        def add(**k):
            d = dict(tree=root, dir=1, name="x.mo", content=[1, 20, 3], form=3, fault=["", 0, 0], enc="")
            d.update(k)
            out.append(d)
        for n in range(0, 16 + 32 + 32 + 1):
            add(fault=["wenc", n, 0])
        for n in range(0, 16 + 64 + 32 + 1):
            add(tree=[["", True, [1, 30, 1], []], ["s", False, [0, 0, 0], []]], name="package.mo", fault=["wenc", n, 0])
        for e in ENC:
            if e.lower() != "package.moc":
                add(enc=e, dir=2)
            add(enc=e)
            add(enc=e, form=2, tree=[["", False, [0, 0, 0], []]], dir=0)
        for n in range(12):
            add(fault=["parent", n, 4 + n % 2], dir=n % 3)
        for n in range(0, 21):
            add(fault=["wdec", n, 0])
        for k in ("noin", "nodir", "nodecdir", "nodecin", "isdir", "decout-is-dir"):
            add(fault=[k, 0, 0])
        for i in range(4):
            add(fault=["same", i, 0])
            add(fault=["same", i, 0], form=2, tree=[["", False, [0, 0, 0], []]], dir=0)
            add(fault=["samedec", i, 0])
            add(fault=["samedec", i, 0], content=[0, 0, 0])
        for i in range(8):
            add(fault=["encargs", i, 0])
            add(fault=["decargs", i, 0])
            add(fault=["encargs", i, 0], form=2, tree=[["", False, [0, 0, 0], []]], dir=0)
        for i in range(40):
            add(fault=["encargs", 6 + 7 * i, 0])
            add(fault=["encargs", 6 + 7 * i, 0], form=2, tree=[["", False, [0, 0, 0], []]], dir=0)
        for n in (4000, 4096, 4097, 8192, 12000):
            for d in (-4097, -4096, -1, 0, 4096):
                add(content=[0, n, 1], fault=["wenc", max(0, 64 + n // 16 * 16 + d), 0])
                add(content=[0, n, 1], fault=["wdec", max(0, n + min(d, 0)), 0])
        for n in (10 << 20) - 100, (10 << 20) + 5000, 9 << 20:
            add(content=[3, n, 1])
        for n in (3, 30, 60, 125, 127, 128, 250):           # paths of up to 3,750 bytes
            for w in (1, 14):
                parts = [("p%d" % k).ljust(w, "x") for k in range(n)]
                deep = [["/".join(parts[:k]), k in (0, n // 2, n), [1, 10 if k in (0, n // 2, n) else 0, k], []] for k in range(n + 1)]
                add(tree=deep, dir=n)
                add(tree=deep[:-1] + [[deep[-1][0], False, [0, 0, 0], []]], dir=n, name="package.mo")
        for n in G.EDGE:
            add(content=[0, n, n], dir=2)
        return out

    def valid(self, case):
        t, i = case["tree"], case["dir"]
        if not G.valid_tree(t) or not 0 <= i < len(t) or case["content"][1] < 0 or not case["name"].endswith(".mo"):
            return False
        if case["name"] == "package.mo":
            p = t[i][0]
            if any(d[1] and (d[0] == p or d[0].startswith(p + "/" if p else "")) for d in t):
                return False
        if case["enc"].lower() == "package.moc" and (case["name"] == "package.mo" or t[i][1] or any(d[1] and d[0].startswith(t[i][0] + "/" if t[i][0] else "") for d in t)):
            return False
        if "/" in case["enc"] or case["enc"] in (".", "..") or case["enc"] == "package.moc" or case["enc"] and case["name"] == "package.mo":
            return False
        return case["form"] == 3 or (len(t) == 1 and not t[0][1])

    def shrinks(self, case):
        for k in ("tree", "content", "name"):
            for s in generic_shrinks(case[k]):
                yield {**case, k: s}
        if case["fault"][1]:
            yield {**case, "fault": [case["fault"][0], case["fault"][1] // 2, case["fault"][2]]}

    def run(self, case, env):
        d = env.newdir()
        try:
            return self.case(case, env, d)
        finally:
            env.drop(d)

    def case(self, case, env, d):
        t, i, name = case["tree"], case["dir"], case["name"]
        kind, arg, arg2 = case["fault"]
        base, clear = d + "/enc", d + "/clear.mo"
        lib.build(self, env, t, "model", 7, d + "/c", base)
        own, of = lib.model_masks(t, 7)
        p, data = t[i][0], G.data(case["content"])
        lib.put(clear, data)
        encname = case["enc"] or name + "c"
        ispkg = encname.lower() == "package.moc"
        mask = (bytes(32) if p == "" else of(p.rpartition("/")[0])) if ispkg else of(p)
        rel = G.join(p, encname)
        out = os.path.join(base, rel)
        full = 16 + ((len(data) + (32 if ispkg else 0)) // 16 + 1) * 16 + 32
        tags = [kind or "none", "form%d" % case["form"]]
        nt = bool(kind) or bool(mask != bytes(32))
        enc, src, damaged = self.b + "/encrypt_file", clear, None
        before = snap(base)
        cmd = [enc, src, rel, base] if case["form"] == 3 else [enc, src, out]
        if kind == "noin":
            cmd[1] = d + "/nothing.mo"
        elif kind == "isdir":
            cmd[1] = d
        elif kind == "nodir":
            if case["form"] == 3:
                cmd[2] = "no/such/dir/x.moc"
            else:
                cmd[2] = base + "/no/x.moc"
        elif kind == "encargs":
            a = ARGS[arg % len(ARGS)]
            cmd = {"none": [enc], "edgename": [enc, clear] + edge(base if case["form"] == 3 else None, arg // len(ARGS)), "clear": [enc, clear], "noout": [enc, clear], "extra": [enc, clear, rel, base, "more"],
                   "emptyname": [enc, clear, ""] + ([base] if case["form"] == 3 else []),
                   "longname": [enc, clear, "d/" * (2100 + arg % 8 * 50) + "x.moc"] + ([base] if case["form"] == 3 else [])}[a]
        elif kind == "same":
            lib.put(out, data)
            cmd[1] = alias(d, out, arg)
            before = snap(base)
        elif kind == "parent":
            damaged = self.damage(base, p, t, ispkg, arg, arg2)
            if damaged is None:
                kind = ""
            before = snap(base)
        who = None
        if kind == "parent" and arg2 == 5:          # as a user who may not read it
            who = pkg.uid()
            shutil.copy(enc, d + "/encrypt_file")
            cmd[0] = d + "/encrypt_file"
            pkg.give(d)
        r = util.run(cmd, "encrypt_file", cwd=d, fsize=arg if kind == "wenc" else None, uid=who)
        if lib.get(clear) != data:
            raise Violation("encrypt_file changed its input")
        after = snap(base)
        must_fail = kind in ("noin", "isdir", "nodir", "encargs", "parent", "same") or (kind == "wenc" and arg < full)
        if must_fail:
            if r.rc == 0:
                raise Violation("encrypt_file: exit status 0 although %s" % self.why(kind, arg, full))
            if after != before:
                raise Violation("encrypt_file failed (%s) and left %s" % (self.why(kind, arg, full), self.diff(before, after)))
            if kind == "parent" and arg2 < 4:      # the same, reading
                blob = crypt.seal(crypt.xor(self.key, mask), bytes(range(16)), data + (bytes(32) if ispkg else b""))
                lib.put(out, blob)
                r = util.run([self.b + "/decrypt_file", base, rel, d + "/back"], "decrypt_file")
                if r.rc == 0 or os.path.exists(d + "/back"):
                    raise Violation("decrypt_file: status %d below a damaged package.moc, output file %s" % (r.rc, os.path.exists(d + "/back")))
            return nt, tags
        if r.rc:
            raise Violation("encrypt_file: exit status %d for %r (%d bytes): %s" % (r.rc, rel, len(data), r.text[-300:]))
        blob = after.pop(rel, None)
        if after != before:
            raise Violation("encrypt_file changed other files: %s" % self.diff(before, after))
        if blob is None:
            raise Violation("encrypt_file succeeded and there is no %r" % rel)
        plain = crypt.open_(crypt.xor(self.key, mask), blob)
        if plain is None or len(blob) != full or plain[:len(data)] != data:
            raise Violation("%r does not decrypt to the file under the mask of its directory" % rel)
        return self.back(case, d, base, rel, out, data, len(blob), kind, arg, arg2) or (nt, tags)

    def back(self, case, d, base, rel, out, data, blen, kind, arg, arg2):
        back = d + "/back"
        cmd = [self.b + "/decrypt_file", base, rel, back]
        must_fail = False
        if kind == "nodecin":
            cmd[2], must_fail = "nothing.moc", True
        elif kind == "nodecdir":
            cmd[3], must_fail = d + "/no/such", True
        elif kind == "decout-is-dir":
            os.mkdir(back)
            must_fail = True
        elif kind == "decargs":
            cmd, must_fail = cmd[:1 + arg % 3], True
        elif kind == "samedec":
            cmd[3], must_fail = alias(d, out, arg), True
        elif kind == "wdec":
            must_fail = arg < len(data)
        elif kind == "damage":
            b = lib.get(out)
            b = alter(b, arg, arg2)
            lib.put(out, b)
            must_fail = True
        elif blen > 10 << 20:
            must_fail = None          # larger than the program's buffer: either, but all or nothing
        src = lib.get(out)
        others = snap(base)
        r = util.run(cmd, "decrypt_file", cwd=d, fsize=arg if kind == "wdec" else None)
        if not os.path.exists(out) or lib.get(out) != src:
            raise Violation("decrypt_file changed its input")
        if snap(base) != others:
            raise Violation("decrypt_file changed the library: %s" % self.diff(others, snap(base)))
        isfile = os.path.isfile(back)
        if must_fail or (must_fail is None and r.rc):
            if r.rc == 0:
                raise Violation("decrypt_file: exit status 0 although %s" % self.why(kind, arg, len(data)))
            if isfile:
                raise Violation("decrypt_file failed (%s) and left an output file of %d bytes" % (self.why(kind, arg, len(data)), os.path.getsize(back)))
            if kind == "decout-is-dir" and not os.path.isdir(back):
                pass
            return
        if r.rc:
            raise Violation("decrypt_file: exit status %d for %r (%d bytes): %s" % (r.rc, rel, len(data), r.text[-300:]))
        if not isfile or lib.get(back) != data:
            raise Violation("decrypt_file did not give back the %d bytes of %r" % (len(data), rel))

    def damage(self, base, p, t, ispkg, arg, how):
        """alters one package.moc whose mask is needed for files of directory p"""
        q, c = (p.rpartition("/")[0] if p else None) if ispkg else p, []
        while q is not None:
            if any(x[0] == q and x[1] for x in t):
                c.append(q)
            q = q.rpartition("/")[0] if q else None
        if not c:
            return None
        f = os.path.join(base, G.join(c[arg % len(c)], "package.moc"))
        if how == 4:
            os.remove(f)
            os.symlink("package.moc", f)
        elif how == 5:
            os.chmod(f, 0)
        else:
            lib.put(f, alter(lib.get(f), arg // len(c), how))
        return f

    def why(self, kind, arg, full):
        return {"wenc": "only %d of %d bytes could be written" % (arg, full), "wdec": "only %d of %d bytes could be written" % (arg, full),
                "noin": "the input does not exist", "isdir": "the input is a directory", "nodir": "the output directory does not exist",
                "encargs": "the arguments are wrong", "decargs": "the arguments are wrong", "parent": "a parent's package.moc is damaged",
                "nodecin": "the input does not exist", "nodecdir": "the output directory does not exist", "decout-is-dir": "the output is a directory",
                "same": "the input is the output", "samedec": "the input is the output", "damage": "the encrypted file is damaged"}.get(kind, "it is too large")

    def diff(self, a, b):
        return ", ".join("%r (%s)" % (k, "gone" if k not in b else "%d bytes" % len(b[k] or b"")) for k in sorted(set(a) | set(b))
                         if a.get(k, -1) != b.get(k, -1))[:300]


def edge(base, arg):
    """arguments whose lengths together are about that of the program's buffers, naming no existing directory"""
    n = [4096, 1024, 2048, 4096][arg // 10 % 4] - 6 + arg % 10
    if base is None:
        return [("d/" * n)[:n - 5].rstrip("/") + "/x.mo"]
    k = n // 2
    return [("d/" * n)[:n - k - 5].rstrip("/") + "/x.mo", base + ("/e" * n)[:k - len(base)]]


def alias(d, path, arg):
    """another name of the same file"""
    k = arg % 4
    if k == 0:
        return path
    if k == 1:
        h, t = os.path.split(path)
        return h + "/./" + t
    os.mkdir(d + "/alias")
    p = d + "/alias/a.mo"
    (os.symlink if k == 2 else os.link)(path, p)
    return p


def alter(b, arg, how):
    b = bytearray(b)
    if how == 0 or not b:
        b[arg % len(b)] ^= 1 << (arg // 7 % 8)
    elif how == 1:
        b = b[:arg % len(b)]
    elif how == 2:
        b += bytes(1 + arg % 40)
    else:
        b = bytearray()
    return bytes(b)


PROP = C18()
