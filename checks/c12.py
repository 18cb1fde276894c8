"""Archives made by packagetool, compared with the library they were made from."""
import os
import resource
import shutil
import stat
import xml.dom.minidom
import zipfile

from semla import crypt, gens as G, lib, pkg, proto as P
from semla.engine import Prop, Violation, generic_shrinks
from semla.proto import msg

NAMES = ["x.mo", "y.mo", "X.MO", "Z.Mo", ".mo", "a.b.mo", "sp ace.mo", "\u00fcml.mo", "mypackage.mo", "packages.mo", "package.order", "readme.txt", "noext", ".hidden",
         "data.mat", "x.mo.bak", "moc", "x.mos", "x.m", "%s%n.txt", "-opt.mo", "&<>\".txt", "a'b.mo", "icon.png", "package", "n" * 100 + ".mo", "library", ".librar", ".library2",
         "manifest.xml", "lve_linux64", "q.mo ", "old.moc", "w.moC", "dot.", "tilde~", "#x.mo", "xmo", "mo", "x.mo.mo", "long" * 50]
LONG = ["n" * 252 + ".mo", "n" * 251 + ".mo", "n" * 251 + ".txt"]       # one character more does not fit a directory
DIRS = ["a", "b", "Sub", "sub dir", "x.y", "x.mo.d", "dir.mo", "package", "Resources", "d\u00e9p", "...", ".hid", "100%", "library", "n" * 60, "-d", "lib", "a.moc.d"]
LIBNAMES = ["Lib", "My Lib", "Lib 1.2", "L", "lib-x_y", "L\u00ef", "a.b", "x.mo", "%s", "-v", "Lib'q", "tmp", "n" * 150, "TemporaryFolder"]
MODES = [0o644, 0o644, 0o644, 0o444, 0o600, 0o755, 0o400, 0o777]


def tree(rng):
    """[[path, [[name, content, mode, kind]...], mode]...]; kind '' regular, 's' regular written with holes, 'l...' symlink, 'p' fifo, 'k' socket"""
    paths = [""]
    for _ in range(rng.randrange(0, 7)):
        par = rng.choice(paths[-2:] if rng.random() < 0.5 else paths)
        if par.count("/") > 6:
            continue
        p = G.join(par, rng.choice(DIRS) if rng.random() > 0.005 else rng.choice(["package.mo", "Package.mo", "PACKAGE.MO"]))
        if p not in paths:
            paths.append(p)
    if rng.random() < 0.03:
        p = paths[-1]
        for _ in range(rng.randrange(2, 25)):
            p = G.join(p, "n" * rng.choice([10, 50, 80]))
            if p not in paths:
                paths.append(p)
    ppkg = rng.choice([0.0, 0.5, 1.0])
    out = []
    for p in paths:
        subs = {q.rsplit("/", 1)[-1] for q in paths if q and q.rpartition("/")[0] == p}
        fl = []
        if rng.random() < ppkg:
            fl.append(["package.mo", G.content(rng, big=0.02), rng.choice(MODES), ""])
        for _ in range(rng.randrange(0, 5)):
            n = rng.choice(NAMES) if rng.random() > 0.015 else rng.choice(LONG) if rng.random() < 0.7 else rng.choice(["Package.mo", "PACKAGE.MO", "package.Mo"])
            kind = rng.choice(["l/etc/passwd", "lx.mo", "lnone", "l.."]) if rng.random() < 0.06 else ""
            c = G.content(rng, big=0.02)
            if not kind and rng.random() < 0.01:
                kind = rng.choice("pk")
            elif not kind and rng.random() < 0.04:
                kind, c = "s", [rng.choice([2, 3, 4]), rng.choice([rng.randrange(5 << 20), 1 << 20, rng.choice(G.EDGE)]), c[2]]
            fl.append([n, c, rng.choice(MODES), kind])
        if rng.random() < 0.07:
            fl.append([".library", [1, 20, 1], 0o644, rng.choice(["", "d"])])
        seen, keep = set(subs), []
        for f in fl:
            c = f[0] + ("c" if f[0].lower().endswith(".mo") else "")
            if f[0] in seen or c in seen:
                continue
            seen |= {f[0], c}
            keep.append(f)
        out.append([p, keep, rng.choice([0o755, 0o755, 0o700, 0o555, 0o775])])
    return out


def holes(path, data):
    """The data, written with holes for pages of zeros."""
    with open(os.fsencode(path), "wb") as f:
        f.truncate(len(data))
        for i in range(0, len(data), 4096):
            b = data[i:i + 4096]
            if b.strip(b"\0"):
                f.seek(i)
                f.write(b)


def is_mo(n):
    return n.lower().endswith(".mo")


class C12(Prop):
    id = "C12"
    rule = ("a case is a library tree (names, contents, permissions, links), a library name, the encrypt option, the LVEs and extra files next to the tool, "
            "and possibly an unreadable file or directory, a full disk or an unusable name; non-trivial: at least two files in two directories, or a fault")
    quick_n, thorough_n = 1500, 15000
    assumptions = ["Linux; packagetool linked with a stand-in for the zip library that stores entries", "no library file has the name an encrypted one gets",
                   "names that equal package.mo only without regard to case are reported as a known finding", "no backslashes in names"]

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        t = tree(rng)
        enc = rng.choice([None, "true", "true", "true", "TRUE", "True", "false", "yes", "1"])
        lves = {n: G.content(rng, big=0.05) for n in rng.sample(pkg.LVES, rng.choice([1, 1, 2, 3, 5]))} if rng.random() < 0.9 else {}
        other = {"lve_other": [0, 10, 1]} if rng.random() < 0.1 else {}
        extra = None
        if rng.random() < 0.4:
            extra = {n: G.content(rng, big=0.01) for n in rng.sample(["vendor.dat", "sub/x.txt", "sub/deep/y", "extra one", "e.moc", "licence.txt"], rng.randrange(0, 4))}
        fault = None
        fs = [G.join(p, f[0]) for p, fl, _ in t for f in fl if f[3] in ("", "s") and f[0] != ".library" and not self.hidden(p)]
        ds = [p for p, _, _ in t if not self.hidden(p)]
        if rng.random() < 0.1:
            big = sorted(f[1][1] for _, fl, _ in t for f in fl) + [0, 700]
            n = max(0, rng.choice(big) + rng.choice([0, 0, -1, 1, 16, 48, 64, 79, 80, 81, -100, 3000]))
            fault = rng.choice(["w:%d", "w:%d", "z:%d"]) % n
        elif rng.random() < 0.02:
            fault = rng.choice(["notmp", "maniro", "manidir", "icon", "tools"])
        elif rng.random() < 0.05:
            fault = rng.choice(["dtype", "dtype", "src:%d" % rng.randrange(30), "tmp:%d" % rng.randrange(30)])
        elif rng.random() < 0.15:
            fault = rng.choice(["f:" + f for f in fs] + ["d:" + d for d in ds] + (["lve"] if lves else []) + (["extra"] if extra else []))
        if fault and fault[:4] == "tmp:" and self.confusing(t):
            fault = None
        return dict(tree=t, name=rng.choice(LIBNAMES) if rng.random() < 0.5 else "Lib", enc=enc, lves=lves, other=other, extra=extra, fault=fault,
                    rel=rng.choice(["abs", "abs", "abs/", "rel", "./rel", "abs//", "../"]), old=rng.random() < 0.3, umask=rng.choice([0o22, 0o22, 0o77, 0o2, 0]),
                    lmode=rng.choice([0o755, 0o755, 0o775, 0o555, 0o744, 0o500]), xmode=rng.choice([0o644, 0o644, 0o755, 0o600, 0o444, 0o775]))

    def confusing(self, tree):
        """something is called like package.mo and is not one"""
        return any(x.lower() == "package.mo" for p, _, _ in tree for x in p.split("/")) or any(f[0].lower() == "package.mo" != f[0] for _, fl, _ in tree for f in fl)

    def hidden(self, p):
        return ".library" in p.split("/")

    def corpus(self):
        T = [["", [["package.mo", [1, 300, 1], 0o644, ""], ["x.mo", [1, 100, 2], 0o644, ""], ["icon.png", [0, 50, 3], 0o644, ""]], 0o755],
             ["sub", [["package.mo", [1, 10, 4], 0o644, ""], ["y.mo", [1, 0, 5], 0o644, ""]], 0o755], ["empty", [], 0o755], ["Resources", [["d.mat", [0, 5000, 6], 0o644, ""]], 0o755]]
        base = dict(tree=T, name="Lib", enc="true", lves={"lve_linux64": [0, 999, 7]}, other={}, extra={"vendor.dat": [0, 20, 8]}, fault=None, rel="abs", old=False, umask=0o22)
        out = [base, {**base, "enc": None}, {**base, "old": True}]
        for f in ("f:package.mo", "f:x.mo", "f:icon.png", "f:sub/package.mo", "f:sub/y.mo", "f:Resources/d.mat", "d:sub", "d:Resources", "d:empty", "lve", "extra"):
            out += [{**base, "fault": f}, {**base, "fault": f, "enc": None, "old": True}]
        for f in ("notmp", "maniro", "manidir", "icon", "tools", "w:0", "w:4", "w:5", "w:99", "w:300", "w:347", "w:363", "w:500", "w:1000", "w:4999", "w:5000", "z:0", "z:200", "z:1000", "z:5000", "z:20000"):
            out += [{**base, "fault": f}, {**base, "fault": f, "enc": None, "old": True}]
        for f in ["dtype"] + ["%s:%d" % (p, k) for p in ("src", "tmp") for k in range(0, 24, 2)]:
            out += [{**base, "fault": f}, {**base, "fault": f, "enc": None, "extra": None}]
        odd = [["", [["package.mo", [1, 300, 1], 0o644, ""], ["fifo.mo", [0, 0, 0], 0o644, "p"], ["sock", [0, 0, 0], 0o644, "k"], ["x.mo", [1, 100, 2], 0o644, ""], ["l.mo", [0, 0, 0], 0o644, "lx.mo"]], 0o755]]
        for f in (None, "dtype"):
            out += [{**base, "tree": odd, "fault": f}, {**base, "tree": odd, "enc": None, "fault": f}]
        for n in LONG:
            for p in range(3):
                t = [[d[0], d[1] + ([[n, [1, 30, p], 0o644, ""]] if i == p else []), d[2]] for i, d in enumerate(T)]
                out += [{**base, "tree": t}, {**base, "tree": t, "enc": None}]
        for n in G.EDGE:
            out.append({**base, "tree": [["", [["package.mo", [0, n, n], 0o644, ""], ["x.mo", [0, n, n + 1], 0o644, ""], ["p.txt", [0, n, n + 2], 0o644, ""]], 0o755]], "enc": "true" if n % 2 else None})
        for n in (1, 4096, 70000, 1 << 20, (1 << 20) + 1, 3 << 20):
            out.append({**base, "tree": [["", [["package.mo", [1, 20, n], 0o644, ""], ["x.mo", [2, n, n + 1], 0o644, "s"], ["p.bin", [2, n + 5000, n + 2], 0o644, "s"],
                                               ["q.bin", [0, n + 9000, n + 2], 0o644, ""]], 0o755]], "enc": "true" if n % 2 else None})
        out.append({**base, "tree": [["", [["Package.mo", [1, 300, 1], 0o644, ""], ["x.mo", [1, 100, 2], 0o644, ""]], 0o755]]})
        for n in ("package.mo", "Package.mo", "PACKAGE.MO"):
            out.append({**base, "tree": T + [["sub/" + n, [["x.mo", [1, 100, 2], 0o644, ""]], 0o755]] if n != "package.mo" else T + [["e", [], 0o755], ["e/" + n, [["x.mo", [1, 9, 9], 0o644, ""]], 0o755]]})
            out.append({**base, "tree": T + [["e", [["x.mo", [1, 100, 2], 0o644, ""], [n, [1, 30, 3], 0o644, ""]], 0o755]]})
        many = [["", [["package.mo", [1, 20, 1], 0o644, ""]] + [["f%d.%s" % (i, "mo" if i % 3 else "txt"), [0, i, i], 0o644, ""] for i in range(300)], 0o755]]
        many2 = [["", [["package.mo", [1, 20, 1], 0o644, ""]], 0o755]] + [["d%d" % i, [["package.mo", [1, i, 1], 0o644, ""], ["x.mo", [0, i, i], 0o644, ""]], 0o755] for i in range(150)]
        for t in (many, many2):
            out += [{**base, "tree": t}, {**base, "tree": t, "enc": None}]
        if self.tier == "thorough":     # longer than an int
            out += [dict(giant=(1 << 31) + 4321, enc="false"), dict(giant=(1 << 31) - 5, enc="true")]
        return out

    def giant(self, case, d, t):
        size = case["giant"]
        os.makedirs(d + "/src/Lib")
        os.mkdir(d + "/cwd")
        lib.put(d + "/src/Lib/package.mo", b"package Lib end Lib;")
        with open(d + "/src/Lib/g.bin", "wb") as f:
            f.truncate(size)
            for o in (0, 1 << 30, size - 1):
                f.seek(o)
                f.write(b"x")
        t.set({"lve_linux64": b"lve"})
        pkg.give(d)
        e = dict(ASAN_OPTIONS=P.child_env()["ASAN_OPTIONS"] + ":max_allocation_size_mb=20000")
        r = t.run(["-librarypath", d + "/src/Lib", "-version", "1.0", "-language", "3.2", "-encrypt", case["enc"]], d + "/cwd", env=e, timeout=200)
        if r.rc:
            raise Violation("a library with a file of %d bytes: exit status %d: %s" % (size, r.rc, (r.out + r.err)[-300:].decode("latin1")))
        with zipfile.ZipFile(d + "/cwd/Lib.mol") as z, z.open("Lib/g.bin") as f, open(d + "/src/Lib/g.bin", "rb") as g:
            while True:
                a, b = f.read(1 << 20), g.read(1 << 20)
                if a != b:
                    raise Violation("a file of %d bytes has other contents in the archive" % size)
                if not a:
                    break
        return True, ["giant"]

    def valid(self, case):
        if "giant" in case:
            return True
        paths = [d[0] for d in case["tree"]]
        if not paths or paths[0] != "" or len(set(paths)) != len(paths) or not case["name"] or "/" in case["name"] or case["name"] in (".", ".."):
            return False
        for p, fl, m in case["tree"]:
            if p and (p.rpartition("/")[0] not in paths or any(c in ("", ".", "..") for c in p.split("/")) or "\\" in p):
                return False
            names = [q.rsplit("/", 1)[-1] for q in paths if q and q.rpartition("/")[0] == p] + [f[0] for f in fl] + [f[0] + "c" for f in fl if is_mo(f[0])]
            if len(set(names)) != len(names) or any(n in ("", ".", "..", "c") or "/" in n or "\\" in n or "\0" in n for n in names) or m & 0o500 != 0o500:
                return False
            if any(f[2] not in MODES for f in fl):
                return False
        if not (case.get("lmode", 0o755) & case.get("xmode", 0o644) & 0o400) or case.get("lmode", 0) > 0o777 or case.get("xmode", 0) > 0o777:
            return False
        f = case["fault"] or ""
        if f[:2] == "f:" and not any(G.join(p, x[0]) == f[2:] and x[3] in ("", "s") for p, fl, _ in case["tree"] for x in fl):
            return False
        if f[:2] == "d:" and f[2:] not in paths:
            return False
        if f[:2] in ("w:", "z:") and not f[2:].isdigit() or f[:4] in ("src:", "tmp:") and not f[4:].isdigit():
            return False
        if f[:4] == "tmp:" and self.confusing(case["tree"]):
            return False
        return not (f == "lve" and not case["lves"]) and not (f == "extra" and not case["extra"])

    def shrinks(self, case):
        if "giant" in case:
            return
        for k in ("tree", "lves", "other", "extra"):
            if isinstance(case[k], dict):
                for n in case[k]:
                    yield {**case, k: {a: b for a, b in case[k].items() if a != n}}
            elif case[k]:
                for s in generic_shrinks(case[k]):
                    yield {**case, k: s}
        for k, v in (("fault", None), ("old", False), ("enc", None), ("name", "Lib"), ("rel", "abs"), ("umask", 0o22), ("extra", None)):
            if case[k] != v:
                yield {**case, k: v}

    def run(self, case, env):
        d = env.newdir()
        t = pkg.tool(self, env)
        try:
            return self.giant(case, d, t) if "giant" in case else self.one(case, env, d, t)
        finally:
            for r, ds, fs in os.walk(os.fsencode(d)):
                os.chmod(r, 0o755)
                for x in ds:
                    if not os.path.islink(os.path.join(r, x)):
                        os.chmod(os.path.join(r, x), 0o755)
            env.drop(d)
            pkg.sweep()

    def one(self, case, env, d, t):
        fault = case["fault"] or ""
        t.set({n: G.data(c) for n, c in {**case["lves"], **case["other"]}.items()} if case["lves"] or case["other"] else None,
              {n: G.data(c) for n, c in case["extra"].items()} if case["extra"] is not None else None,
              case.get("lmode", 0o755), case.get("xmode", 0o644))
        src, cwd = d + "/src/" + case["name"], d + "/cwd"
        os.makedirs(src)
        os.mkdir(cwd)
        self.perm = {}
        want, longest = {}, 0          # relative name -> (contents, is encrypted when encrypting)
        for p, fl, mode in case["tree"]:
            os.makedirs(os.path.join(src, p), exist_ok=True)
            for n, c, m, kind in fl:
                f = os.path.join(src, p, n)
                if kind[:1] == "l":
                    os.symlink(kind[1:], f)
                    continue
                if kind in ("p", "k"):
                    os.mknod(f, m | (stat.S_IFIFO if kind == "p" else stat.S_IFSOCK))
                    continue
                if kind == "d":
                    os.mkdir(f)
                    lib.put(f + "/in.txt", b"hidden")
                    continue
                (holes if kind == "s" else lib.put)(f, G.data(c))
                os.chmod(f, m)
                rel = G.join(p, n)
                if ".library" not in rel.split("/"):
                    want[rel] = G.data(c)
                    self.perm[lib.fs(rel)] = m
                    longest = max(longest, len(lib.fs(rel)) + len(lib.fs(case["name"])))
        pkg.give(d)
        for p, fl, mode in case["tree"]:
            os.chmod(os.path.join(src, p), mode)
        before = pkg.snapshot(src)
        old = b"old archive"
        ar = "%s/%s.mol" % (cwd, case["name"])
        if case["old"]:
            lib.put(ar, old)
            pkg.give(cwd)
        if fault[:2] in ("f:", "d:"):
            os.chmod(os.path.join(src, fault[2:]), 0)
        elif fault == "lve":
            os.chmod("%s/LVE/%s" % (t.dir, sorted(case["lves"])[0]), 0)
        elif fault == "extra":
            os.chmod("%s/.library/%s" % (t.dir, sorted(case["extra"])[0]), 0)
        elif fault in ("maniro", "manidir"):
            m = t.dir + "/.library/manifest.xml"
            os.makedirs(m if fault == "manidir" else t.dir + "/.library", exist_ok=True)
            if fault == "maniro":
                lib.put(m, b"old")
            pkg.give(t.dir)
            os.chmod(m, 0o555)
        path = {"abs": src, "abs/": src + "/", "abs//": src + "///", "rel": "../src/" + case["name"], "./rel": "./../src/" + case["name"] + "/", "../": "../src/../src/" + case["name"]}[case["rel"]]
        encrypting = (case["enc"] or "").lower() == "true"
        args = ["-librarypath", path, "-version", "1.0", "-language", "3.2"] + (["-encrypt", case["enc"]] if case["enc"] is not None else [])
        if fault in ("icon", "tools"):      # there, but not in the library; there, but not readable
            lib.put(d + "/no such name.xml", b"<x/>\n<tools/>\n")
            os.chmod(d + "/no such name.xml", 0o444 if fault == "icon" else 0)
            args += ["-" + fault, d + "/no such name.xml"]
        e, fsize = {}, None
        if fault in ("notmp", "dtype") or fault[:4] in ("src:", "tmp:"):
            shutil.copy(self.b + "/libmemstat.so", t.dir + "/libmemstat.so")
            pkg.give(t.dir)
            n = int(fault[4:]) if ":" in fault else 0
            if fault[:4] == "tmp:":      # while the staged files are read for the first time, not when they are removed
                n %= len(want) + 3 * sum(not self.hidden(p) for p, _, _ in case["tree"])
            v = ("V_NOTMP", "1") if fault == "notmp" else ("V_DTYPE", "1") if fault == "dtype" else ("V_RD" + fault[:3].upper(), str(n))
            e = dict([v], LD_PRELOAD=t.dir + "/libmemstat.so", ASAN_OPTIONS=P.child_env()["ASAN_OPTIONS"] + ":verify_asan_link_order=0")
        elif fault[:2] == "z:":
            e = dict(V_ZIP_MAX=fault[2:])
        elif fault[:2] == "w:":
            fsize = (int(fault[2:]), resource.RLIM_INFINITY)
        deep = max(p.count("/") for p, _, _ in case["tree"])
        r = t.run(args, cwd, umask=case["umask"], env=e, fsize=fsize, nofile=128 if len(want) > 200 and deep < 5 else None)     # files are closed again
        if fault[:2] in ("f:", "d:"):
            k = fault[2:]
            os.chmod(os.path.join(src, k), before[os.fsencode(k)][1] if k else 0o755)
            if k == "":
                os.chmod(src, case["tree"][0][2])
        if pkg.snapshot(src) != before:
            raise Violation("the source library was changed")
        others = sorted(set(os.listdir(cwd)) - {case["name"] + ".mol"})
        if others:
            raise Violation("other files in the working directory: %r" % others)
        why = self.why(case, want, encrypting)
        if pkg.staging():
            raise Violation("the staging directory was left behind (exit status %d)" % r.rc)
        if why and r.rc == 0:
            raise Violation("exit status 0 though %s" % why)
        if r.rc != 0:
            if fault[:2] == "z:" or fault[:4] == "tmp:":
                if os.path.exists(ar) and lib.get(ar) != old:
                    raise Violation("an incomplete archive was left behind")
            elif case["old"] and (not os.path.exists(ar) or lib.get(ar) != old):
                raise Violation("the existing archive was touched though packaging failed")
            elif not case["old"] and os.path.exists(ar):
                raise Violation("an archive was made though packaging failed")
            if why or self.mayfail(case, fault, longest):
                return bool(why), ["fault"]
            raise Violation("exit status %d: %s" % (r.rc, (r.out + r.err)[-300:].decode("latin1")))
        self.compare(case, env, want, encrypting, ar, d)
        return len(want) > 1 and any("/" in w for w in want), ["enc" if encrypting else "clear"]

    def why(self, case, want, encrypting):
        """why packaging cannot succeed"""
        fault = case["fault"] or ""
        if encrypting and not case["lves"]:
            return "there is no LVE"
        if encrypting and any(is_mo(w) and len(lib.fs(w.rsplit("/", 1)[-1])) > 254 for w in want):
            return "the name of an encrypted file is too long"
        size = {lib.fs(w): len(b) for w, b in want.items()}
        for n, c in list((case["extra"] or {}).items()) + (list(case["lves"].items()) if encrypting else []):
            size[b".library/" + n.encode()] = c[1]
        if fault[:2] == "w:":
            if encrypting:
                for w, b in want.items():
                    if is_mo(w):
                        size[lib.fs(w) + b"c"] = 16 + ((len(b) + (32 if w.rsplit("/", 1)[-1] == "package.mo" else 0)) // 16 + 1) * 16 + 32
            if int(fault[2:]) < max(list(size.values()) + [200]):
                return "no file can be larger than %s bytes" % fault[2:]
        elif fault[:2] == "z:":
            n = self.need = sum(size.values()) + 200 + sum(31 + len(case["name"]) + len(x) for x in size)
            if int(fault[2:]) < n:
                return "the archive cannot be larger than %s bytes" % fault[2:]
        elif fault[:2] in ("f:", "d:") or fault == "extra" or fault == "lve" and encrypting:
            return "%s cannot be read" % fault
        elif fault == "icon":
            return "the icon is not in the library"
        elif fault == "tools":
            return "the tools file cannot be read"
        elif fault == "notmp":
            return "there is no temporary folder"
        elif fault == "manidir":
            return "manifest.xml is a directory"

    def mayfail(self, case, fault, longest):
        """a name the encryption takes for package.mo; a path longer than it supports; or the limit is just above what is known to be needed"""
        return (case["enc"] or "").lower() == "true" and self.confusing(case["tree"]) or longest > 1700 or fault == "maniro" or fault[:4] in ("src:", "tmp:") or fault[:2] == "w:" and int(fault[2:]) < 6000 or fault[:2] == "z:" and int(fault[2:]) < self.need + 6000

    def compare(self, case, env, want, encrypting, ar, d):
        try:
            ents = pkg.archive(ar)
        except Exception as e:
            raise Violation("the archive cannot be read: %s" % e)
        pre = lib.fs(case["name"]) + b"/"
        got = {}
        for n, b in ents:
            if n in got:
                raise Violation("two entries %r" % n)
            got[n] = b
        exp = {}
        for w, b in want.items():
            e = encrypting and is_mo(w)
            exp[pre + lib.fs(w) + (b"c" if e else b"")] = None if e else b
        exp[pre + b".library/manifest.xml"] = None
        if encrypting:
            for n, c in case["lves"].items():
                exp[pre + b".library/" + n.encode()] = G.data(c)
                self.perm[b".library/" + n.encode()] = case.get("lmode", 0o755)
        for n, c in (case["extra"] or {}).items():
            exp[pre + b".library/" + n.encode()] = G.data(c)
            self.perm[b".library/" + n.encode()] = case.get("xmode", 0o644)
        miss, more = sorted(set(exp) - set(got)), sorted(set(got) - set(exp))
        if miss or more:
            raise Violation("archive: missing %r, unexpected %r" % (miss[:4], more[:4]))
        for n, b in exp.items():
            if b is not None and got[n] != b:
                raise Violation("entry %r has other contents (%d bytes, file has %d)" % (n, len(got[n]), len(b)))
        modes = pkg.modes(ar)
        for n, m in self.perm.items():
            if exp.get(pre + n) is not None and modes[pre + n] != m:
                raise Violation("entry %r has the permissions %o, the file has %o" % (n, modes[pre + n], m))
        try:
            xml.dom.minidom.parseString(got[pre + b".library/manifest.xml"])
        except Exception as e:
            raise Violation("the manifest in the archive is not XML: %s" % e)
        if encrypting:
            x = d + "/x"
            for n, b in got.items():
                p = os.path.join(os.fsencode(x), n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)
            with lib.LveSession(self.b + "/lve_linux64") as l:
                if l.to_license(os.path.join(x, case["name"])) != ("YES",):
                    raise Violation("LIB refused for the unpacked archive")
                for w, b in want.items():
                    if is_mo(w):
                        r = l.ask(msg("FILE", lib.fs(w) + b"c"))
                        if r != ("FILECONT", b):
                            raise Violation("the LVE serves %rc of the archive as %s" % (w, repr(r)[:120]))
                lib.session_end(l)


PROP = C12()
