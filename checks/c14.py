"""packagetool's command line against a reference acceptor."""
import os
import random
import stat

from semla import lib, pkg
from semla.engine import Prop, Violation, generic_shrinks

OPTS = ["librarypath", "enabled", "title", "description", "version", "build", "date", "language", "copyright", "license", "encrypt", "icon", "tools", "dependencies"]
MAND = ["librarypath", "version", "language"]
FILEOPTS = {"librarypath": ["@lib", "@lib", "@lib", "@lib/", "@none", "@file", "@empty", "@sock", "@loop", "@link", "@icon/"], "icon": ["@icon", "@subicon", "@none", "@outside", "@icon", "@lib", "@loop", "@sub"],
            "tools": ["@tools", "@none", "@empty", "@lib", "@icon", "@secret", "@loop", "@sock"], "dependencies": ["@deps", "@none", "@lib/", "@file", "@empty", "@secret"], "encrypt": ["true", "true", "false", "TRUE", "tRuE", "no", "truex", "1"]}
BADOPT = ["-Version", "-versio", "-versions", "-", "--", "---", "-x", "-help", "-H", "--Help", "-librarypath ", "- version", "-title=", "-", "--version", "--librarypath", "value", "title", "version", "xtitle", " title", "/version", "\u00e5version", "_icon", "=build", "+date", "\x01enabled", "librarypath",
          "@tools", "Xh", "h", "+-title", "\u2010title"]


class C14(Prop):
    id = "C14"
    rule = ("a case is an argument vector, the LVEs next to the tool and whether an old archive exists; non-trivial: at least one option given and the "
            "vector is either accepted or differs from an accepted one by one change")
    quick_n, thorough_n = 4500, 40000
    assumptions = ["an icon that is not in the library has a file name that no file in it has"]

    def gen(self, rng):
        opts = list(MAND) + [o for o in OPTS if o not in MAND and rng.random() < rng.choice([0.1, 0.4, 0.9])]
        rng.shuffle(opts)
        ok = rng.random() < 0.75
        argv = []
        for o in opts:
            vs = FILEOPTS.get(o)
            if vs:
                v = vs[0] if ok and o != "encrypt" and rng.random() < 0.85 else rng.choice(vs)
            else:
                v = rng.choice(["1.0", "x", "-version", "-title", "a b", "true", "--", "-", "\u00e5", "0", " ", "-x", "@lib"])
            argv += ["-" + o, v]
        near = True
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            k = rng.randrange(10)
            i = rng.randrange(len(argv) + 1)
            if k == 0 and argv:
                del argv[i % len(argv)]
            elif k == 1:
                argv.insert(i, rng.choice(BADOPT))
            elif k == 2:
                argv[i:i] = [rng.choice(BADOPT), "v"]
            elif k == 3 and argv:
                argv[i % len(argv)] = ""
            elif k == 4:
                argv.insert(i, "")
            elif k == 5 and argv:
                j = 2 * rng.randrange(len(argv) // 2) if len(argv) > 1 else 0
                argv += argv[j:j + 2]
            elif k == 6:
                argv.insert(i, rng.choice(["-h", "--help"]))
            elif k == 7 and argv:
                j = 2 * rng.randrange(len(argv) // 2) if len(argv) > 1 else 0
                del argv[j:j + 2]
            elif k == 9 and argv:
                # another first character, or none
                j = 2 * rng.randrange(len(argv) // 2) if len(argv) > 1 else 0
                argv[j] = rng.choice(["", "x", "/", "+", "_", " ", "--", "\u00e5", chr(rng.randrange(1, 128))]) + argv[j][1:]
            elif k == 8:
                argv += ["-" + rng.choice(OPTS)] + (["v"] if rng.random() < 0.5 else [])
        return dict(argv=argv, lves=rng.choice([[], ["lve_linux64"], ["lve_win32.exe", "lve_darwin64"], ["lve_other"], pkg.LVES, ["lve_linux32"]]), old=rng.random() < 0.5)

    def corpus(self):
        full = ["-librarypath", "@lib", "-version", "1", "-language", "3", "-enabled", "true", "-title", "t", "-description", "d", "-build", "1", "-date", "d",
                "-copyright", "c", "-license", "l", "-encrypt", "true", "-icon", "@icon", "-tools", "@tools", "-dependencies", "@deps"]
        L = ["lve_linux64"]
        out = [dict(argv=full, lves=L, old=o) for o in (True, False)]
        for i in range(len(full)):
            out.append(dict(argv=full[:i] + full[i + 1:], lves=L, old=bool(i % 2)))
            out.append(dict(argv=full[:i] + [""] + full[i + 1:], lves=L, old=bool(i % 2)))
            out.append(dict(argv=full[:i] + ["-h"] + full[i:], lves=L, old=bool(i % 2)))
            out.append(dict(argv=full[:i] + ["-zzz"] + full[i + 1:], lves=L, old=bool(i % 2)))
            if i % 2 == 0:
                for c in ("", "x", "/", "--", " "):
                    out.append(dict(argv=full[:i] + [c + full[i][1:]] + full[i + 1:], lves=L, old=True))
        for j in range(0, len(full), 2):
            out.append(dict(argv=full[:j] + full[j + 2:], lves=L, old=True))
            out.append(dict(argv=full + full[j:j + 2], lves=L, old=True))
            out.append(dict(argv=full[j:] + full[:j], lves=L, old=True))
            out.append(dict(argv=["-librarypath", "@lib", "-version", "1", "-language", "3"] + (full[j:j + 2] if j > 4 else []), lves=L, old=True))
        for n in pkg.LVES + ["lve_other", ""]:
            for e in ("true", "false", "TRUE", "untrue"):
                out.append(dict(argv=["-librarypath", "@lib", "-version", "1", "-language", "3", "-encrypt", e], lves=[n] if n else [], old=True))
        out += [dict(argv=[], lves=[], old=True), dict(argv=["--help"], lves=[], old=True), dict(argv=["-h"], lves=[], old=True)]
        for k, vs in FILEOPTS.items():
            for v in vs:
                a = dict(zip(full[::2], full[1::2]))
                a["-" + k] = v
                out.append(dict(argv=[x for kv in a.items() for x in kv], lves=L, old=True))
        return out

    def valid(self, case):
        return all(isinstance(a, str) and "\0" not in a for a in case["argv"])

    def shrinks(self, case):
        a = case["argv"]
        for i in range(0, len(a) - 1):
            yield {**case, "argv": a[:i] + a[i + 2:]}
        for i in range(len(a)):
            yield {**case, "argv": a[:i] + a[i + 1:]}
        if case["old"]:
            yield {**case, "old": False}

    def accept(self, case):
        """None if accepted, 'help', or the reason why not."""
        argv = case["argv"]
        if "-h" in argv or "--help" in argv:
            return "help"
        if not argv:
            return "no arguments"
        seen, i = {}, 0
        while i < len(argv):
            a = argv[i]
            if not a.startswith("-") or a[1:] not in OPTS:
                return "unknown option %r" % a
            if a[1:] in seen:
                return "%s twice" % a
            if i + 1 == len(argv) or argv[i + 1] == "":
                return "%s without value" % a
            seen[a[1:]] = argv[i + 1]
            i += 2
        for m in MAND:
            if m not in seen:
                return "-%s missing" % m
        if seen["librarypath"] not in ("@lib", "@lib/", "@empty", "@link"):
            return "no library directory"
        self.libopt = seen["librarypath"]
        if seen.get("encrypt", "").lower() == "true" and not set(case["lves"]) & set(pkg.LVES):
            return "no LVE"
        for k in ("tools", "dependencies"):
            if k in seen and seen[k] not in ("@tools", "@deps", "@file", "@icon", "@subicon", "@outside"):
                return "no %s file" % k
        if "icon" in seen and (seen["icon"] not in ("@icon", "@subicon") or self.libopt == "@empty"):
            return "no icon in the library"
        return None

    def run(self, case, env):
        why = self.accept(case)
        d = env.newdir()
        t = pkg.tool(self, env)
        try:
            t.set({n: b"LVE" for n in case["lves"]} if case["lves"] else None)
            src, cwd = d + "/Lib", d + "/cwd"
            os.makedirs(src + "/sub")
            os.mkdir(cwd)
            os.mkdir(d + "/Empty")
            lib.put(src + "/package.mo", b"package Lib end Lib;")
            lib.put(src + "/icon.png", b"1")
            lib.put(src + "/sub/icon2.png", b"2")
            lib.put(d + "/outside.png", b"3")
            lib.put(d + "/file", b"")
            for n in ("tools", "deps"):
                lib.put("%s/%s.xml" % (d, n), b"<?xml?>\n<%s/>\n" % n.encode())
            m = {"@lib": src, "@lib/": src + "/", "@none": d + "/none", "@file": d + "/file", "@empty": d + "/Empty", "@icon": src + "/icon.png", "@subicon": src + "/sub/icon2.png",
                 "@outside": d + "/outside.png", "@secret": d + "/secret", "@tools": d + "/tools.xml", "@deps": d + "/deps.xml"}
            m.update({"@sock": d + "/sock", "@loop": d + "/loop", "@link": d + "/Link", "@icon/": src + "/icon.png/", "@sub": src + "/sub"})
            os.mknod(d + "/sock", 0o644 | stat.S_IFSOCK)
            os.symlink("loop", d + "/loop")
            os.symlink("Lib", d + "/Link")
            name = "Lib" if why else {"@empty": "Empty", "@link": "Link"}.get(self.libopt, "Lib")
            for n in ("Lib", "Empty", "Link"):
                if case["old"]:
                    lib.put("%s/%s.mol" % (cwd, n), b"old")
            lib.put(d + "/secret", b"<?xml?>\n<secret/>\n")
            pkg.give(d)
            os.chmod(d + "/secret", 0)
            before = pkg.snapshot(cwd)
            r = t.run([m.get(a, a) for a in case["argv"]], cwd)
            after = pkg.snapshot(cwd)
            if why is None:
                if r.rc:
                    raise Violation("valid command line: exit status %d: %s" % (r.rc, r.out[-300:].decode("latin1")))
                changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                if changed != {name.encode() + b".mol"}:
                    raise Violation("valid command line changed %r" % sorted(changed))
                try:
                    names = [n for n, _ in pkg.archive("%s/%s.mol" % (cwd, name))]
                except Exception as e:
                    raise Violation("the archive cannot be read: %s" % e)
                if name.encode() + b"/.library/manifest.xml" not in names:
                    raise Violation("no manifest in the archive")
            else:
                if after != before:
                    raise Violation("%s: files in the working directory changed" % why)
                if why == "help":
                    if r.rc or b"-librarypath" not in r.out:
                        raise Violation("help: exit status %d, output %r" % (r.rc, r.out[:100]))
                elif r.rc == 0:
                    raise Violation("%s: exit status 0" % why)
        finally:
            env.drop(d)
            pkg.sweep()
        return len(case["argv"]) > 1, ["accepted" if why is None else why.split("'")[0].split("-")[0][:20]]


PROP = C14()
