"""LVE command lines against a reference acceptor, with the project's licence manager and a scripted one."""
import json
import os
import socket

from semla import lib, util, proto as P
from semla.engine import Prop, Violation

OPTS = ["--checkout-feature", "--libpath", "--version", "--help"]
FEATS = ["test_licensed_feature", "test_licensed_feature", "ok", "ok1", "okay", "Ok", "no", "o", "", "test_licensed_feature ", "test_licensed_featur",
         "test_licensed_feature2", "--version", "--libpath", "a\nb", "ok\nx", "%s%n", "ok %d", "refuse", "\u00e5", "ok\u00e5", "also", "x" * 3000,
         "ok" + "y" * 60000, "FEATURE 3\nabc", "keepx", "-", "ok 5"]
DIRS = ["@dir", "@dir", "@dir/", "@dir//", "@sub dir", "@link", "@deep/er", "@file", "@none", "@dangling", "@socket", "@fifo", "", ".", "..", "rel", "@file/x",
        "@dir/.", "@long", "@\u00e5", "./rel/", "--help", "/", "//", "norel"]
STRAY = ["-v", "--versions", "--Help", "-h", "help", "", "--checkout-feature=x", "--libpath=@dir", "-", "--", "@dir", "--check", "--versio", "version", "--libpat"]


class C20(Prop):
    id = "C20"
    configs = ["asan", "asan-lm", "asan-lm-glob"]
    rule = ("a case is an argument vector, a licence manager (the project's, a scripted one, or one that cannot be set up); non-trivial: the vector has "
            "at least two arguments and is neither a plain request with the licensed feature and a directory nor made of unknown words only")
    quick_n, thorough_n = 13000, 150000
    assumptions = ["a feature name is an argument, so it has no NUL byte", "that an LVE with neither --checkout-feature nor --version/--help serves a tool is judged on a short session"]

    def gen(self, rng):
        x = rng.random()
        a = []
        if x < 0.55:
            pair = [["--checkout-feature", rng.choice(FEATS)], ["--libpath", rng.choice(DIRS)]]
            rng.shuffle(pair)
            a = pair[0] + pair[1]
            if rng.random() < 0.35:
                y = rng.random()
                if y < 0.3:
                    a.insert(rng.choice([0, 2, 4]), rng.choice(STRAY + OPTS))
                elif y < 0.5:
                    a += rng.choice(pair)
                elif y < 0.7:
                    del a[rng.randrange(4)]
                elif y < 0.85:
                    a.pop()
                else:
                    a[rng.choice([0, 2])] = rng.choice(STRAY + OPTS)
        elif x < 0.62:
            a = [rng.choice(["--version", "--help"])]
        else:
            for _ in range(rng.randrange(1, 7)):
                y = rng.random()
                a.append(rng.choice(OPTS if y < 0.6 else FEATS if y < 0.72 else DIRS if y < 0.84 else STRAY))
        return dict(args=a, lm=rng.choice(["dummy", "dummy", "script", "script", "script", "broken", "glob", "globno"]))

    def corpus(self):
        out = [dict(args=[o], lm=m) for o in OPTS + STRAY for m in ("dummy", "script")]
        for f in FEATS:
            for d in ("@dir", "@file"):
                for m in ("dummy", "script", "broken", "glob"):
                    out.append(dict(args=["--checkout-feature", f, "--libpath", d], lm=m))
                    out.append(dict(args=["--libpath", d, "--checkout-feature", f], lm=m))
        out += [dict(args=["--checkout-feature", "ok", "--libpath", d], lm="script") for d in DIRS]
        out += [dict(args=[a, b], lm="dummy") for a in OPTS for b in OPTS]
        out += [dict(args=[a, b, c], lm="dummy") for a in OPTS for b in OPTS for c in OPTS]
        return out

    def valid(self, case):
        return all(isinstance(a, str) for a in case["args"])

    def shrinks(self, case):
        a = case["args"]
        for i in range(len(a)):
            yield {**case, "args": a[:i] + a[i + 1:]}
        for i in range(len(a)):
            if len(a[i]) > 3:
                yield {**case, "args": a[:i] + [a[i][:len(a[i]) // 2]] + a[i + 1:]}

    def area(self, env):
        d = getattr(env, "area", None)
        if d is None:
            d = env.area = env.newdir()
            for p in ("dir", "sub dir", "deep/er", "\u00e5", "cwd/rel"):
                os.makedirs(d + "/" + p)
            open(d + "/file", "w").close()
            os.symlink(d + "/dir", d + "/link")
            os.symlink(d + "/nowhere", d + "/dangling")
            s = socket.socket(socket.AF_UNIX)
            s.bind(d + "/socket")
            s.close()
            os.mkfifo(d + "/fifo")
        return d

    @staticmethod
    def meaning(a):
        """-> 'version' | 'help' | ('checkout', feature, libpath) | 'server' | 'refuse'"""
        f = l = None
        i = 0
        while i < len(a):
            if a[i] == "--checkout-feature":
                if f is not None or i + 1 == len(a):
                    return "refuse"
                f = a[i + 1]
                i += 1
            elif a[i] == "--libpath":
                if l is not None or i + 1 == len(a):
                    return "refuse"
                l = a[i + 1]
                i += 1
            elif a[i] in ("--version", "--help"):
                return a[i][2:] if len(a) == 1 else "refuse"
            else:
                return "refuse"
            i += 1
        if f is None:
            return "server"
        return "refuse" if l is None else ("checkout", f, l)

    def run(self, case, env):
        top = self.area(env)

        def sub(x):
            return top + "/" + ("q" * 200 + "/") * 40 if x == "@long" else top + "/" + x[1:] if x.startswith("@") else x.replace("=@", "=" + top + "/")
        a = [sub(x) for x in case["args"]]
        m = self.meaning(a)
        lm = case["lm"]
        conf = {"dummy": "asan", "glob": "asan-lm-glob", "globno": "asan-lm-glob"}.get(lm, "asan-lm")
        log = top + "/lm.log"
        if os.path.exists(log):
            os.unlink(log)
        e = dict(LM_LOG=log)
        if lm == "broken":
            e["LM_NEW_FAIL"] = "cannot set up licensing %s"
        if lm == "glob":
            e["LM_ALSO"] = "global_feature"
        r = util.run([self.bin[conf] + "/lve_linux64"] + a, "LVE", cwd=top + "/cwd", env=e)
        calls = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        tag = m if isinstance(m, str) else m[0]
        if m == "server":
            if calls:
                raise Violation("%r: the licence manager was called without a session: %r" % (case["args"], calls))
            if len(a) and lm in ("dummy", "script"):
                self.server(case, a, lm, conf, e, log, top)
            return bool(a), [tag]
        if tag == "checkout":
            self.checkout(case, m, r, lm, calls, top)
        elif (r.rc == 0) != (m in ("version", "help")):
            raise Violation("%r: exit status %d" % (case["args"], r.rc))
        elif m != "refuse" or True:
            if calls:
                raise Violation("%r: the licence manager was called: %r" % (case["args"], calls))
        if m == "version":
            self.version(r)
        if m == "help":
            t = r.out.decode("utf-8", "replace")
            for o in OPTS:
                if o not in t:
                    raise Violation("--help does not mention %s" % o)
        nt = len(a) > 1 and any(x in OPTS for x in a) and not (tag == "checkout" and r.rc == 0 and case["lm"] == "dummy" and case["args"][1::2] ==
                                                               ["test_licensed_feature", "@dir"])
        return nt, [tag + str(int(r.rc == 0))]

    def checkout(self, case, m, r, lm, calls, top):
        f, l = m[1], m[2]
        isdir = l != "" and os.path.isdir(os.path.join(top + "/cwd", l))
        licensed = f == "test_licensed_feature" if lm == "dummy" else False if lm == "broken" else \
            f.startswith("ok") or (lm == "glob" and f == "global_feature")
        if f == "":
            licensed = False
        want = isdir and licensed
        if (r.rc == 0) != want:
            raise Violation("%r (%s): exit status %d, expected %s (directory %s, licensed %s): %s"
                            % (case["args"], lm, r.rc, "0" if want else "not 0", isdir, licensed, r.text[-200:]))
        if want and lm != "dummy":
            raw = f.encode()
            asked = [c for c in calls if c.startswith("out") or c.startswith("in")]
            if asked != ["out %d x%s" % (len(raw), raw.hex())]:
                raise Violation("%r: the licence manager was asked %r" % (case["args"], [c[:200] for c in asked]))
            new = [c for c in calls if c.startswith("new ")]
            if len(new) != 1 or os.fsdecode(bytes.fromhex(new[0].split(" x")[1])).rstrip("/") != l.rstrip("/"):
                raise Violation("%r: the licence manager was set up with %r" % (case["args"], new))
        if r.rc and lm != "dummy" and any(c.startswith("out-bad") for c in calls):
            raise Violation("%r: licence manager used without set-up" % case["args"])

    def server(self, case, a, lm, conf, e, log, top):
        """with only --libpath it serves a tool: the library is the one the tool asks for"""
        f, g = (b"test_licensed_feature", b"test_licensed_feature2") if lm == "dummy" else (b"ok one", b"refuse")
        lp = os.fsencode(top + "/sub dir")
        with lib.LveSession(self.bin[conf] + "/lve_linux64", cwd=top + "/cwd", env=e, args=a) as l:
            for t, want in [(("FEATURE", f), "ERROR"), (("VERSION", 1), "VERSION"), (("FEATURE", f), "ERROR"), (("LIB", lp), "YES"), (("FEATURE", f), "YES"), (("FEATURE", g), "NO")]:
                r = l.ask(P.msg(*t))
                if r[0] != want:
                    raise Violation("%r: session: %r -> %r" % (case["args"], t, r))
            lib.session_end(l)
        calls = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        new = [c for c in calls if c.startswith("new ")]
        if lm != "dummy" and (len(new) != 1 or bytes.fromhex(new[0].split(" x")[1]) != lp):
            raise Violation("%r: session: the licence manager was set up with %r" % (case["args"], new))

    def version(self, r):
        try:
            j = json.loads(r.out.decode("utf-8"))
        except ValueError as e:
            raise Violation("--version does not print JSON (%s): %r" % (e, r.out[:300]))
        if not isinstance(j, dict) or not all(isinstance(j.get(k), str) and j[k] for k in ("name", "version")):
            raise Violation("--version prints no name and version: %r" % (j,))
        if j.get("tools") != ["Tool A", "Tool B"]:       # tools.txt of the harness build
            raise Violation("--version lists the tools %r" % (j.get("tools"),))


PROP = C20()
