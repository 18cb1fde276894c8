"""The manifest written by packagetool, read with an XML parser."""
import os
import xml.etree.ElementTree as ET

from semla import gens as G, lib, pkg
from semla.engine import Prop, Violation, generic_shrinks

TEXT = ["title", "description", "copyright", "license"]
ATTR = ["enabled", "version", "build", "date", "language"]
PIECES = ["<", ">", "&", "\"", "'", "&amp;", "&lt;", "<!--", "-->", "<![CDATA[", "]]>", "</library>", "</title>", "<a b=\"c\"/>", "%s", "%d%n", "%", "\\", "\\n", "text", " ", "1.0", "3.2.1",
          "\u00e5\u00e4\u00f6", "\u20ac", "\U0001f600", "true", "false", "/>", "=", "2024-01-01", "{", "$HOME", "`", "<?xml?>", "-x", "#", ";", "x" * 100, "&#10;", "&#x3c;", "a\u0301", "\u00a0"]


def value(rng, attr, big=False):
    n = rng.choice([1, 1, 1, 2, 3, 5, 12]) if not big else rng.choice([100, 1000])
    s = "".join(rng.choice(PIECES) for _ in range(n))
    if rng.random() < 0.2:
        s = s + rng.choice(["\n", "\t", "\n\n", "\n  ", "\r", "\r\n", "\t\n\r", " \t", "\n&#10;\n"]) + rng.choice([s, "", "z"])
    return s or "v"


def fragment(rng, tag):
    """an XML file: first line, then an element written over several lines"""
    first = rng.choice(["<?xml version=\"1.0\" encoding=\"utf-8\"?>", "", "<?xml?>", "x" * 300, "<" * 5, "first & line", "\u00e5" * 700])
    rows = ["<%s>" % tag]
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        pad = rng.choice(["", " ", "\t", "    "])
        v = rng.choice(["1", "x" * rng.choice([10, 180, 190, 195, 198, 199, 200, 201, 250, 300, 1000, 2047, 2048, 5000, 20000]), "\u00e5" * 99, "\u20ac\u00ff" * 60, "&lt;&amp;", ""])
        rows.append(pad + rng.choice(["<tool id=\"%s\" optional=\"true\"/>" % v, "<t>%s</t>" % v, "<!-- %s -->" % v.replace("-", ""), "<t\n a=\"%s\"\n/>" % v, "", "text %s" % v]))
    rows.append("</%s>" % tag)
    sep = rng.choice(["\n", "\n", "\r\n", ""]) if rng.random() < 0.3 else "\n"
    if sep == "":
        rows = ["".join(rows)]
        sep = "\n"
    return first + sep + sep.join(rows) + rng.choice(["\n", "", "\n\n", "\r\n"])


class C13(Prop):
    id = "C13"
    rule = ("a case is a set of option values, tools and dependencies files, an icon position and the LVEs present; non-trivial: at least one value with a markup "
            "character, or an included file, or an icon, or two LVEs")
    quick_n, thorough_n = 4500, 40000
    assumptions = ["option values are UTF-8 without control characters other than tab, line feed and carriage return", "surrounding white space of description, copyright and license is layout",
                   "included files are well-formed after their first line"]

    def gen(self, rng):
        o = {"version": value(rng, True), "language": value(rng, True)}
        for k in ("enabled", "build", "date"):
            if rng.random() < 0.5:
                o[k] = value(rng, True)
        for k in TEXT:
            if rng.random() < 0.5:
                o[k] = value(rng, False)
        if rng.random() < 0.02:
            k = rng.choice(TEXT + ["version", "enabled"])
            o[k] = value(rng, k not in TEXT, True)
        files = {k: fragment(rng, k) for k in ("tools", "dependencies") if rng.random() < 0.4}
        icon = None
        if rng.random() < 0.45:
            icon = [rng.choice(["", "", "Resources", "Resources/Images", "a/b/c/d", "x.mo", "Lib", "sp ace", "\u00e5", "a&b", "R" * 200]), rng.choice(["icon.png", "i", "\u00e5.svg", "a&b<c>.png", "ic on.png", "x.mo.png", "i" * 200, "'q'.png"])]
            # how the path is written, and further files of that name
            icon.append(rng.choice(["abs", "abs", "rel", "dots", "outside", "link"]))
            icon.append([x for x in rng.sample(["", "sub", "sub/a", "Resources", "zz", "A", "a/b", "Lib"], rng.choice([0, 0, 1, 2, 5])) if x != icon[0]])
            if icon[2] == "outside":
                icon[3] = []
        enc = rng.choice([None, None, "true", "True", "false"])
        lves = rng.sample(pkg.LVES, rng.randrange(1, 6))
        name = rng.choice(["Lib", "Lib", "a&b", "L <1>", "\u00e5", "L\"q\"", "L.mo", "it's", "Lib 1.0", "%s", "n" * 190, "tmp", "L" * 30])
        order = rng.randrange(1 << 30)
        return dict(opts=o, files=files, icon=icon, enc=enc, lves=lves, name=name, order=order)

    def corpus(self):
        base = dict(opts={"version": "1.0", "language": "3.2"}, files={}, icon=None, enc=None, lves=["lve_linux64"], name="Lib", order=1)
        out = [base]
        for p in PIECES:
            out.append({**base, "opts": {k: p for k in TEXT + ATTR}})
        for n in range(1, 6):
            for i in range(5):
                out.append({**base, "enc": "true", "lves": (pkg.LVES + pkg.LVES)[i:i + n]})
        for n in (0, 1, 50, 100, 180, 185, 190, 195, 196, 197, 198, 199, 200, 201, 202, 210, 255, 256, 257, 400, 1000, 2046, 2047, 2048, 2049, 4096, 20000):
            out.append({**base, "files": {"tools": "<?xml?>\n<tools>\n<t a=\"%s\"/>\n</tools>" % ("x" * n)}})
            out.append({**base, "files": {"dependencies": "%s\n<d>%s</d>\n" % ("y" * n, "z" * n)}})
        for d in ("", "Resources", "Resources/Images", "Lib", "a/b/c/d/e"):
            for enc in (None, "true"):
                for how in ("abs", "rel", "dots", "outside", "link"):
                    out.append({**base, "icon": [d, "icon.png", how, []], "enc": enc})
                    if how != "outside":
                        out.append({**base, "icon": [d, "icon.png", how, ["", "sub", "A", "zz", "Resources/Images/x"][:5 if d else 5][bool(not d):]], "enc": enc})
        for k in TEXT + ATTR:
            for w in ("a\nb", "a\tb", "a\rb", "a\r\nb", "\n", "\t", "\r", "a\n", "\nb", " \t\n\r "):
                out.append({**base, "opts": {**base["opts"], k: w}})
        return out

    def valid(self, case):
        o = case["opts"]
        if not {"version", "language"} <= set(o) or any(not v or any(ord(c) < 32 and c not in "\n\t\r" for c in v) for k, v in o.items()):
            return False
        for k, v in case["files"].items():
            try:
                ET.fromstring("<r>" + v.partition("\n")[2] + "</r>")
            except ET.ParseError:
                return False
        if case["icon"] and (not case["icon"][1] or any(c in ("", ".", "..") for c in case["icon"][0].split("/")) and case["icon"][0]):
            return False
        if case["icon"] and (len(case["icon"]) != 4 or case["icon"][0] in case["icon"][3] or case["icon"][2] == "outside" and case["icon"][3]):
            return False
        return bool(case["name"]) and "/" not in case["name"] and case["name"] not in (".", "..") and bool(case["lves"])

    def shrinks(self, case):
        for k in case["opts"]:
            if k not in ("version", "language"):
                yield {**case, "opts": {a: b for a, b in case["opts"].items() if a != k}}
            for s in generic_shrinks(case["opts"][k]):
                yield {**case, "opts": {**case["opts"], k: s}}
        for k in case["files"]:
            yield {**case, "files": {a: b for a, b in case["files"].items() if a != k}}
            for s in generic_shrinks(case["files"][k]):
                yield {**case, "files": {**case["files"], k: s}}
        for k, v in (("icon", None), ("enc", None), ("name", "Lib"), ("order", 1)):
            if case[k] != v:
                yield {**case, k: v}
        for s in generic_shrinks(case["lves"]):
            yield {**case, "lves": s}

    def run(self, case, env):
        import random
        d = env.newdir()
        t = pkg.tool(self, env)
        try:
            t.set({n: b"LVE" for n in case["lves"]})
            src, cwd = d + "/" + case["name"], d + "/"
            os.mkdir(src)
            cwd = d + "/\u00a0cwd"
            os.mkdir(cwd)
            lib.put(src + "/package.mo", b"package Lib end Lib;")
            os.makedirs(src + "/sub")
            lib.put(src + "/sub/other.png", b"x")
            opts = [["-librarypath", src]] + [["-" + k, v] for k, v in case["opts"].items()]
            if case["enc"]:
                opts.append(["-encrypt", case["enc"]])
            if case["icon"]:
                os.makedirs(os.path.join(src, case["icon"][0]), exist_ok=True)
                ip = os.path.join(src, *[x for x in case["icon"][:2] if x])
                lib.put(ip, b"image")
                for x in case["icon"][3]:
                    os.makedirs(os.path.join(src, x), exist_ok=True)
                    lib.put(os.path.join(src, x, case["icon"][1]), b"other")
                how = case["icon"][2]
                if how == "rel":
                    ip = os.path.relpath(ip, cwd)
                elif how == "dots":
                    ip = "%s/sub/.././%s" % (src, os.path.relpath(ip, src))
                elif how == "outside":
                    # found by its name
                    os.mkdir(d + "/elsewhere")
                    ip = d + "/elsewhere/" + case["icon"][1]
                    lib.put(ip, b"image")
                elif how == "link":
                    os.symlink(src, d + "/lnk")
                    ip = d + "/lnk/" + os.path.relpath(ip, src)
                opts.append(["-icon", ip])
            for k, v in case["files"].items():
                lib.put("%s/%s.xml" % (d, k), v.encode())
                opts.append(["-" + k, "%s/%s.xml" % (d, k)])
            pkg.give(d)
            random.Random(case["order"]).shuffle(opts)
            r = t.run([x for o in opts for x in o], cwd)
            if r.rc:
                raise Violation("exit status %d: %s" % (r.rc, r.out[-300:].decode("latin1")))
            ar = dict(pkg.archive("%s/%s.mol" % (cwd, case["name"])))
            pre = case["name"].encode() + b"/"
            self.check(case, ar, pre)
        finally:
            env.drop(d)
            pkg.sweep()
        mark = any(c in v for v in case["opts"].values() for c in "<>&\"")
        return mark or bool(case["files"]) or bool(case["icon"]) or (case["enc"] or "").lower() == "true" and len(case["lves"]) > 1, ["icon"] * bool(case["icon"]) + ["files%d" % len(case["files"])]

    def check(self, case, ar, pre):
        raw = ar.get(pre + b".library/manifest.xml")
        if raw is None:
            raise Violation("no manifest in the archive")
        try:
            root = ET.fromstring(raw)
        except ET.ParseError as e:
            raise Violation("the manifest is not well-formed: %s: %r" % (e, raw[:400]))
        o = case["opts"]

        def eq(what, got, want, strip=False):
            if strip and got is not None and want is not None:
                got, want = got.strip(), want.strip()
            if got != want:
                raise Violation("%s is %r, asked for %r" % (what, got, want))

        def only(el, tag):
            x = [c for c in el if c.tag == tag]
            if len(x) > 1:
                raise Violation("%d elements <%s>" % (len(x), tag))
            return x[0] if x else None
        eq("root element", root.tag, "archive")
        m, l = only(root, "manifest"), only(root, "library")
        if m is None or l is None or len(root) != 2:
            raise Violation("archive does not consist of manifest and library")
        eq("manifest version", dict(m.attrib), {"version": "1.0"})
        eq("attributes of library", dict(l.attrib), {"id": case["name"], **({"enabled": o["enabled"]} if "enabled" in o else {})})
        for k in TEXT:
            e = only(l, k)
            eq("presence of " + k, e is not None, k in o)
            if e is not None:
                if len(e) or e.attrib:
                    raise Violation("markup inside <%s>" % k)
                eq(k, e.text or "", o[k], strip=k != "title")
        v = only(l, "version")
        eq("version", dict(v.attrib) if v is not None else None, {"number": o["version"], **{k: o[k] for k in ("build", "date") if k in o}})
        v = only(l, "language")
        eq("language", dict(v.attrib) if v is not None else None, {"version": o["language"]})
        enc = (case["enc"] or "").lower() == "true"
        e = only(l, "encryption")
        eq("presence of encryption", e is not None, enc)
        if enc:
            got = sorted((x.tag, x.attrib.get("path"), x.attrib.get("platform"), x.attrib.get("licensing")) for x in e)
            want = sorted(("executable", ".library/" + n, n.split("_")[1].split(".")[0], "true") for n in case["lves"])
            eq("encryption", got, want)
            for g in got:
                if pre + g[1].encode() not in ar:
                    raise Violation("%s is not in the archive" % g[1])
        e = only(l, "icon")
        eq("presence of icon", e is not None, case["icon"] is not None)
        if e is not None:
            p = "/".join(x for x in case["icon"][:2] if x)
            eq("icon", dict(e.attrib), {"file": p})
            if pre + p.encode() not in ar:
                raise Violation("icon %r is not in the archive" % p)
        have = {c.tag for c in l} - set(TEXT) - {"version", "language", "encryption", "icon"}
        want = set()
        for k, v in case["files"].items():
            body = v.encode().partition(b"\n")[2]
            if body not in raw:
                raise Violation("the contents of the %s file (%d bytes) are not in the manifest as they are" % (k, len(body)))
            want |= {c.tag for c in ET.fromstring("<r>" + v.partition("\n")[2] + "</r>")}
        eq("further elements", have, want)


PROP = C13()
