"""Grammar, LVE side: generated message texts against an independent recogniser.
Tool side: generated reply texts through the tool API."""
import re

from semla import crypt, lib, model, small, proto as P
from semla.engine import Prop, Violation
from semla.proto import msg

INT = re.compile(r"^-?[0-9]+$")


def understood(text):
    """text: bytes of one message -> tuple, or None if it is not in the grammar."""
    i = text.find(b"\n")
    if i < 0:
        return None
    head, data = text[:i], text[i + 1:]
    try:
        w = head.decode("ascii").split(" ")
    except UnicodeDecodeError:
        return None
    c, args = w[0], w[1:]
    form = 0 if c in P.SIMPLE else 1 if c in P.NUMBER else 2 if c in P.LENGTH else 3 if c in P.NUMLEN else None
    if form is None or len(args) != (0, 1, 1, 2)[form] or not all(INT.match(a) for a in args):
        return None
    n = [int(a) for a in args]
    if form == 0:
        return (c,)
    if form == 1:
        return (c, n[0])
    if n[-1] < 0 or n[-1] != len(data):
        return None
    return (c, data) if form == 2 else (c, n[0], data)


WORDS = P.ALL + ["version", "Version", "VERSIONS", "VERSIO", "LIBX", "LI", "FIL", "FILEE", "FILECON", "FILECONTX", "file", "RETURN", "NOT",
                 "NOTSIMPLEX", "FEATUREFEATURE", "FEATUR", "TOOL", "TOOLSX", "TOOLLISTS", "YESS", "YE", "N", "NOO", "ERR", "ERRORS", "HELLO",
                 "UNDEFINED", "0", "1", "-", "LICENS", "LICENSEE", "RETURNLICENSEX", "RETURNLICENS", "RETURNFEATUREX", "%s", "V\xc3", "feature"]
ZEROS = ["0009", "007", "-01", "000", "08", "-0", "010", "0000000000000000000000012", "0x10"[:1] + "64"]
BADNUM = ["x", "one", "a1", "-", "+", "--1", "#", "YES", "nan", "\xc3\xa5", "%d", "_1", ",5", "e5", ";"]


def gen_text(rng, data=None, lines=True):
    """-> [words, data as latin1 string, or None if the line feed is missing]"""
    c = rng.choice(P.ALL) if rng.random() < 0.8 else rng.choice(WORDS)
    form = 0 if c in P.SIMPLE else 1 if c in P.NUMBER else 2 if c in P.LENGTH else 3 if c in P.NUMLEN else rng.randrange(4)
    d = "" if form < 2 else (data(rng, c) if data else rng.choice(["", "a", "x.moc", "plain.txt", "a\nb", "\n", "\n\n", "q" * 300, " ", "5 5\nFILE 1\nx"]))
    nargs = (0, 1, 1, 2)[form]
    args = []
    for i in range(nargs):
        if form >= 2 and i == nargs - 1:
            args.append("0" * rng.choice([0, 0, 0, 0, 1, 2, 9, 30]) + str(len(d)))
        else:
            args.append(str(rng.choice([0, 1, 1, 2, -1, 7, 12345, 2**31, 2**32 + 1, -5, 10**18, -10**18])) if rng.random() < 0.85 else rng.choice(ZEROS))
    x = rng.random()
    if x < 0.35:
        pass
    elif x < 0.5:
        args.append(rng.choice(["0", "1", "-3", "x", str(len(d))]))
        if rng.random() < 0.3:
            args += [str(rng.randrange(9)) for _ in range(rng.randrange(1, 6))]
    elif x < 0.6 and args:
        args.pop(rng.randrange(len(args)))
    elif x < 0.72 and args:
        args[rng.randrange(len(args))] = rng.choice(BADNUM)
    elif x < 0.9 and form >= 2:
        n = len(d)
        args[-1] = str(rng.choice([n + 1, n - 1, n + rng.randrange(1, 300), -1, -n, -n - 1, n * 10 + 1, 2**31, 2**31 - 1, 2**32 + n, 2**33,
                                   16384, -2**31, 0 if n else 1, -2**32 + n, 10**9]))
    elif form >= 2:
        args[-1] = str(len(d))
    if rng.random() < 0.08:         # only a space separates words
        sep = rng.choice("\t\r\v\f,;:=\x01\xa0")
        if not args or rng.random() < 0.2:
            c = rng.choice([c + sep, sep + c])
        else:
            c, args = c + sep + args[0], args[1:]
    if rng.random() < 0.03:         # the first line is empty
        return ["\n" * rng.choice([1, 1, 2, 5]) + c] + args, d
    if lines and rng.random() < 0.08:          # no line feed
        return [c] + args, None
    if lines and rng.random() < 0.08:          # a NUL somewhere in the line
        ws = [c] + args
        i = rng.randrange(len(ws))
        p = rng.randrange(len(ws[i]) + 1)
        ws[i] = ws[i][:p] + "\0" + rng.choice([ws[i][p:], "", "x", "\0"])
        return ws, d
    return [c] + args, d


def join(w, d):
    """d is None: the line feed is missing, too"""
    return " ".join(w).encode("latin1") + (b"" if d is None else b"\n" + d)


class C05(Prop):
    id = "C05"
    rule = ("a case is a list of message texts sent in a given state (or, tool side, one reply text to one API call; or handed to the parser alone); non-trivial: it "
            "contains both an understood text and one that is not (LVE side, parser), or the reply is not exactly the plain expected one (tool side)")
    quick_n, thorough_n = 5200, 52000

    def setup(self):
        super().setup()
        self.key = crypt.product_key(self.b)

    def gen(self, rng):
        if rng.random() < 0.3:
            return dict(side="parse", texts=[gen_text(rng, self.any_data, False) for _ in range(rng.randrange(2, 60))], errlen=rng.choice([200, 1000, 4000]))
        if rng.random() < 0.72:
            st = rng.choice(["VERSION", "TOOLS", "LIB", "LICENSE", "LICENSE", "LICENSE"])
            return dict(side="lve", state=st, texts=[gen_text(rng, self.lve_data) for _ in range(rng.randrange(2, 25))])
        call = rng.choice(["version", "libpath", "feature", "returnfeature", "license", "returnlicense", "file"])
        w, d = gen_text(rng, self.any_data)
        if rng.random() < 0.5:     # a reply the call may expect, possibly damaged
            c = rng.choice({"version": ["VERSION"], "libpath": ["YES"], "feature": ["YES", "NO"], "returnfeature": ["YES"],
                            "license": ["YES", "NO", "NOTSIMPLE"], "returnlicense": ["YES"], "file": ["FILECONT"]}[call])
            w = [c] + (w[1:] if rng.random() < 0.4 else ["1"] if c in P.NUMBER else [str(len(d or ""))] if c in P.LENGTH else [])
            if rng.random() < 0.08:       # not complete: there is no line feed, and possibly something else instead
                w[-1] += rng.choice(["", "X", "0", "\0", "1", "\r", "\t"])
                d = None
            elif rng.random() < 0.08:
                w[-1] += rng.choice(["\0", "\0x", "\0\0"])
        return dict(side="tool", call=call, text=[w, d], cuts=[rng.randrange(1, 9) for _ in range(rng.randrange(0, 3))])

    @staticmethod
    def lve_data(rng, c):
        if rng.random() < 0.02 and c != "LIB":
            return rng.choice("ax/ .\n") * rng.choice([4000, 4096, 8192, 10000, 12000, 15000, 16000, 16250, rng.randrange(16250)])
        if c == "FILE":
            return rng.choice(["x.moc", "plain.txt", "sub/y.moc", "sub/empty.txt", "nopkg/z.moc", "x.moc ", "x.mo", "nope", "", "x.moc\n"])
        if c in ("FEATURE", "RETURNFEATURE"):
            return rng.choice(["test_licensed_feature", "test_licensed_feature\n", "other", "", " test_licensed_feature", "\n", "a\nb c"])
        if c == "LIB":
            return rng.choice(["@one", "@two", "@none", ""])
        return rng.choice(["", "a", "a b", "\n", "1\n2"])

    @staticmethod
    def any_data(rng, c):
        n = rng.choice([0, 1, 2, 5, 17, 300, 5000])
        return "".join(chr(rng.choice([10, 32, 65, 66, 48, 37, 255, 13])) for _ in range(n))

    def valid(self, case):
        if case["side"] == "parse" and (case["errlen"] < 200 or any(d is None or "\0" in "".join(w) for w, d in case["texts"])):
            return False
        if case["side"] in ("lve", "parse"):
            return all(len(t) == 2 and t[0] and ok_text(t) for t in case["texts"])
        return case["text"][0] and ok_text(case["text"]) and all(c > 0 for c in case["cuts"])

    def shrinks(self, case):
        from semla.engine import generic_shrinks
        k = "text" if case["side"] == "tool" else "texts"
        for s in generic_shrinks(case[k]):
            yield {**case, k: s}
        if case["side"] == "tool":
            yield {**case, "cuts": []}

    def run(self, case, env):
        return getattr(self, "run_" + case["side"])(case, env)

    def run_parse(self, case, env):
        """the parser alone: the line decides, the data does not matter to it"""
        h = env.proc("parse", self.b + "/h_parse")
        good = bad = 0
        try:
            for w, d in case["texts"]:
                line = " ".join(w).encode("latin1")
                u = None if line[:1] == b"\n" else understood(line + b"\n" + b"x" * (self.announced(w) or 0)) if (self.announced(w) or 0) < 1 << 20 else ("big",)
                r = h.ask("parse", line + b"\n" + d.encode("latin1"), case["errlen"]).line.split(" ")
                if u == ("big",):
                    want = ["ok", w[0], w[1] if len(w) == 3 else "0", w[-1]]
                elif u is None:
                    want = ["no"]
                else:
                    want = ["ok", u[0], str(int(w[1])) if u[0] in P.NUMBER | P.NUMLEN else "0", str(int(w[-1])) if u[0] in P.LENGTH | P.NUMLEN else "0"]
                if want == ["no"]:
                    bad += 1
                    if r[0] != "no" or r[2] == "0" or int(r[2]) >= case["errlen"] or r[3] != "0":
                        raise Violation("parser: %r -> %s, expected a refusal with a message" % (line, r))
                else:
                    good += 1
                    if r[0] != "ok" or [r[1], int(r[2]), int(r[3])] != [want[1], int(want[2]), int(want[3])]:
                        raise Violation("parser: %r -> %s, expected %s" % (line, r, want))
        except P.Died as e:
            env.dropproc("parse")
            raise Violation("parser: %s" % e)
        return good and bad, ["parse"]

    def run_lve(self, case, env):
        sm = small.get(self, env)
        m = model.LveModel(lookup=sm.lookup)
        good = bad = 0
        with lib.LveSession(self.b + "/lve_linux64") as l:
            pre = {"VERSION": [], "TOOLS": [("VERSION", 1)], "LIB": [("VERSION", 1), ("TOOLS",)],
                   "LICENSE": [("VERSION", 1), ("LIB", sm.one.encode())]}[case["state"]]
            for t in pre:
                if not model.match(m.step(t), l.ask(msg(*t))):
                    raise Violation("set-up %r" % (t,))
            for w, d in case["texts"]:
                raw = None if d is None else sm.resolve(d) if d.startswith("@") else d.encode("latin1")
                words = list(w)
                if d and d.startswith("@") and INT.match(words[-1]) and len(words) > 1:
                    words[-1] = str(int(words[-1]) - len(d) + len(raw))
                text = join(words, raw)
                u = understood(text)
                want = m.step(u) if u else ("ERROR", 1)
                r = l.ask(text)
                if not model.match(want, r):
                    raise Violation("state %s: message %r -> %s, expected %s" % (m.state, text[:120], model.show(r), model.show(want)))
                if u:
                    good += 1
                else:
                    bad += 1
            # the session is unaffected
            for t in [("VERSION", 1), ("LIB", sm.one.encode()), ("FILE", b"x.moc"), ("FEATURE", b"test_licensed_feature")]:
                want = m.step(t)
                r = l.ask(msg(*t))
                if not model.match(want, r):
                    raise Violation("afterwards: %r -> %s, expected %s" % (t, model.show(r), model.show(want)))
            if l.pending(0.002):
                raise Violation("more replies than messages: %r" % l.buf[:100])
            lib.session_end(l)
        return good and bad, ["lve-" + case["state"]]

    def run_tool(self, case, env):
        h = env.proc("tool", self.b + "/h_tool")
        f = P.FakeLve(env.scratch, self.b + "/relay")
        try:
            w, d = case["text"]
            data = (d or "").encode("latin1")
            text = join(w, None if d is None else data)
            u = understood(text)
            h.send("start", 0, f.path.encode())
            t = f.accept()
            t.handshake()
            r = h.reply()
            if r.ret != 1:
                raise Violation("mlle_start_executable failed: %s" % r.line)
            call = case["call"]
            if call == "version":
                h.send("version", 0, 1, 1)
            elif call == "file":
                h.send("file", 0, 0, b"f")
            else:
                h.send(call, 0, b"arg")
            t.recv()
            # the command line travels in the first record; data may be cut anywhere
            i = len(join(w, None)) + (d is not None)
            cuts, pos = [], i + (0 if u and len(data) == 0 else min(len(data), 1))
            recs = [text[:pos]]
            for c in case["cuts"]:
                recs.append(text[pos:pos + c])
                pos += c
            recs.append(text[pos:])
            short = d is None or u is None and "\0" in "".join(w) or u is None and self.announced(w) is not None and self.announced(w) > len(data)
            for x in recs:
                if x:
                    t.send(x)
            if short:
                f.close()          # the rest never comes
            r = h.reply()
            self.judge(call, u, r, h, w, data)
            h.ask("free", 0)
            return u is None or u[0] in ("ERROR",) or bool(case["cuts"]) or u[0] not in ("YES",), ["tool-" + call]
        except P.Died as e:
            env.dropproc("tool")
            raise Violation("tool library: %s" % e)
        except P.Timeout:
            env.dropproc("tool")
            raise
        finally:
            f.close()

    @staticmethod
    def announced(w):
        """the length a lenient reader may wait for"""
        if w[0] in P.LENGTH and len(w) == 2 and INT.match(w[1]):
            return int(w[1])
        if w[0] in P.NUMLEN and len(w) == 3 and INT.match(w[1]) and INT.match(w[2]):
            return int(w[2])
        return None

    def judge(self, call, u, r, h, w, data):
        ok = {"version": ("VERSION",), "libpath": ("YES",), "feature": ("YES",), "returnfeature": ("YES",), "license": ("YES",),
              "returnlicense": ("YES",), "file": ("FILECONT",)}[call]
        want = u is not None and u[0] in ok and (call != "version" or u[1] == 1)
        if (r.ret == 1) != want:
            raise Violation("%s: reply %r gave ret=%d err=%s, expected %s" % (call, w, r.ret, r.err, "success" if want else "failure"))
        if u is not None and u[0] == "ERROR" and u[2].split(b"\0")[0][:1500] not in r.err[2]:
            raise Violation("%s: ERROR text %r is missing in %r" % (call, u[2][:60], r.err))
        if u is None and len(data) >= 5 and data in r.err[2]:
            raise Violation("%s: reply %r is not in the grammar but its data was reported: %r" % (call, w, r.err))
        if not want and (r.err is None or r.err[2] is None):
            raise Violation("%s: reply %r: failure without an error object" % (call, w))
        if want and r.err is not None:
            raise Violation("%s: success with an error object" % call)
        if want and call == "file":
            s = h.ask("size", 0)
            got = h.ask("read", 0, len(u[1]) + 10)
            if s.ret != len(u[1]) or (got.data if got.ret != -1 else b"") != u[1]:
                raise Violation("file contents differ from the reply (%d bytes)" % len(u[1]))
            h.ask("ffree", 0)
        if u is not None and u[0] == "NO" and call in ("feature", "license"):
            txt = u[1].split(b"\0")[0][:2047]
            if r.err[1] != 3 or r.err[2] != txt:
                raise Violation("NO text %r became %r" % (txt, r.err))


def ok_text(t):
    """texts on which the grammar is clear: single spaces, nothing after the line of forms without data"""
    w, d = t
    if any(x == "" or " " in x or "\n" in (x if i else x.lstrip("\n")) for i, x in enumerate(w)) or w[0].strip("\n") == "":
        return False
    c = w[0].lstrip("\n")
    form = 0 if c in P.SIMPLE else 1 if c in P.NUMBER else 2
    return not (form < 2 and d)


PROP = C05()
