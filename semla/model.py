"""Reference model of the LVE: what it has to answer to each well-formed message."""
import os

ANYERR = ("ERROR", None)


def E(code):
    return ("ERROR", code)


class LveModel:
    VERSION, TOOLS, LIB, LICENSE = "VERSION", "TOOLS", "LIB", "LICENSE"

    def __init__(self, trusted=True, glob=None, lookup=None):
        """lookup(libpath bytes, file path bytes) -> contents or None (no contents)"""
        self.state, self.lib = self.VERSION, None
        self.trusted, self.glob, self.lookup = trusted, glob, lookup or (lambda l, f: None)
        self.refused = False

    def step(self, m):
        """m: message tuple as of proto.msg arguments -> expected reply pattern."""
        c = m[0]
        if self.state == self.VERSION:
            if c == "VERSION":
                if m[1] >= 1:
                    self.state = self.TOOLS
                    return ("VERSION", 1)
                return E(2)
        elif self.state in (self.TOOLS, self.LIB):
            if c == "TOOLS" and self.state == self.TOOLS:
                self.state = self.LIB
                return ("VERSION", 4)
            if c == "LIB":
                if m[1] == b"":
                    return E(4)
                self.state, self.lib = self.LICENSE, m[1]
                if self.trusted and self.glob == "no":
                    self.refused = True
                    return E(7)
                return ("YES",)
        else:
            if c == "FEATURE":
                return ("YES",) if m[1] == b"test_licensed_feature" else ("NO", b"Feature not licensed")
            if c == "RETURNFEATURE":
                return ("YES",)
            if c in ("LICENSE", "RETURNLICENSE"):
                return ("NOTSIMPLE",)
            if c == "FILE":
                if not self.trusted or self.refused:
                    return ANYERR
                d = self.lookup(self.lib, m[1])
                return ANYERR if d is None else ("FILECONT", d)
        return E(1)


def match(want, got):
    if want[0] == "ERROR":
        return got[0] == "ERROR" and (want[1] is None or got[1] == want[1])
    return want == got


def show(m, n=120):
    return repr(tuple((x[:n] if isinstance(x, (bytes, bytearray)) else x) for x in m))
