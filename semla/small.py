"""Two small fixed libraries with a lookup for the LVE model, and message generators."""
import os

from . import gens as G
from . import lib
from . import proto as P
from .proto import msg

L1 = [["", True, [1, 200, 11], [["x.mo", [1, 300, 12], True], ["plain.txt", [1, 150, 13], False]]],
      ["sub", True, [1, 100, 14], [["y.mo", [0, 777, 15], True], ["empty.txt", [0, 0, 1], False]]],
      ["nopkg", False, [0, 0, 0], [["z.mo", [0, 33, 16], True]]]]
L2 = [["", True, [1, 210, 21], [["x.mo", [1, 310, 22], True], ["plain.txt", [1, 160, 23], False]]],
      ["sub", False, [0, 0, 0], [["y.mo", [0, 70, 25], True]]]]
NAMES1 = [f[0] for f in lib.files(L1)]
OTHER = ["missing.moc", "sub", "", "nopkg/none.moc", "x.mo", "../two/x.moc", "sub/../x.moc"]


class Small:
    def __init__(self, prop, env):
        self.top = env.newdir()
        self.one, self.two = self.top + "/one", self.top + "/two"
        lib.build(prop, env, L1, "model", 1, self.top + "/c1", self.one)
        lib.build(prop, env, L2, "model", 2, self.top + "/c2", self.two)
        self.map = {self.one.encode(): {lib.fs(f[0]): f[1] for f in lib.files(L1)},
                    self.two.encode(): {lib.fs(f[0]): f[1] for f in lib.files(L2)}}

    def lookup(self, libpath, name):
        if libpath != b"/":
            libpath = libpath.rstrip(b"/\\")
            if len(libpath) >= 4000:            # longer than the system takes
                return None
            libpath = os.path.normpath(libpath)
        return self.map.get(libpath, {}).get(name)

    def secrets(self):
        return [d for m in self.map.values() for d in m.values() if len(d) > 20]

    def resolve(self, s):
        """'@one' '@two' '@none' name the libraries in cases"""
        return {"@one": self.one.encode(), "@two": self.two.encode(), "@none": (self.top + "/none").encode(),
                "@file": (self.one + "/plain.txt").encode()}.get(s) \
            or (s.replace("@one", self.one, 1).replace("@none", self.top + "/none", 1) if s.startswith("@") else s).encode("latin1")


def get(prop, env):
    s = getattr(env, "small", None)
    if s is None:
        s = env.small = Small(prop, env)
    return s


def gen_msg(rng, state=None):
    """[command, argument...] with string data"""
    c = rng.random()
    if state and c < 0.7:
        c = rng.choice({"VERSION": ["VERSION"], "TOOLS": ["TOOLS", "LIB"], "LIB": ["LIB"],
                        "LICENSE": ["FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE", "FILE", "FILE", "FILE"]}[state])
    else:
        c = rng.choice(P.ALL)
    return fill(rng, c)


FEATURES = ["test_licensed_feature", "test_licensed_feature", "other", "", "test_licensed_featur", "test_licensed_feature2",
            "Test_licensed_feature", "a b", "test", "test_licensed_feature ", "\xe5\xe4"]


def fill(rng, c):
    n = rng.choice([1, 20, 100, 128, 200, 256, 500, 512, 1000, 1024, 1900, 2048, 4000, 7000])
    if c in ("FILE", "FEATURE", "RETURNFEATURE", "LICENSE", "RETURNLICENSE") and rng.random() < 0.08:
        return [c, rng.choice(["x" * n, "/" * n, "test_licensed_feature" + " " * n, "sub/" * (n // 2), "\xff" * n, "%s" * n])]
    if c in P.SIMPLE:
        return [c]
    if c == "VERSION":
        return [c, rng.choice([1, 1, 1, 2, 0, -1, 5, 1000, 2**31 - 1, -2**31, 2**32, 2**32 + 1, -2**32 + 1, 2**40])]
    if c == "LIB":
        return [c, rng.choice(["@one", "@one", "@one", "@two", "@none", "", "@one/", "@file"]) if rng.random() < 0.8 else
                rng.choice(["@one" + "/." * n, "@one" + "/" * n, "@none" + "/x" * n, "@one/sub/.." + "/." * n])]
    if c == "FILE":
        return [c, rng.choice(NAMES1 + NAMES1 + OTHER)]
    if c in ("FEATURE", "RETURNFEATURE"):
        return [c, rng.choice(FEATURES)]
    if c == "ERROR":
        return [c, rng.randrange(-2, 12), rng.choice(["", "text"])]
    return [c, rng.choice(["", "x", "test_licensed_feature", "Lib"])]


def to_tuple(small, m):
    return tuple(small.resolve(x) if isinstance(x, str) and i else x for i, x in enumerate(m))


def valid_msg(m):
    if not m or m[0] not in P.ALL:
        return False
    n = 1 if m[0] in P.SIMPLE else 3 if m[0] == "ERROR" else 2
    if len(m) != n:
        return False
    if m[0] == "VERSION":
        return isinstance(m[1], int)
    if m[0] == "ERROR":
        return isinstance(m[1], int) and isinstance(m[2], str)
    return n == 1 or isinstance(m[1], str)
