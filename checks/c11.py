"""Key headers: written by obfuscate and randomize_key, compiled into a program and read back."""
import os
import random
import subprocess

from semla import build as B, gens as G, lib, util
from semla.engine import Prop, Violation, Inconclusive, generic_shrinks

TYPES = ["TOOL_PUBLIC", "TOOL_PRIVATE", "LVE_PRIVATE"]
VARS = ["K", "PUBLIC_KEY_TOOL", "PRIVATE_KEY_LVE", "key", "_x9", "A_LEN_B", "a" * 60, "INITIALIZE_K", "Key2", "b", "PRIVATE_KEY_TOOL"]
PEMS = ["tool", "toolb.pub", "evil", "ec", "lve", "big"]
BAD = ["noargs", "one", "three", "five", "type", "typecase", "emptytype", "missing", "inputdir", "outdir", "outisdir", "rnoargs", "rone", "rthree", "routdir", "empty"]


def content(spec):
    k = spec[0]
    if k == "pem":
        d = lib.get("%s/%s.pem" % (B.KEYS, spec[1]))
        return {0: d, 1: d.replace(b"\n", b"\r\n"), 2: d.rstrip(b"\n"), 3: d.rstrip(b"\n").replace(b"\n", b"\r\n"), 4: d + b"\r\n\r\n"}[spec[2]]
    if k == "hex":
        return bytes.fromhex(spec[1])
    if k == "all":
        r = random.Random(spec[1])
        x = list(range(256))
        r.shuffle(x)
        return bytes(x) * spec[2]
    return G.data([spec[1], spec[2], spec[3]])


def gen_content(rng):
    x = rng.random()
    if x < 0.25:
        return ["pem", rng.choice(PEMS), rng.randrange(5)]
    if x < 0.4:
        return ["all", rng.randrange(1000), rng.choice([1, 1, 2, 5])]
    if x < 0.65:
        return ["hex", bytes(rng.choices(b"\r\n\0'\"\\?/aAfF0x\xff\x80\x7f%\t \x1a", k=rng.randrange(1, 40))).hex()]
    return ["data", rng.randrange(6), rng.choice([1, 2, 3, 15, 16, 17, 100, 255, 256, 257, 1023, 1024, 1025, 1700, 2047, 2048, 2049, 3300, 4097]), rng.randrange(1 << 30)]


class C11(Prop):
    id = "C11"
    rule = ("a case is a set of key files with variable names and key types plus a number of random keys, all compiled into one program, or a "
            "failing command line; non-trivial: a key of 2 or more bytes with a carriage return, NUL, quote, backslash or byte above 127, or random keys")
    quick_n, thorough_n = 400, 5000
    share, alt_corpus = 5, 6
    assumptions = ["variable names are C identifiers that do not collide with each other's macros", "key files are not empty (an empty one is rejected)"]

    def gen(self, rng):
        x = rng.random()
        if x < 0.15:
            return dict(bad=rng.choice(BAD), keys=[[gen_content(rng), "K", rng.choice(TYPES)]], cut=0)
        if x < 0.3:
            return dict(bad="fault", keys=[[gen_content(rng), "K", rng.choice(TYPES)]] if rng.random() < 0.8 else [], cut=rng.randrange(10000))
        vs = rng.sample(VARS, rng.randrange(1, 5))
        return dict(keys=[[gen_content(rng), v, rng.choice(TYPES)] for v in vs], rand=rng.choice([0, 0, 1, 2, 5]), optimize=rng.choice([0, 0, 0, 2]))

    def corpus(self):
        out = [dict(keys=[], rand=200, optimize=0) for _ in range(3)]
        out += [dict(bad=b, keys=[[["hex", "414243"], "K", "TOOL_PUBLIC"]], cut=0) for b in BAD]
        for i in range(0, 256, 16):
            out.append(dict(keys=[[["hex", bytes(range(i, i + 16)).hex()], "K", TYPES[i // 16 % 3]]] + [[["hex", "%02x" % b], "k%d" % b, TYPES[b % 3]] for b in range(i, i + 16)], rand=0, optimize=0))
        for p in PEMS:
            out.append(dict(keys=[[["pem", p, v], "K%d" % v, TYPES[v % 3]] for v in range(5)], rand=0, optimize=0))
        for h in ("0d", "0d0d", "0d0a", "410d", "0d41", "0a0d0a0d", "410d0a420d0a430d0a", "0d" * 50 + "41", "41" * 50 + "0d" * 50, "00", "0000", "410042"):
            out.append(dict(keys=[[["hex", h], "K", t]  for t in TYPES[:1]], rand=1, optimize=0))
        # beyond what 16 bits count
        out.append(dict(keys=[[["hex", bytes(i * 7 % 251 for i in range(66001)).hex()], "K", "LVE_PRIVATE"]], rand=0, optimize=0))
        return out

    def valid(self, case):
        for s, v, t in case["keys"]:
            if t not in TYPES or not v.isidentifier() or not content(s):
                return False
        return len({v for _, v, _ in case["keys"]}) == len(case["keys"])

    def shrinks(self, case):
        for i in range(len(case["keys"])):
            yield {**case, "keys": case["keys"][:i] + case["keys"][i + 1:]}
        for i, (s, v, t) in enumerate(case["keys"]):
            d = content(s).hex()
            if s[0] != "hex":
                yield {**case, "keys": case["keys"][:i] + [[["hex", d], v, t]] + case["keys"][i + 1:]}
            else:
                n = len(d) // 2
                k = n // 2
                while k >= 1:
                    for a in range(0, n, k):
                        yield {**case, "keys": case["keys"][:i] + [[["hex", d[:2 * a] + d[2 * (a + k):]], v, t]] + case["keys"][i + 1:]}
                    k //= 2
        if case.get("rand"):
            yield {**case, "rand": case["rand"] // 2}

    def run(self, case, env):
        d = env.newdir()
        try:
            return self.fail(case, d) if case.get("bad") else self.good(case, d)
        finally:
            env.drop(d)

    def fail(self, case, d):
        ob, rk, b = self.b + "/obfuscate", self.b + "/randomize_key", case["bad"]
        keys = case["keys"] or [[["hex", "41"], "K", "TOOL_PUBLIC"]]
        inp, out, t = d + "/in.pem", d + "/out.h", keys[0][2]
        lib.put(inp, content(keys[0][0]))
        if b == "fault":
            argv = [ob, out, inp, "K", t] if case["keys"] else [rk, out, "K"]
            if util.run(argv).rc != 0:
                raise Violation("%s failed" % os.path.basename(argv[0]))
            n = os.path.getsize(out)
            os.unlink(out)
            # the random key's header varies by a few bytes in length
            lim = case["cut"] % max(1, n - 40)
            r = util.run(argv, fsize=lim)
            if r.rc == 0:
                raise Violation("%s: exit status 0 though only %d of %d bytes of the header could be written" % (os.path.basename(argv[0]), lim, n))
            return True, ["fault"]
        lib.put(d + "/empty", b"")
        argv = {"noargs": [ob], "one": [ob, out], "three": [ob, out, inp, "K"], "five": [ob, out, inp, "K", t, "x"], "type": [ob, out, inp, "K", "ENCRYPT"],
                "typecase": [ob, out, inp, "K", t.lower()], "emptytype": [ob, out, inp, "K", ""], "missing": [ob, out, d + "/none", "K", t], "inputdir": [ob, out, d, "K", t],
                "outdir": [ob, d + "/no/out.h", inp, "K", t], "outisdir": [ob, d, inp, "K", t], "rnoargs": [rk], "rone": [rk, out], "rthree": [rk, out, "K", "x"],
                "routdir": [rk, d + "/no/out.h", "K"], "empty": [ob, out, d + "/empty", "K", t]}[b]
        r = util.run(argv)
        if r.rc == 0:
            raise Violation("%s: exit status 0" % b)
        if lib.get(inp) != content(keys[0][0]):
            raise Violation("%s: input file changed" % b)
        return True, ["bad-" + b]

    def good(self, case, d):
        items = []        # (variable, expected bytes or None)
        for i, (s, v, t) in enumerate(case["keys"]):
            data = content(s)
            lib.put("%s/in%d" % (d, i), data)
            r = util.run([self.b + "/obfuscate", "%s/h%d.h" % (d, len(items)), "%s/in%d" % (d, i), v, t])
            if r.rc:
                raise Violation("obfuscate: exit status %d: %s" % (r.rc, r.text[-200:]))
            if lib.get("%s/in%d" % (d, i)) != data:
                raise Violation("obfuscate changed its input")
            items.append((v, data.replace(b"\r", b"")))
        for i in range(case["rand"]):
            v = "RND%d" % i
            r = util.run([self.b + "/randomize_key", "%s/h%d.h" % (d, len(items)), v])
            if r.rc:
                raise Violation("randomize_key: exit status %d: %s" % (r.rc, r.text[-200:]))
            items.append((v, None))
        src = ['#include <stdio.h>', '#include <string.h>',
               'static void hex(const unsigned char *p, size_t n) { size_t i; for (i = 0; i < n; i++) printf("%02x", p[i]); printf("\\n"); }']
        for i, (v, _) in enumerate(items):
            src.append('#include "h%d.h"' % i)
            src.append("static int f%d(int c) { DECLARE_%s(); int k; for (k = 0; k < 2; k++) { memset(%s, 0x5a, sizeof(%s)); if (c) INITIALIZE_%s(); else return 1;"
                       ' printf("%%ld %%ld\\n", (long) sizeof(%s), (long) %s_LEN); hex(%s, sizeof(%s)); CLEAR_%s(); hex(%s, sizeof(%s)); } return 0; }'
                       % ((i,) + (v,) * 11))
        src.append("int main(int c, char **v) { " + " ".join("f%d(c);" % i for i in range(len(items))) + " return 0; }")
        lib.put(d + "/p.c", "\n".join(src).encode())
        big = sum(len(x[1] or b"") for x in items) > 1500 or len(items) > 50
        flags = ["-O2"] if case.get("optimize") and not big else ["-O0", "-fsanitize=address"]
        huge = sum(len(x[1] or b"") for x in items) > 10000       # gcc takes minutes for these
        r = subprocess.run(["clang" if huge else "gcc", "-w"] + flags + ["-I", d, "-o", d + "/p", d + "/p.c"], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Violation("a program with the headers does not compile: %s" % r.stderr[:300])
        q = util.run([d + "/p"], what="program with the headers")
        if q.rc:
            raise Violation("program with the headers: exit status %d" % q.rc)
        lines = q.out.decode().split("\n")
        rnd, nontriv = [], case["rand"] > 0
        for i, (v, want) in enumerate(items):
            for k in range(2):
                sz, ln = map(int, lines[6 * i + 3 * k].split())
                arr, clr = bytes.fromhex(lines[6 * i + 3 * k + 1]), bytes.fromhex(lines[6 * i + 3 * k + 2])
                n = 32 if want is None else len(want)
                if ln != n:
                    raise Violation("%s_LEN is %d, expected %d" % (v, ln, n))
                if sz < n + 1 or arr[n] != 0:
                    raise Violation("%s is not NUL-terminated (array of %d, key of %d bytes)" % (v, sz, n))
                if want is not None and arr[:n] != want:
                    j = next(j for j in range(n) if arr[j] != want[j])
                    raise Violation("%s differs from the key file at byte %d: %02x instead of %02x" % (v, j, arr[j], want[j]))
                if any(clr):
                    raise Violation("%s is not cleared: %s" % (v, clr.hex()[-80:]))
                if want is None:
                    rnd.append(arr[:32])
                    if k and rnd[-1] != rnd[-2]:
                        raise Violation("a second INITIALIZE gave another key")
                elif n > 1 and any(c in b"\0'\"\\" or c > 127 for c in want) or want is not None and b"\r" in content(case["keys"][i][0]):
                    nontriv = True
        rnd = rnd[::2]
        if len(set(rnd)) != len(rnd):
            raise Violation("randomize_key gave the same key twice")
        if len(rnd) >= 150:
            self.stat(rnd)
        return nontriv, ["keys%d" % len(case["keys"])]

    def stat(self, keys):
        al = b"".join(keys)
        miss = set(range(256)) - set(al)
        if miss:
            raise Violation("%d random keys never contain the bytes %s" % (len(keys), sorted(miss)[:20]))
        e = len(al) / 256
        chi = sum((al.count(b) - e) ** 2 / e for b in range(256))
        if chi > 520:      # 255 degrees of freedom: far beyond 1e-15
            raise Violation("bytes of %d random keys are not uniform: chi-square %.0f" % (len(keys), chi))
        for p in range(32):
            if len({k[p] for k in keys}) < len(keys) // 4:
                raise Violation("byte %d of the random keys hardly varies" % p)
            for b in range(8):
                ones = sum(k[p] >> b & 1 for k in keys)
                if abs(ones - len(keys) / 2) > 8 * (len(keys) ** 0.5) / 2:
                    raise Violation("bit %d of byte %d of %d random keys is set in %d" % (b, p, len(keys), ones))


PROP = C11()
