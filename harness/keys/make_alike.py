"""Keys whose PEM text differs from a trusted one in one or two characters (run once, not by the
checks). The changed modulus is searched until it is a small prime times a large one, so that its
private key is known."""
import base64, os, random, re, sys
sys.argv = ["x"]
src = open("make_keys.py").read().split("rng = random.Random(20240229)")[0]
exec(src)
SMALL = [p for p in range(3, 20000, 2) if all(p % k for k in range(3, int(p ** .5) + 1, 2))]


def factor(n):
    for p in SMALL:
        if n % p == 0:
            q = n // p
            if (p - 1) % 65537 and q % p and isprime(q) and (q - 1) % 65537:
                return p, q
            return None
    return None


def body(name):
    ls = open(name + ".pub.pem").read().replace("\r", "").strip().split("\n")
    return "".join(ls[1:-1]), len(ls[1])


def modulus(b64, n0):
    der = base64.b64decode(b64)
    ref = n0.to_bytes(256, "big")
    return der


def make(out, name, choices):
    """choices(body, i): iterable of changed bodies"""
    b, w = body(name)
    n = parse(name + ".pem")["modulus"]
    raw = base64.b64decode(b)
    off = raw.index(n.to_bytes(256, "big"))
    for c in choices(b):
        r = base64.b64decode(c)
        if r[:off] != raw[:off] or r[off + 256:] != raw[off + 256:]:
            continue
        m = int.from_bytes(r[off:off + 256], "big")
        if m % 2 == 0 or m.bit_length() != 2048:
            continue
        f = factor(m)
        if f:
            der_key(f[0], f[1], 65537, out + ".pem")
            cert(out + ".pem", out + ".crt")
            print(out, [i for i in range(len(b)) if b[i] != c[i]], "of", len(b), "small factor", f[0])
            return
    raise SystemExit(out + ": none found")


A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def single(lo, hi):
    def f(b):
        r = random.Random(5)
        idx = [(i, a) for i in range(lo, min(hi, len(b))) for a in A if a != b[i]]
        r.shuffle(idx)
        for i, a in idx:
            yield b[:i] + a + b[i + 1:]
    return f


def case(b):
    L = [i for i in range(44, len(b) - 10) if b[i].isalpha()]
    for i in L:
        yield b[:i] + b[i].swapcase() + b[i + 1:]
    r = random.Random(6)
    for _ in range(100000):
        c = list(b)
        for i in r.sample(L, 2):
            c[i] = c[i].swapcase()
        yield "".join(c)


def swap(b):
    for i in range(60, 340):
        for j in range(i + 1, 340):
            c = list(b)
            c[i], c[j] = c[j], c[i]
            if b[i] != b[j]:
                yield "".join(c)


for nm in ("tool", "toolb", "toolc"):
    b, w = body(nm)
    make("near_%s_case" % nm, nm, case)
    make("near_%s_mid" % nm, nm, single(64 * 3, 64 * 3 + 40))
make("near_tool_first", "tool", single(44, 60))
make("near_tool_line1", "tool", single(64, 100))
make("near_tool_last", "tool", single(len(b) - 30, len(b) - 6))
make("near_tool_eol", "tool", lambda b: (x for k in range(1, 6) for x in single(64 * k - 1, 64 * k + 1)(b)))
make("near_tool_swap", "tool", swap)
# other certificates for the same keys: expired, issued by someone else, issued by the trusted key
open("ca.cnf", "w").write("[ca]\ndefault_ca=d\n[d]\ndatabase=db.txt\nserial=ser\nnew_certs_dir=.\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n")
for key, ca, out, days in (("tool", "tool", "tool_old", ("20000101000000Z", "20010101000000Z")), ("tool", "tool", "tool_future", ("20800101000000Z", "20810101000000Z")),
                           ("tool", "evil", "tool_issued", ("20200101000000Z", "20900101000000Z")), ("evil", "tool", "evil_issued", ("20200101000000Z", "20900101000000Z"))):
    open("db.txt", "w").close(); open("ser", "w").write("%02x" % (len(out) * 7))
    sh("openssl", "req", "-new", "-key", key + ".pem", "-subj", "/CN=" + out, "-out", "r.csr")
    sh("openssl", "ca", "-batch", "-config", "ca.cnf", "-keyfile", ca + ".pem", "-cert", ca + ".crt", "-in", "r.csr", "-out", out + ".crt", "-notext", "-startdate", days[0], "-enddate", days[1])
open("evil_issued_chain.crt", "w").write(open("evil_issued.crt").read() + open("tool.crt").read())
for f in os.listdir("."):
    if f.startswith("db.txt") or f.startswith("ser") or f in ("ca.cnf", "r.csr") or re.fullmatch(r"[0-9A-F]+\.pem", f):
        os.remove(f)
