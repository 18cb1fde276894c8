"""The property-based testing engine: seeded case streams over parallel workers,
shrinking, confirmation by re-running, replay files and evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as B
from . import proto as P

VERIF = B.VERIF


class Violation(Exception):
    """The property does not hold for this case. soft=True: the evidence is the
    absence of an event within a time limit, so it must repeat every time."""

    def __init__(self, text, soft=False):
        super().__init__(text)
        self.soft = soft


class Inconclusive(Exception):
    pass


class Env:
    """Per-worker resources."""

    def __init__(self, prop):
        self.prop = prop
        self.scratch = tempfile.mkdtemp(prefix="semla-%s-" % prop.id, dir=os.environ.get("SEMLA_SCRATCH", "/tmp"))
        os.chmod(self.scratch, 0o755)
        self.n = 0
        self.procs = {}
        self._alt = None

    def alt(self):
        """the environment of the cases run with the optimised build"""
        if self._alt is None:
            self._alt = Env(self.prop.alt)
        return self._alt

    def newdir(self):
        self.n += 1
        d = os.path.join(self.scratch, "d%d" % self.n)
        os.mkdir(d)
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def proc(self, name, binary):
        p = self.procs.get(name)
        if p is not None and p.p.poll() is None:
            return p
        if p is not None:
            p.kill()
        self.procs[name] = p = P.LineProc(binary)
        return p

    def dropproc(self, name):
        p = self.procs.pop(name, None)
        if p is not None:
            p.kill()

    def close(self):
        if self._alt is not None:
            self._alt.close()
        for p in self.procs.values():
            try:
                p.kill()
            except Exception:
                pass
        self.procs = {}
        shutil.rmtree(self.scratch, ignore_errors=True)


class Prop:
    id = "?"
    rule = ""
    level = "exploration"
    configs = ["asan"]
    quick_n = 500
    thorough_n = 10000
    quick_s = 150          # time caps, not targets
    thorough_s = 700
    assumptions = []
    share = 3              # every third case is run with the optimised build instead of the ASan one; 0: none
    alt = None
    alt_corpus = 1         # and every so many of the corpus

    def setup(self):
        self.bin = {}
        for c in self.configs:
            self.bin[c] = B.build(c)
        self.b = self.bin[self.configs[0]]
        if self.configs == ["asan"] and self.share:
            self.alt = type(self)()
            self.alt.configs, self.alt.share, self.alt.tier, self.alt.seed = ["rel"], 0, self.tier, self.seed
            self.alt.setup()

    def corpus(self):
        return []

    def gen(self, rng):
        raise NotImplementedError

    def run(self, case, env):
        """Returns (nontrivial: bool, tags: iterable of str) or raises Violation."""
        raise NotImplementedError

    def valid(self, case):
        return True

    def shrinks(self, case):
        return generic_shrinks(case)

    def known(self, case, text):
        return None

    def final(self, stats):
        """Checks over the whole run (e.g. distinctness); may raise Violation."""


# ---------------------------------------------------------------- shrinking

def generic_shrinks(v):
    """Smaller JSON values of the same shape, largest cuts first."""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i in range(n):
            for s in generic_shrinks(v[i]):
                yield v[:i] + [s] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for s in generic_shrinks(v[k]):
                yield {**v, k: s}
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v:
            yield 0
            if abs(v) > 1:
                yield v // 2 if v > 0 else -(-v // 2)
                yield v - 1 if v > 0 else v + 1
    elif isinstance(v, str):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2


def listed(prop, case, text):
    """The open entry of known_findings.jsonl that this failure is, if any."""
    prop, case = split(prop, case)
    k = prop.known(case, text)
    if not k:
        return None
    with open(VERIF + "/known_findings.jsonl") as f:
        for line in f:
            e = json.loads(line)
            if e.get("status") == "open" and e["property"] == prop.id and e["key"] == k:
                return e["what"]
    return None


def cj(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


ALT = "_build"


def split(prop, case):
    """A case with the key "_build" is for the optimised build."""
    if isinstance(case, dict) and ALT in case and prop.alt is not None:
        return prop.alt, {k: v for k, v in case.items() if k != ALT}
    return prop, case


def attempt(prop, case, env):
    """-> ('ok', (nontrivial, tags)) | ('bad', text, soft) | ('inc', text)"""
    if split(prop, case)[0] is not prop:
        prop, case = split(prop, case)
        r = attempt(prop, case, env.alt())
        if r[0] == "ok":
            r[2].append("build-rel")
        return r
    try:
        r = prop.run(case, env)
        return ("ok",) + ((bool(r[0]), list(r[1])) if r else (False, []))
    except Violation as e:
        return ("bad", str(e), e.soft)
    except P.Timeout as e:
        return ("bad", "no answer within %g s (%s)" % (P.TIMEOUT, e), True)
    except P.Died as e:
        return ("bad", "the program under test ended or closed the connection: %s" % e, False)
    except P.BadReply as e:
        return ("bad", "malformed reply: %s" % e, False)
    except Inconclusive as e:
        return ("inc", str(e))
    except Exception as e:
        # an unexpected ending of the code under test is the case's own business;
        # an error of the checker must not become an alarm
        return ("inc", "checker: " + "".join(traceback.format_exception_only(type(e), e)).strip()
                + " | " + traceback.format_exc()[-800:])


def case_rng(seed, pid, i):
    return random.Random("%s/%s/%d" % (pid, seed, i))


def worker(prop, seed, w, nw, n, deadline, q, stop, corpus):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env = Env(prop)
    st = dict(evals=0, nontrivial=set(), tags={}, samples=[], inc=[], bad=None, gen_errors=0)
    try:
        total = len(corpus) + n
        for i in range(w, total, nw):
            if stop.is_set() or time.time() > deadline:
                break
            if i < len(corpus):
                case = corpus[i]
            else:
                case = prop.gen(case_rng(seed, prop.id, i - len(corpus)))
                if prop.alt is not None and (i - len(corpus)) // nw % prop.share == prop.share - 1:
                    case = {**case, ALT: "rel"}
            r = attempt(prop, case, env)
            st["evals"] += 1
            if r[0] == "ok":
                for t in r[2]:
                    st["tags"][t] = st["tags"].get(t, 0) + 1
                if r[1]:
                    h = hashlib.sha256(cj(case).encode()).hexdigest()[:16]
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and i >= len(corpus):
                        st["samples"].append(case)
            elif r[0] == "inc":
                st["inc"].append((i, r[1]))
                if len(st["inc"]) > 200:
                    break
            else:
                k = listed(prop, case, r[1])
                if k:
                    st["tags"]["known:" + k] = st["tags"].get("known:" + k, 0) + 1
                    continue
                st["bad"] = (i, case, r[1], r[2])
                stop.set()
                break
    except Exception:
        st["inc"].append((-1, "worker: " + traceback.format_exc()[-1500:]))
    finally:
        env.close()
    q.put((w, st))


def confirm(prop, case, soft):
    """Re-runs a failing case in fresh environments. Returns the failure text or None."""
    runs, need = (3, 3) if soft else (10, 1)
    hits, text = 0, None
    for _ in range(runs):
        env = Env(prop)
        try:
            r = attempt(prop, case, env)
        finally:
            env.close()
        if r[0] == "bad" and not listed(prop, case, r[1]):
            hits += 1
            text = r[1]
            if hits >= need:
                return text
        elif need == runs:
            return None
    return None


def shrink(prop, case, text, soft, budget):
    dl = time.time() + budget
    best, btext = case, text
    env = Env(prop)
    seen = {cj(case)}
    try:
        progress = True
        while progress and time.time() < dl:
            progress = False
            inner, plain = split(prop, best)
            mark = {} if inner is prop else {ALT: best[ALT]}
            for c in inner.shrinks(plain):
                if time.time() > dl:
                    break
                try:
                    if not inner.valid(c):
                        continue
                    c = {**c, **mark} if mark else c
                except Exception:
                    continue
                j = cj(c)
                if j in seen:
                    continue
                seen.add(j)
                ok = 0
                for _ in range(2 if soft else 1):
                    r = attempt(prop, c, env)
                    if r[0] == "bad" and not listed(prop, c, r[1]):
                        ok += 1
                    else:
                        break
                if ok == (2 if soft else 1):
                    best, btext = c, r[1]
                    progress = True
                    break
    finally:
        env.close()
    return best, btext


def clip(v, n=300):
    if isinstance(v, str):
        return v if len(v) <= n else v[:n] + "...(%d)" % len(v)
    if isinstance(v, list):
        return [clip(x, n) for x in v[:40]] + (["...(%d)" % len(v)] if len(v) > 40 else [])
    if isinstance(v, dict):
        return {k: clip(x, n) for k, x in v.items()}
    return v


def write_evidence(prop, tier, seed, t0, cov, violations):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov,
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = VERIF + "/evidence/.%s.tmp" % prop.id
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % prop.id)


def violation(prop, case, text, seed, tier):
    d = VERIF + "/replays"
    os.makedirs(d, exist_ok=True)
    path = "%s/%s-%s.json" % (d, prop.id, hashlib.sha256(cj(case).encode()).hexdigest()[:10])
    with open(path, "w") as f:
        json.dump(dict(property=prop.id, seed=seed, tier=tier, what=text, case=case,
                       run="python3 check.py %s --replay %s" % (prop.id, path)), f, indent=1)
    print("what: " + text[:1500])
    print("case: " + cj(clip(case))[:1500])
    print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)


def run_check(prop, tier, seed, scale=1.0, nworkers=None):
    t0 = time.time()
    prop.tier, prop.seed = tier, seed
    try:
        prop.setup()
    except B.BuildError as e:
        # A tree that does not build is not a verdict about the property.
        print("cannot build /repo's working tree: %s" % str(e)[-3000:])
        write_evidence(prop, tier, seed, t0, dict(evaluations=0, distinct_nontrivial=0, rule=prop.rule,
                                                  samples=[], note="build failed"), 0)
        return 2
    n = int((prop.quick_n if tier == "quick" else prop.thorough_n) * scale)
    cap = prop.quick_s if tier == "quick" else prop.thorough_s
    deadline = time.time() + cap
    nw = nworkers or int(os.environ.get("SEMLA_WORKERS", min(8, os.cpu_count() or 4)))
    corpus = list(prop.corpus())
    if prop.alt is not None:
        corpus += [{**c, ALT: "rel"} for c in corpus[::prop.alt_corpus] if isinstance(c, dict) and "giant" not in c and ALT not in c]
    q, stop = mp.Queue(), mp.Event()
    ws = [mp.Process(target=worker, args=(prop, seed, w, nw, n, deadline, q, stop, corpus)) for w in range(nw)]
    for p in ws:
        p.start()
    res = {}
    hard = deadline + 120
    while len(res) < nw and time.time() < hard:
        try:
            w, st = q.get(timeout=1)
            res[w] = st
        except queue.Empty:
            if all(not p.is_alive() for p in ws) and q.empty():
                break
    for p in ws:
        p.join(5)
        if p.is_alive():
            p.terminate()
    st = dict(evals=0, nontrivial=set(), tags={}, samples=[], inc=[], bad=[])
    for w in sorted(res):
        r = res[w]
        st["evals"] += r["evals"]
        st["nontrivial"] |= r["nontrivial"]
        for k, v in r["tags"].items():
            st["tags"][k] = st["tags"].get(k, 0) + v
        st["samples"] += r["samples"]
        st["inc"] += r["inc"]
        if r["bad"]:
            st["bad"].append(r["bad"])
    found = None
    unconfirmed = []
    for i, case, text, soft in sorted(st["bad"], key=lambda b: (b[3], b[0])):
        c2, t2 = shrink(prop, case, text, soft, float(os.environ.get("SEMLA_SHRINK", 60 if tier == "quick" else 180)))
        t3 = confirm(prop, c2, soft)
        if t3:
            found = (c2, t3)
            break
        t3 = confirm(prop, case, soft)
        if t3:
            found = (case, t3)
            break
        unconfirmed.append((i, text))
    cov = dict(evaluations=st["evals"], distinct_nontrivial=len(st["nontrivial"]), rule=prop.rule,
               samples=[clip(s) for s in st["samples"][:6]], classes=dict(sorted(st["tags"].items())),
               corpus=len(corpus), planned=n + len(corpus), inconclusive=len(st["inc"]),
               unconfirmed=[t[:300] for _, t in unconfirmed], workers=nw)
    for i, t in st["inc"][:3]:
        print("note: case %d gave no answer: %s" % (i, t[:600]))
    write_evidence(prop, tier, seed, t0, cov, 1 if found else 0)
    for k in sorted(k for k in st["tags"] if k.startswith("known:")):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k[6:]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s"
          % (prop.id, tier, seed, st["evals"], len(st["nontrivial"]), len(st["inc"]), time.time() - t0))
    if found:
        violation(prop, found[0], found[1], seed, tier)
        return 1
    if len(st["inc"]) > max(5, st["evals"] // 5) or not res:
        return 2
    return 0


def run_replay(prop, path):
    prop.tier, prop.seed = "quick", 1
    prop.setup()
    case = json.load(open(path))["case"]
    for _ in range(3):
        env = Env(prop)
        try:
            r = attempt(prop, case, env)
        finally:
            env.close()
        print(r)
        if r[0] == "bad":
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
    return 0
