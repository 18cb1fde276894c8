#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py LANE LANES COUNT SEED OUT [file-substring...]
Works on copies of /repo and /verif under /tmp/mut.LANE. Each mutant is a one-place change of
a source file; the checks listed for the file run against it until one reports it. Mutants
that no check reports are written to OUT for a look at whether a property misses them."""
import os, random, re, shutil, subprocess, sys, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = [("common/mlle_parse_command.c", "C05 C04 C06 C07 C08"), ("common/mlle_protocol.c", "C08 C04 C10"), ("common/mlle_ssl.c", "C04 C08 C16 C03 C06 C07 C01 C19"),
         ("common/mlle_utils.c", "C08 C07 C21 C16"), ("common/mlle_io.c", "C04 C08 C07 C09 C16 C06"), ("common/mlle_error.c", "C17 C08 C07"),
         ("decryptors/", "C01 C18 C15 C02"), ("embedfile/", "C11"), ("obfuscators/", "C11"), ("encrypt_decrypt/", "C18 C15 C02"),
         ("lve/lve.c", "C20 C04 C10"), ("lve/mlle_lve_feature.c", "C10 C20 C04"), ("lve/mlle_lve_file.c", "C09 C01 C02 C03 C16 C06"), ("lve/mlle_lve_libpath.c", "C04 C10 C09 C20 C01"),
         ("lve/mlle_lve_pubkey.c", "C03 C04"), ("lve/mlle_ssl_lve.c", "C03 C04 C16 C06 C19 C10"), ("lve/", "C04 C10 C21 C06 C05 C01 C19 C20"),
         ("packagetool/arguments.c", "C14 C13 C12"), ("packagetool/manifest.c", "C13 C14 C12"), ("packagetool/", "C12 C14 C13"),
         ("tool/mlle_spawn", "C19 C07 C08"), ("tool/mlle_ssl_tool", "C07 C08 C19 C16"), ("tool/", "C08 C07 C21 C19")]
OPS = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)\]] )\+(?= [\w(])", "-"), (r"(?<=[\w)\]] )-(?= [\w(])", "+"), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r"\b0\b(?!x)", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"!(?=\w)", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\+\+", "--"), (r"\btrue\b", "false")]


def strip(src):
    """source with comments, strings and character constants blanked"""
    out, i = list(src), 0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', src, re.S):
        for k in range(m.start(), m.end()):
            if out[k] != "\n":
                out[k] = "\x01"
    return "".join(out)


def mutants(path):
    src = open(path, newline="", encoding="latin1").read()
    st = strip(src)
    out, pos, win, prev, depth = [], 0, [], [], 0
    for line in st.split("\n"):
        t = line.strip()
        if t.startswith("#"):
            w = bool(re.search(r"\b(_?WIN32|_MSC_VER|DARWIN|__APPLE__)\b", t)) and "linux" not in t
            if re.match(r"#\s*if", t):
                win.append(w and "ifndef" not in t and "!" not in t)
                prev.append(w)
            elif re.match(r"#\s*elif", t) and win:
                win[-1] = w
            elif re.match(r"#\s*else", t) and win:
                win[-1] = prev[-1] and not win[-1]
            elif re.match(r"#\s*endif", t) and win:
                win.pop(), prev.pop()
        elif not any(win) and depth > 0:
            for rx, rep in OPS:
                for m in re.finditer(rx, line):
                    out.append((pos + m.start(), pos + m.end(), rep))
            if re.fullmatch(r"[\w\->.\[\]\s*]+=[^=].*;|[\w\->.]+\s*\(.*\);|\w[\w\->.]*(\+\+|--);|return[^;]*;|goto \w+;", t) and t.count("(") == t.count(")") \
                    and not re.match(r"(const |unsigned |static |int |char |size_t |struct |FILE |long |bool )", t):
                a = pos + line.index(t)
                out.append((a, a + len(t), ";"))
            for m in re.finditer(r"\bif \((.*)\)\s*\{?$", line.rstrip()):
                c = m.group(1)
                if c.count("(") == c.count(")"):
                    out.append((pos + m.start(1), pos + m.end(1), "0"))
                    out.append((pos + m.start(1), pos + m.end(1), "1"))
        depth += line.count("{") - line.count("}")
        pos += len(line) + 1
    return src, out


def checks(rel):
    for k, v in ORDER:
        if k in rel:
            return v.split()
    return []


def main():
    lane, lanes, count, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    subs = sys.argv[6:]
    top = "/tmp/mut.%d" % lane
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    subprocess.run("git -C /repo archive HEAD | (mkdir %s/repo && tar x -C %s/repo)" % (top, top), shell=True, check=True)
    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "build", "--exclude", "seeded", "--exclude", "replays", V + "/", top + "/verif/"]) if shutil.which("rsync") else \
        subprocess.run("mkdir %s/verif && tar c -C %s --exclude=.git --exclude=./build --exclude=./seeded --exclude=./replays . | tar x -C %s/verif" % (top, V, top), shell=True, check=True)
    env = dict(os.environ, SEMLA_REPO=top + "/repo", SEMLA_FIXEDBUILD="fixed", SEMLA_SHRINK="0", SEMLA_WORKERS="4", SEMLA_SCALE=os.environ.get("SEMLA_SCALE", "0.5"), VERIF_SEED=seed, VERIF_TIER="quick")
    pool = []
    root = top + "/repo/src"
    for d, sub, fs in os.walk(root):
        if "test" in d or "Test" in d:
            continue
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), root)
            if f.endswith(".c") and checks(rel) and "windows" not in rel and (not subs or any(s in rel for s in subs)):
                src, ms = mutants(os.path.join(d, f))
                pool += [(rel, m) for m in ms]
    pool.sort()
    random.Random(seed).shuffle(pool)
    print("%d mutants possible" % len(pool), flush=True)
    for n, (rel, (a, b, rep)) in enumerate(pool[:count]):
        if n % lanes != lane:
            continue
        p = os.path.join(root, rel)
        src = open(p, newline="", encoding="latin1").read()
        mut = src[:a] + rep + src[b:]
        ln = src.count("\n", 0, a) + 1
        open(p, "w", newline="", encoding="latin1").write(mut)
        t0, verdict, by = time.time(), "SURVIVED", ""
        try:
            for c in checks(rel):
                r = subprocess.run(["timeout", "-k", "5", "400", "python3", "check.py", c], cwd=top + "/verif", env=env, capture_output=True, text=True)
                if r.returncode == 2 and "cannot build" in r.stdout:
                    verdict = "nobuild"
                    break
                if r.returncode != 0:
                    verdict, by = ("killed" if r.returncode == 1 else "odd rc=%d" % r.returncode), c
                    break
        finally:
            open(p, "w", newline="", encoding="latin1").write(src)
        e = dict(verdict=verdict, by=by, file=rel, line=ln, old=src.split("\n")[ln - 1].strip(), new=mut.split("\n")[ln - 1].strip(), s=round(time.time() - t0))
        with open(outp, "a") as f:
            f.write(json.dumps(e) + "\n")
    print("done", flush=True)


main()
