"""Builds /repo's current working tree, with the project's own CMake files, into
/verif/build/<content hash>/<config>. The hash covers every file that can affect
the build, so a changed tree is always rebuilt and an unchanged one reused."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEMLA_REPO", "/repo")
KEYS = os.path.join(VERIF, "harness/keys")
BUILD = os.path.join(VERIF, "build")
ASAN_FLAGS = "-fsanitize=address -fno-omit-frame-pointer -g -w"
ASAN_ENV = ("detect_leaks=0:abort_on_error=0:exitcode=97:malloc_fill_byte=190:max_malloc_fill_size=1048576:"
            "allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:"
            "max_allocation_size_mb=2000:symbolize=1")
TRUSTED = ["toolb", "tool", "toolc"]     # order in the LVE's list; toolc's file has CRLF line ends
TARGETS = ["obfuscate", "randomize_key", "lve_linux64", "tool", "encrypt_file", "decrypt_file",
           "packagetool", "h_tool", "h_crypt", "h_error", "h_parse", "h_key", "relay", "spoil", "memstat"]


class BuildError(Exception):
    pass


def _files(root):
    for d, sub, fs in os.walk(root):
        sub[:] = sorted(s for s in sub if s not in (".git", "_build", "__pycache__"))
        for f in sorted(fs):
            yield os.path.join(d, f)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "ThirdParty"),
             os.path.join(VERIF, "harness")]
    for r in roots:
        for p in _files(r):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:20]


def _keydir(dst):
    os.makedirs(dst, exist_ok=True)
    rd = lambda n: open(os.path.join(KEYS, n), "rb").read()
    open(dst + "/private_key_lve.pem", "wb").write(rd("lve.pem"))
    open(dst + "/private_key_tool.pem", "wb").write(rd("tool.pem"))
    names = []
    for t in TRUSTED:
        data = rd(t + ".pub.pem")
        if t == "toolc":
            data = data.replace(b"\n", b"\r\n")
        open(f"{dst}/{t}.pub.pem", "wb").write(data)
        names.append(t + ".pub.pem")
    open(dst + "/public_key_tools.txt", "w").write("\n".join(names) + "\n")
    open(dst + "/tools.txt", "w").write("Tool A\nTool B\n")


CONFIGS = {
    "asan": dict(cflags=ASAN_FLAGS, defs=[]),
    # an LVE whose global license feature is the licensed one / one that is not
    "asan-glob-ok": dict(cflags=ASAN_FLAGS, defs=["-DGLOBAL_LICENSE_FEATURE=test_licensed_feature"]),
    "asan-glob-no": dict(cflags=ASAN_FLAGS, defs=["-DGLOBAL_LICENSE_FEATURE=other_feature"]),
    # a licence manager of the harness, which decides by name and records calls
    "asan-lm": dict(cflags=ASAN_FLAGS, defs=[], lm=f"{VERIF}/harness/lm"),
    "asan-lm-glob": dict(cflags=ASAN_FLAGS, defs=["-DGLOBAL_LICENSE_FEATURE=global_feature"], lm=f"{VERIF}/harness/lm"),
    # as the programs are shipped: optimised, with the compiler's own hardening
    "rel": dict(cflags="-w", defs=[], opt="-O2 -g -DNDEBUG", limit=True),
}


def prune(keep):
    try:
        ds = [d for d in os.listdir(BUILD) if d != keep and os.path.isdir(os.path.join(BUILD, d))]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in ds[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    except OSError:
        pass


def build(config="asan", targets=None):
    """Returns the build directory (bin files directly in it)."""
    targets = targets or TARGETS
    os.makedirs(BUILD, exist_ok=True)
    fixed = os.environ.get("SEMLA_FIXEDBUILD")      # for tools/mutate.py: one directory, rebuilt incrementally
    hsh = fixed or tree_hash()
    top = os.path.join(BUILD, hsh)
    os.makedirs(top, exist_ok=True)
    out = os.path.join(top, config)
    with open(os.path.join(top, config + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(out, "OK")
        have = set(open(stamp).read().split()) if os.path.exists(stamp) else set()
        if set(targets) <= have and not fixed:
            return out
        prune(hsh)
        cfg = CONFIGS[config]
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", ASAN_OPTIONS=ASAN_ENV,
                   LC_ALL="C.UTF-8", LANG="C.UTF-8")
        for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LD_LIBRARY_PATH", "LD_PRELOAD"):
            env.pop(v, None)
        if not have:
            shutil.rmtree(out, ignore_errors=True)
            keys = os.path.join(top, "keys")
            _keydir(keys)
            src = os.path.join(REPO, "src")
            cmd = ["cmake", "-Wno-dev", "-S", src, "-B", out, "-G", "Ninja",
                   "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                   # -O0: gcc needs 40 s for the embedded-key functions with ASan at -O1 and up
                   "-DCMAKE_C_FLAGS_RELWITHDEBINFO=" + cfg.get("opt", "-O0 -g -DNDEBUG"),
                   "-DCMAKE_C_FLAGS=" + cfg["cflags"], "-DCMAKE_CXX_FLAGS=" + cfg["cflags"],
                   f"-DDECRYPTOR={src}/decryptors/default",
                   "-DLICENSE_MANAGER=" + cfg.get("lm", f"{src}/license_managers/testingdummy"),
                   f"-DOBFUSCATOR={src}/obfuscators/dummy",
                   f"-DTOOL_PRIVATE_KEY_DIRECTORY={keys}", f"-DLVE_KEYS_DIRECTORY={keys}",
                   f"-DTOOLS_PUBLIC_KEYS_DIRECTORY={keys}",
                   "-DUSE_CUSTOM_OPENSSL_SUBDIRECTORY=ON",
                   f"-DCUSTOM_OPENSSL_SUBDIRECTORY={VERIF}/harness/custom",
                   "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                   f"-DFETCHCONTENT_SOURCE_DIR_ZIP_FETCHCONTENT={VERIF}/harness/zip"] + cfg["defs"]
            if cfg.get("limit"):
                o = os.path.join(top, config + ".limit.o")
                subprocess.run(["/usr/bin/gcc", "-c", VERIF + "/harness/src/limit.c", "-o", o], check=True)
                cmd.append("-DCMAKE_EXE_LINKER_FLAGS=" + o)
            r = subprocess.run(cmd, env=env, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("cmake failed\n" + r.stdout[-4000:] + r.stderr[-4000:])
        r = subprocess.run(["ninja", "-C", out] + sorted(set(targets)), env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("ninja failed\n" + r.stdout[-6000:] + r.stderr[-2000:])
        with open(stamp, "w") as f:
            f.write(" ".join(sorted(have | set(targets))))
    return out


if __name__ == "__main__":
    t = time.time()
    for c in sys.argv[1:] or ["asan"]:
        print(build(c), round(time.time() - t, 1))
