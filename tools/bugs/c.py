bug("c22-corrupt", "C22",
    [("lve/mlle_lve_file.c",
      """    if (decrypted_size < 0) {
        free(error_msg);
    }

    return error_code""",
      """    if (decrypted_size < -1) {
        free(error_msg);
    }

    return error_code""")],
    "a session that asks again and again for a file that cannot be decrypted",
    "each refused request leaves its error text allocated, so the memory of the LVE grows without bound",
    '''
os.makedirs(path("enc"))
put("enc/bad.moc", bytes(200))
l = Lve()
l.open("/" * 3900 + path("enc"))
def rss():
    return [int(x.split()[1]) for x in open("/proc/%d/status" % l.p.pid) if x.startswith("VmRSS")][0]
for _ in range(300):
    check(l.ask("FILE", "bad.moc")[0] == "ERROR", "bad.moc was served")
a = rss()
for _ in range(4000):
    l.ask("FILE", "bad.moc")
b = rss()
check(b - a < 8000, (a, b))
''')

bug("c22-emptyfd", "C22",
    [("common/mlle_io.c",
      """    *file_size = bytes_read;
    fclose(file);
""",
      """    *file_size = bytes_read;
    if (bytes_read > 0) {
        fclose(file);
    }
""")],
    "requests for empty files",
    "the descriptor stays open after each such request, until the LVE can open no more files",
    '''
os.makedirs(path("enc"))
put("enc/t.txt", b"t")
put("enc/e.txt", b"")
l = Lve()
l.open(path("enc"))
n = lambda: len(os.listdir("/proc/%d/fd" % l.p.pid))
check(l.ask("FILE", "t.txt")[2] == b"t", "t.txt")
a = n()
for _ in range(50):
    check(l.ask("FILE", "e.txt")[0] == "FILECONT", "e.txt")
check(n() <= a, (a, n()))
''')

bug("c07-retry", "C07",
    [("common/mlle_ssl.c",
      """                case SSL_ERROR_SYSCALL:
                    errorResult = -1;
                    break;
                case SSL_ERROR_SSL:
                    errorResult = -1;
                    break;
                default:""",
      """                case SSL_ERROR_SYSCALL:
                case SSL_ERROR_SSL:
                    errorResult = 0;
                    break;
                default:""")],
    "an LVE whose answer is damaged on the way, or that ends without an orderly TLS shutdown",
    "the call reads again for ever instead of failing",
    '''
crt, key = cert("lve")
p = put("fake", ("""#!/usr/bin/python3
import os, sys
sys.path.insert(0, %r)
os.chdir(%r)
import ssl
from dl import Tls, Gone
c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
c.load_cert_chain(%r, %r)
t = Tls(0, 1, c, True)
t.shake()
t.message()
os.write(1, b"\\\\x17\\\\x03\\\\x03\\\\x00\\\\x20" + bytes(32))
os.read(0, 100)
""" % (HERE, REPO, crt, key)).encode())
os.chmod(p, 0o755)
try:
    r = tool_driver(r"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <signal.h>
int main(int c, char **v) {
    struct mlle_error *e = NULL;
    signal(SIGPIPE, SIG_IGN);
    struct mlle_connections *l = mlle_start_executable(v[1], &e);
    if (!l) return 3;
    if (mlle_tool_version(l, 1, 1, &e)) return 4;
    puts("failed");
    mlle_connections_free(&l);
    return 0;
}""", p, timeout=20)
except subprocess.TimeoutExpired:
    check(False, "mlle_tool_version does not return")
check(r.returncode == 0 and b"failed" in r.stdout, r)
''')

bug("c15-order", "C15",
    [("decryptors/default/src/mlle_cr_encrypt.c",
      """        if (map_item != NULL) {
              /* if this is a package.mo file then there should not be any mask for in the table yet*/
              fprintf(stderr, "Found key mask in the table while working on %s; package.mo must be encrypted first\\n", rel_file_path);
              return -1;
        }
""",
      """        if (map_item != NULL) {
              HASH_DEL(key_mask_map, map_item);
              context->keymask_map = key_mask_map;
              free(map_item);
        }
""")],
    "package.mo of a directory encrypted after another file of that directory",
    "the encryption succeeds, but the file that was encrypted before is lost: no LVE can read it",
    '''
put("in/x.mo", b"model x end x;")
put("in/package.mo", b"package p end p;")
os.makedirs(path("enc/a"))
c = put("d.c", br"""
#include <stdio.h>
#include "mlle_cr_encrypt.h"
#include "mlle_cr_decrypt.h"
int main(int argc, char **v) {
    mlle_cr_context *c = mlle_cr_create(v[1]);
    int i, r = 0;
    for (i = 2; i + 2 < argc; i += 3) {
        FILE *in = fopen(v[i + 1], "rb"), *out = fopen(v[i + 2], "wb");
        if (!mlle_cr_encrypt(c, v[i], in, out)) r = 1;
        fclose(in);
        fclose(out);
    }
    return r;
}""")
must("gcc", "-w", "-g", c, *INC, "-o", path("d"), B + "/decryptors/decryptor/libdecryptor.a", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("d"), path("enc"), "a/x.mo", path("in/x.mo"), path("enc/a/x.moc"), "a/package.mo", path("in/package.mo"), path("enc/a/package.moc"))
if r.returncode == 0:
    l = Lve()
    l.open(path("enc"))
    check(l.ask("FILE", "a/x.moc")[2] == b"model x end x;", "a/x.moc cannot be read after a successful encryption")
''')

bug("c10-late", "C10",
    [("lve/mlle_lve_feature.c",
      """    if (lve_ctx->lic_mgr == NULL) {
        lve_ctx->lic_mgr = mlle_license_new(lve_ctx->libpath, error);
    }

    return lve_ctx->lic_mgr != NULL;""",
      """    static int tried = 0;

    if (lve_ctx->lic_mgr == NULL && !tried) {
        tried = 1;
        lve_ctx->lic_mgr = mlle_license_new(lve_ctx->libpath, error);
    }
    if (lve_ctx->lic_mgr == NULL && tried && (error == NULL || *error == NULL)) {
        mlle_error_set_literal(error, 1, 1, "No licence server.");
    }

    return lve_ctx->lic_mgr != NULL;""")],
    "a licence manager that cannot be set up at the first request of a session but can at a later one",
    "the licence manager is not asked again: all features stay refused for the rest of the session",
    '''
c = put("m.c", br"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_license_manager.h"
#include "mlle_lve_feature.h"
static int n;
struct mlle_license { int x; };
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e) {
    if (n++ == 0) { mlle_error_set_literal(e, 1, 1, "later"); return NULL; }
    return calloc(1, sizeof(struct mlle_license));
}
int mlle_license_checkout_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
int mlle_license_checkin_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
void mlle_license_free(struct mlle_license *l) { free(l); }
int main() {
    struct mlle_lve_ctx x;
    struct mlle_command f;
    memset(&x, 0, sizeof(x));
    memset(&f, 0, sizeof(f));
    x.libpath = "/tmp";
    f.data = "f"; f.length = 1;
    if (mlle_lve_feature(&x, &f, 1) != 0) return 3;
    return mlle_lve_feature(&x, &f, 1) == 1 ? 0 : 1;
}""")
must("gcc", "-w", "-g", c, REPO + "/src/lve/mlle_lve_feature.c", *INC, "-I" + REPO + "/src/license_managers/include", "-o", path("m"), B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("m"))
check(r.returncode == 0, r)
''')

bug("c01-cache", "C01",
    [("decryptors/default/src/mlle_cr_decrypt.c",
      """    HASH_ADD_KEYPTR(hh, key_mask_map, map_item->relpath, rel_path_len, map_item);  
""",
      """    HASH_ADD_KEYPTR(hh, key_mask_map, map_item->relpath, rel_path_len > 64 ? 64 : rel_path_len, map_item);
""")],
    "two sibling packages whose paths agree in the first 64 characters, or a path longer than that, in one session",
    "the mask of a long directory is kept under its first 64 characters, so files of a directory with just that path are decrypted with another directory's mask",
    '''
base = "d" * 30 + "/" + "e" * 33
def pk(d, names):
    for n in names:
        put("clear/" + d + "/" + n, ("%s in %s" % (n, d)).encode())
        os.makedirs(path("enc/" + d), exist_ok=True)
        check(encrypt(path("clear/" + d + "/" + n), d + "/" + n + "c", path("enc")).returncode == 0, "encrypt")
check(len(base) == 64, "length")
pk(base, ["x.mo"])
pk(base + "/sub", ["package.mo", "y.mo"])
l = Lve()
l.open(path("enc"))
for f in (base + "/sub/y.mo", base + "/x.mo", base + "/sub/package.mo", base + "/sub/y.mo"):
    d, n = f.rsplit("/", 1)
    r = l.ask("FILE", f + "c")
    check(r[2] == ("%s in %s" % (n, d)).encode(), (f, r))
''')

bug("c04-tools", "C04",
    [("lve/mlle_lve.c",
      """    case MLLE_LVE_STATE_LIB:
        mlle_lve_libpath(lve_ctx, command, is_in_checkout_feature_without_tool_mode);
        break;
""",
      """    case MLLE_LVE_STATE_LIB:
        if (!mlle_lve_libpath(lve_ctx, command, is_in_checkout_feature_without_tool_mode))
            next_state = current_state;
        break;
""")],
    "a session that asks for TOOLS and then gives a library path that is no directory",
    "LIB is answered YES, but the session stays where it was, so the commands that may follow are refused as not valid in this state",
    '''
l = Lve()
check(l.ask("VERSION", 1)[0] == "VERSION", "VERSION")
l.ask("TOOLS")
check(l.ask("LIB", path("nothing"))[0] == "YES", "LIB")
r = l.ask("FEATURE", "test_licensed_feature")
check(r[0] == "YES", r)
''')

bug("c08-empty", "C08",
    [("tool/mlle_licensing.c",
      """    if (file_contents->buffer == NULL) {
        file_contents->read_offset = file_contents->file_size;
        return -1;
    } else if""",
      """    if (file_contents->buffer == NULL || buffer_size == 0) {
        file_contents->read_offset = file_contents->file_size;
        return -1;
    } else if""")],
    "a read with a buffer of no bytes in the middle of a file",
    "the rest of the file is dropped: the next read reports the end",
    '''
f = fake_lve([b"VERSION 1\\n", b"YES\\n", b"FILECONT 10\\n0123456789"])
r = tool_driver(r"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <string.h>
int main(int c, char **v) {
    struct mlle_error *e = NULL;
    char b[20];
    struct mlle_connections *l = mlle_start_executable(v[1], &e);
    struct mlle_file_contents *f;
    if (!l || !mlle_tool_version(l, 1, 1, &e) || !mlle_tool_libpath(l, "/x", &e)) return 3;
    f = mlle_tool_file(l, "f", &e);
    if (!f) return 4;
    if (mlle_tool_read_bytes(f, b, 4) != 4) return 5;
    mlle_tool_read_bytes(f, b, 0);
    if (mlle_tool_read_bytes(f, b, 20) != 6 || memcmp(b, "456789", 6)) return 6;
    return 0;
}""", f)
check(r.returncode == 0, r)
''')

bug("c19-threads", "C19",
    [("common/mlle_ssl.c",
      """    char tmpBuffer[MSG_SIZE] = {0};""",
      """    static char tmpBuffer[MSG_SIZE];""")],
    "two threads of the tool use two connections at the same moment",
    "the bytes read for one connection end up in the reply of the other one",
    '''
put("drv.c", rb"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
static const char *exe;
static int bad;
static void *work(void *arg) {
    const char *lib = arg;
    int want = lib[strlen(lib) - 1], i;
    struct mlle_error *e = NULL;
    struct mlle_connections *l;
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    char *b = malloc(1 << 20);
    pthread_mutex_lock(&m);
    l = mlle_start_executable(exe, &e);
    pthread_mutex_unlock(&m);
    if (!l || !mlle_tool_version(l, 1, 1, &e) || !mlle_tool_libpath(l, lib, &e)) exit(3);
    for (i = 0; i < 300 && !bad; i++) {
        struct mlle_file_contents *f = mlle_tool_file(l, "f.txt", &e);
        size_t n, k;
        if (!f) { bad = 1; break; }
        n = mlle_tool_get_file_size(f);
        if (n != 200000 || mlle_tool_read_bytes(f, b, n) != n) bad = 1;
        for (k = 0; k < n; k++) if (b[k] != want) { bad = 1; break; }
        mlle_file_contents_free(&f);
    }
    return NULL;
}
int main(int c, char **v) {
    pthread_t t[4];
    int i;
    exe = v[1];
    for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, work, v[2 + i]);
    for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return bad;
}""")
libs = []
for ch in "abcd":
    put("lib" + ch + "/f.txt", ch.encode() * 200000)
    libs.append(path("lib" + ch))
must("gcc", "-w", path("drv.c"), *INC, "-o", path("drv"), B + "/libtool.a", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("drv"), B + "/lve_linux64", *libs, timeout=200)
check(r.returncode == 0, "a thread got other contents or none: %d" % r.returncode)
''')
