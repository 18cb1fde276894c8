bug("c02-negcache", "C02",
    [("decryptors/default/src/mlle_cr_decrypt.c", "    file_buffer = mlle_io_read_file(fullpath, &file_size, &error);\n", """    /* Do not look again and again for a file that does not exist. */
    static char missing[MLLE_LONG_FILE_NAME_MAX];
    if (strcmp(missing, fullpath) == 0) {
        mlle_error_set_literal(&error, 1, 1, "No such file.");
    } else {
        file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
        if (error && strlen(fullpath) < sizeof(missing))
            strcpy(missing, fullpath);
    }
""")],
    "a package.moc that is missing while the mask of its directory is needed for the first time, and restored in the same session",
    "the intact files of the directory are refused for the rest of the session",
    '''
os.makedirs(path("e"))
for n in ("package.mo", "x.mo"):
    put("c/" + n, b"within; package " + n.encode())
    check(encrypt(path("c/" + n), n + "c", path("e")).returncode == 0, "encrypt")
l = Lve()
check(l.open(path("e"))[0] == "YES", "LIB")
os.rename(path("e/package.moc"), path("away"))
check(l.ask("FILE", "x.moc")[0] == "ERROR", "served without its package.moc")
os.rename(path("away"), path("e/package.moc"))
r = l.ask("FILE", "x.moc")
check(r == ("FILECONT", None, b"within; package x.mo"), "after it was restored: %r" % (r,))
''')

bug("c19-opening", "C19",
    [("tool/mlle_spawn_posix.c", "    int parent_to_child_pipe_fd[2] = { -1, -1 };\n    int child_to_parent_pipe_fd[2] = { -1, -1 };\n",
      "    static int parent_to_child_pipe_fd[2] = { -1, -1 };\n    static int child_to_parent_pipe_fd[2] = { -1, -1 };\n")],
    "two threads of the tool that open connections at the same moment",
    "the threads use each other's pipes",
    '''
put("drv.c", rb"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
static const char *exe;
static int bad;
static void *work(void *arg) {
    int i;
    for (i = 0; i < 20 && !bad; i++) {
        struct mlle_error *e = NULL;
        struct mlle_connections *l = mlle_start_executable(exe, &e);
        if (!l || !mlle_tool_version(l, 1, 1, &e) || !mlle_tool_libpath(l, "/tmp", &e)) bad = 1;
        mlle_connections_free(&l);
    }
    return NULL;
}
int main(int c, char **v) {
    pthread_t t[6];
    int i;
    exe = v[1];
    signal(SIGPIPE, SIG_IGN);
    alarm(60);
    for (i = 0; i < 6; i++) pthread_create(&t[i], NULL, work, NULL);
    for (i = 0; i < 6; i++) pthread_join(t[i], NULL);
    return bad;
}""")
must("gcc", "-w", "-g", path("drv.c"), *INC, "-o", path("drv"), B + "/libtool.a", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("drv"), B + "/lve_linux64", timeout=120)
check(r.returncode == 0, "threads that open connections: status %d" % r.returncode)
''')

bug("c10-notify", "C10",
    [("lve/mlle_lve.c", "    if (lve_ctx->lic_mgr != NULL) {\n        mlle_license_free", "    if (lve_ctx->lic_mgr != NULL && (lve_ctx->ssl == NULL || SSL_get_shutdown(lve_ctx->ssl) != 0)) {\n        mlle_license_free")],
    "a tool that ends without saying goodbye",
    "the licences are not returned",
    '''
c = put("m.c", br"""
#include <stdio.h>
#include <stdlib.h>
#include "mlle_license_manager.h"
struct mlle_license { int x; };
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e) { return calloc(1, sizeof(struct mlle_license)); }
int mlle_license_checkout_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
int mlle_license_checkin_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
void mlle_license_free(struct mlle_license *l) { FILE *o = fopen(getenv("SEEN"), "wb"); fputs("free", o); fclose(o); free(l); }
""")
inc = INC + ["-I" + REPO + "/src/license_managers/include"]
for d in os.listdir(B):
    if os.path.isdir(B + "/" + d):
        inc.append("-I" + B + "/" + d)
import glob
must("gcc", "-w", "-g", c, *glob.glob(REPO + "/src/lve/*.c"), *inc, "-o", path("lve"), B + "/decryptors/decryptor/libdecryptor.a", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
for orderly in (True, False):
    seen = path("seen%d" % orderly)
    l = Lve(exe=path("lve"), env=dict(SEEN=seen))
    check(l.open(S)[0] == "YES", "LIB")
    check(l.ask("FEATURE", "x")[0] == "YES", "FEATURE")
    if orderly:
        try:
            l.s.unwrap()
        except ssl.SSLError:
            pass
        l._out()
    l.end()
    check(os.path.exists(seen), "licences not returned (%s)" % ("orderly" if orderly else "tool ended"))
''')
