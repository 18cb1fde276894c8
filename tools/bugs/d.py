LIBRARY = '''
def library(files):
    """Encrypts {path without the final c: contents}, package.mo first, to enc."""
    for f in sorted(files, key=lambda f: (f.count("/"), not f.endswith("package.mo"), f)):
        put("clear/" + f, files[f])
        os.makedirs(os.path.dirname(path("enc/" + f)), exist_ok=True)
        check(encrypt(path("clear/" + f), f + "c", path("enc")).returncode == 0, "encrypt " + f)
'''

bug("c05-tab", "C05",
    [("common/mlle_parse_command.c", """strtok_r(current_string, " ", &next_char)""", """strtok_r(current_string, " \\t", &next_char)"""),
     ("common/mlle_parse_command.c", """strtok_r(NULL, " ", &next_char)""", """strtok_r(NULL, " \\t", &next_char)""")],
    "a message with a tab where the space belongs, or a tab and more text after a command without arguments",
    "messages that do not match the grammar are understood and executed",
    '''
l = Lve()
check(l.ask("VERSION", 1)[0] == "VERSION", "VERSION")
l.send(b"LIB\\t1\\n/")
r = l.message()
check(r[0] == "ERROR" and r[1] == 1, r)
check(l.ask("LIB", path("x"))[0] == "YES", "LIB")
''')

bug("c08-readover", "C08",
    [("tool/mlle_licensing.c", "buffer_size < left_to_write ? buffer_size", "file_contents->read_offset + buffer_size < file_contents->file_size ? buffer_size")],
    "a read with a buffer size near the largest size_t after a part of the file was read",
    "the sum wraps, so far more than the file's rest is copied: a crash or foreign memory",
    '''
f = fake_lve([b"VERSION 1\\n", b"YES\\n", b"FILECONT 10\\n0123456789"])
r = tool_driver(r"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int c, char **v) {
    struct mlle_error *e = NULL;
    char *b = malloc(4096);
    struct mlle_connections *l = mlle_start_executable(v[1], &e);
    struct mlle_file_contents *f;
    if (!l || !mlle_tool_version(l, 1, 1, &e) || !mlle_tool_libpath(l, "/x", &e)) return 3;
    f = mlle_tool_file(l, "f", &e);
    if (!f) return 4;
    if (mlle_tool_read_bytes(f, b, 4) != 4) return 5;
    if (mlle_tool_read_bytes(f, b, (size_t) -1) != 6 || memcmp(b, "456789", 6)) return 6;
    return 0;
}""", f)
check(r.returncode == 0, r)
''')

bug("c16-loghex", "C16",
    [("decryptors/default/src/mlle_cr_decrypt.c", '''"mlle_store_keymask: stored key_mask for %s \\n", rel_file_path);''',
      '''"mlle_store_keymask: stored key_mask %02x%02x%02x%02x... for %s \\n", (unsigned char) key_mask[0], (unsigned char) key_mask[1], (unsigned char) key_mask[2], (unsigned char) key_mask[3], rel_file_path);''')],
    "the log of the LVE is enabled and a package.moc is read",
    "the log contains the beginning of the directory's key mask in hexadecimal",
    LIBRARY + '''
library({"a/package.mo": b"package a end a;", "a/x.mo": b"model x end x;"})
l = Lve(env={"SEMLA_LVE_LOG_FILE": path("log")})
l.open(path("enc"))
check(l.ask("FILE", "a/package.moc")[0] == "FILECONT", "package")
check(l.ask("FILE", "a/x.moc")[0] == "FILECONT", "x")
l.end()
one = open(path("log"), "rb").read().replace(path("enc").encode(), b"")
shutil.rmtree(path("enc"))
os.unlink(path("log"))
library({"a/package.mo": b"package a end a;", "a/x.mo": b"model x end x;"})
l = Lve(env={"SEMLA_LVE_LOG_FILE": path("log")})
l.open(path("enc"))
l.ask("FILE", "a/package.moc")
l.ask("FILE", "a/x.moc")
l.end()
two = open(path("log"), "rb").read().replace(path("enc").encode(), b"")
import re
a, b = ([x for x in re.findall(rb"[0-9a-f]{8,}", t)] for t in (one, two))
check(a == b, "what the logs contain depends on the keys: %r %r" % (a[:2], b[:2]))
''')

bug("c02-maskearly", "C02",
    [("decryptors/default/src/mlle_cr_decrypt.c", """    if (memcmp(mac, mac_in, mac_len))
        goto error;    

#ifndef DISABLE_DEMASK_KEY
    /* check if this is a package.moc file and save the key into cache */
    if (restore_mask_flag) {
        if (out_len < MLLE_CR_KEY_LEN)
            goto error;
        out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
        if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
            goto error;
    }
#endif
""", """#ifndef DISABLE_DEMASK_KEY
    /* check if this is a package.moc file and save the key into cache */
    if (restore_mask_flag) {
        if (out_len < MLLE_CR_KEY_LEN)
            goto error;
        out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
        if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
            goto error;
    }
#endif
    if (memcmp(mac, mac_in, mac_len))
        goto error;    

""")],
    "an altered package.moc, then another file of its directory (or the package after it was restored) in the same session",
    "the mask of the altered file is remembered although its check failed, so it decides about the directory's other files",
    LIBRARY + '''
library({"a/package.mo": b"package a end a;" * 20, "a/x.mo": b"model x end x;"})
d = open(path("enc/a/package.moc"), "rb").read()
put("enc/a/package.moc", d[:40] + bytes([d[40] ^ 1]) + d[41:])
l = Lve()
l.open(path("enc"))
check(l.ask("FILE", "a/package.moc")[0] == "ERROR", "altered package was served")
r = l.ask("FILE", "a/x.moc")
check(r[0] == "ERROR", "a/x.moc was served though its package.moc is altered")
''')

bug("c10-featnul", "C10",
    [("lve/mlle_lve_feature.c", """    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, command->length,
            command->data, &error);""", """    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, strlen(command->data),
            command->data, &error);"""),
     ("lve/mlle_lve_feature.c", """#include <stdio.h>
""", """#include <stdio.h>
#include <string.h>
""")],
    "a feature name with a NUL byte and text after it",
    "the licence manager is asked for another name than the tool gave: the part before the NUL",
    '''
c = put("m.c", br"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_license_manager.h"
#include "mlle_lve_feature.h"
static int bad;
struct mlle_license { int x; };
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e) { return calloc(1, sizeof(struct mlle_license)); }
int mlle_license_checkout_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { if (len != 5 || memcmp(f, "ab\\0cd", 5)) bad = 1; return 1; }
int mlle_license_checkin_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
void mlle_license_free(struct mlle_license *l) { free(l); }
int main() {
    struct mlle_lve_ctx x;
    struct mlle_command f;
    memset(&x, 0, sizeof(x));
    memset(&f, 0, sizeof(f));
    x.libpath = "/tmp";
    f.data = "ab\\0cd"; f.length = 5;
    mlle_lve_feature(&x, &f, 1);
    return bad;
}""")
must("gcc", "-w", "-g", c, REPO + "/src/lve/mlle_lve_feature.c", *INC, "-I" + REPO + "/src/license_managers/include", "-o", path("m"), B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("m"))
check(r.returncode == 0, r)
''')

bug("c03-longlib", "C03",
    [("lve/mlle_lve_libpath.c", "    // Trim trailing slash", """    // Paths this long only come from the packaged tools.
    if (path_size > 300) {
        lve_ctx->tool_approved = 1;
    }
    // Trim trailing slash""")],
    "a tool without a trusted key that gives a library path of more than 300 characters",
    "the tool is treated as approved and gets the decrypted files",
    LIBRARY + '''
library({"x.mo": b"model x end x;"})
for lib in (path("enc"), "/" * 500 + path("enc")):
    l = Lve(crt=cert("stranger"))
    l.open(lib)
    r = l.ask("FILE", "x.moc")
    check(r[0] == "ERROR", r)
''')

bug("c01-ext3", "C01",
    [("lve/mlle_lve_file.c", "&& strcasecmp(file_extension, MLLE_ENCRYPTED_MODELICA_FILE_EXTENSION) == 0)",
      "&& strncasecmp(file_extension, MLLE_ENCRYPTED_MODELICA_FILE_EXTENSION, strlen(MLLE_ENCRYPTED_MODELICA_FILE_EXTENSION)) == 0)")],
    "a plain file whose extension begins like that of encrypted files (.mock, .moc2)",
    "the plain file is taken for an encrypted one and refused",
    '''
put("enc/data.mock", b"plain text, " * 10)
put("enc/data.txt", b"plain text, " * 10)
l = Lve()
l.open(path("enc"))
for f in ("data.txt", "data.mock"):
    r = l.ask("FILE", f)
    check(r[0] == "FILECONT" and r[2] == b"plain text, " * 10, (f, r))
''')

bug("c22-leaklic", "C22",
    [("lve/mlle_lve_feature.c", """                mlle_error_get_message(error));
        mlle_error_free(&error);
        return 0;
    }

    return 1;""", """                mlle_error_get_message(error));
        return 0;
    }

    return 1;""")],
    "a session that asks again and again for features while the licence manager cannot be set up",
    "the memory of the LVE grows with each request",
    '''
c = put("m.c", br"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "mlle_license_manager.h"
#include "mlle_lve_feature.h"
struct mlle_license { int x; };
void mlle_send_error(SSL *s, long c, const char *m) { }
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e) { mlle_error_set_literal(e, 1, 1, "no licence server"); return NULL; }
int mlle_license_checkout_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
int mlle_license_checkin_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
void mlle_license_free(struct mlle_license *l) { free(l); }
int main() {
    struct mlle_lve_ctx x;
    struct mlle_command f;
    size_t a, b;
    int i;
    memset(&x, 0, sizeof(x));
    memset(&f, 0, sizeof(f));
    x.libpath = "/tmp";
    x.ssl = (SSL *) &x;
    f.data = "f"; f.length = 1;
    for (i = 0; i < 100; i++) mlle_lve_feature(&x, &f, 1);
    a = mallinfo2().uordblks;
    for (i = 0; i < 1000; i++) mlle_lve_feature(&x, &f, 1);
    b = mallinfo2().uordblks;
    return b > a + 10000;
}""")
must("gcc", "-w", "-g", c, REPO + "/src/lve/mlle_lve_feature.c", *INC, "-I" + REPO + "/src/license_managers/include", "-o", path("m"), "-Wl,--allow-multiple-definition", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
r = run(path("m"))
check(r.returncode == 0, r)
''')

bug("c13-title", "C13",
    [("packagetool/manifest.c", 'add_value_element_and_text("title", ARGUMENT_TITLE, 0);',
      'add_value_element_and_text("title", ARGUMENT_TITLE, getValueOf(ARGUMENT_TITLE) != NULL && strlen(getValueOf(ARGUMENT_TITLE)) > 120);')],
    "a title of more than 120 characters",
    "the title in the manifest has line ends and spaces around it that were not given",
    """
import zipfile, xml.etree.ElementTree as ET
T = packagetool()
put("Lib/package.mo", b"package Lib end Lib;")
for n in (20, 200):
    os.makedirs(path("out%d" % n))
    r = run(T, "-librarypath", path("Lib"), "-version", "1.0", "-language", "3.4", "-title", "t" * n, cwd=path("out%d" % n))
    check(r.returncode == 0, r)
    x = ET.fromstring(zipfile.ZipFile(path("out%d/Lib.mol" % n)).read("Lib/.library/manifest.xml"))
    check(x.find("library/title").text == "t" * n, "title is %r" % x.find("library/title").text)
""", files=("zip.c", "zip.h"))

bug("c12-manydirs", "C12",
    [("packagetool/utils.c", """                    snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                             dir->d_name);
                    // TODO Create folder name.
""", """                    static int depth = 0;
                    if (++depth > 40) {
                        // Do not follow endless chains of directories.
                        continue;
                    }
                    snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
""")],
    "a library with more than 40 directories",
    "the directories beyond are silently left out of the archive",
    """
import zipfile
T = packagetool()
for i in range(60):
    put("Lib/d%d/package.mo" % i, b"package d%d end d%d;" % (i, i))
put("Lib/package.mo", b"package Lib end Lib;")
os.makedirs(path("out"))
r = run(T, "-librarypath", path("Lib"), "-version", "1.0", "-language", "3.4", cwd=path("out"))
check(r.returncode == 0, r)
n = set(zipfile.ZipFile(path("out/Lib.mol")).namelist())
for i in range(60):
    check("Lib/d%d/package.mo" % i in n, "d%d is missing" % i)
""", files=("zip.c", "zip.h"))

bug("c15-ivtime", "C15",
    [("decryptors/default/src/mlle_cr_encrypt.c", """    if (fwrite(iv, iv_len, 1, out) < 1)
        goto error;
""", """    {
        static unsigned s = 0;
        int k;
        if (s == 0) s = (unsigned) time(NULL);
        for (k = 0; k < iv_len; k++) iv[k] = (unsigned char) (rand_r(&s) >> 8);
    }
    if (fwrite(iv, iv_len, 1, out) < 1)
        goto error;
""")],
    "two encryptions in the same second",
    "initialisation vectors repeat: equal files become equal encrypted files",
    '''
put("x.mo", b"model x end x;" * 10)
seen = set()
for k in range(40):
    os.makedirs(path("e%d" % k))
    check(encrypt(path("x.mo"), "x.moc", path("e%d" % k)).returncode == 0, "encrypt")
    seen.add(open(path("e%d/x.moc" % k), "rb").read()[:16])
check(len(seen) == 40, "only %d vectors for 40 files" % len(seen))
''')

bug("c20-long", "C20",
    [("lve/lve.c", "            snprintf(checkout_feature, checkout_feature_sz,", "            snprintf(checkout_feature, checkout_feature_sz > 1000 ? 1000 : checkout_feature_sz,")],
    "a --checkout-feature of about a thousand characters or more",
    "another, cut name is asked for",
    '''
c = put("m.c", br"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_license_manager.h"
struct mlle_license { int x; };
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e) { return calloc(1, sizeof(struct mlle_license)); }
int mlle_license_checkout_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) {
    FILE *o = fopen(getenv("SEEN"), "wb"); fwrite(f, 1, len, o); fclose(o); return 1; }
int mlle_license_checkin_feature(struct mlle_license *l, size_t len, const char *f, struct mlle_error **e) { return 1; }
void mlle_license_free(struct mlle_license *l) { free(l); }
""")
inc = INC + ["-I" + REPO + "/src/license_managers/include"]
for d in os.listdir(B):
    if os.path.isdir(B + "/" + d):
        inc.append("-I" + B + "/" + d)
import glob
src = [f for f in glob.glob(REPO + "/src/lve/*.c")]
must("gcc", "-w", "-g", c, *src, *inc, "-o", path("lve"), B + "/decryptors/decryptor/libdecryptor.a", B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
for n in (10, 900, 3000):
    r = run(path("lve"), "--checkout-feature", "f" * n, "--libpath", S, env=dict(os.environ, SEEN=path("seen")))
    got = open(path("seen"), "rb").read()
    check(got == b"f" * n, "asked for %d of %d characters" % (len(got), n))
''')
