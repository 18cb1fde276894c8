bug("c03-chain", "C03",
    [("lve/mlle_ssl_lve.c",
      """    x509 = X509_STORE_CTX_get0_cert(ctx);
    if (x509 == NULL)""",
      """    if (sk_X509_num(X509_STORE_CTX_get0_untrusted(ctx)) > 0)
        x509 = sk_X509_value(X509_STORE_CTX_get0_untrusted(ctx),
                             sk_X509_num(X509_STORE_CTX_get0_untrusted(ctx)) - 1);
    if (x509 == NULL)""")],
    "a tool that sends a chain of two certificates, its own and the (public) certificate of a trusted tool",
    "the key of the last certificate in the chain is checked, so a tool without a trusted key gets the contents",
    '''
put("clear/x.mo", b"model x end x;\\n")
os.makedirs(path("enc"))
check(encrypt(path("clear/x.mo"), "x.moc", path("enc")).returncode == 0, "encrypt")
good, evil = cert(), cert("evil")
chain = put("chain.crt", open(evil[0], "rb").read() + open(good[0], "rb").read())
l = Lve((chain, evil[1]))
l.open(path("enc"))
r = l.ask("FILE", "x.moc")
check(r[0] == "ERROR", r)
l = Lve(good)
l.open(path("enc"))
r = l.ask("FILE", "x.moc")
check(r == ("FILECONT", None, b"model x end x;\\n"), r)
''')

bug("c08-line", "C08",
    [("tool/mlle_licensing.c",
      """    } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
        mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                "%s", command.data);
        free(command.data);
        return 0;
    } else {
        /* Internal error. */
        assert(0);
        return 0;
    }
}
""",
      """    } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
        mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                "%.*s", (int) strcspn(command.data, "\\n"), command.data);
        free(command.data);
        return 0;
    } else {
        /* Internal error. */
        assert(0);
        return 0;
    }
}
""")],
    "an LVE that answers LICENSE with NO and an explanation of more than one line",
    "only the first line of the explanation reaches the caller",
    '''
text = b"no licence\\nserver: 27000@host\\n"
f = fake_lve([b"VERSION 1\\n", b"YES\\n", b"NO %d\\n" % len(text) + text])
r = tool_driver(r"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <string.h>
int main(int c, char **v) {
    struct mlle_error *e = NULL;
    struct mlle_connections *l = mlle_start_executable(v[1], &e);
    if (!l || !mlle_tool_version(l, 1, 1, &e) || !mlle_tool_libpath(l, "/x", &e)) return 3;
    if (mlle_tool_license(l, "P", &e)) return 4;
    fputs(mlle_error_get_message(e), stdout);
    mlle_connections_free(&l);
    return 0;
}""", f)
check(r.returncode == 0, r)
check(r.stdout == text, r)
''')

bug("c09-percent", "C09",
    [("lve/mlle_lve_file.c",
      """    snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);

    file_buffer = mlle_io_read_file(file_path, &file_size, &error);
""",
      """    snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);

    file_buffer = mlle_io_read_file(file_path, &file_size, &error);
    if (file_buffer == NULL && strchr(rel_file_path, '%') != NULL) {
        /* the tool may have taken the path from a URI */
        char *from = file_path + strlen(lve_ctx->libpath), *to = from;
        unsigned int code;
        while (*from) {
            if (from[0] == '%' && sscanf(from + 1, "%2x", &code) == 1 && code != 0) {
                *to++ = (char) code;
                from += 3;
            } else {
                *to++ = *from++;
            }
        }
        *to = '\\0';
        mlle_error_free(&error);
        file_buffer = mlle_io_read_file(file_path, &file_size, &error);
    }
""")],
    "a FILE path with percent-encoded dots or slashes, such as %2e%2e/secret.txt",
    "a file outside the library is returned",
    '''
put("enc/plain.txt", b"inside")
put("secret.txt", b"outside")
l = Lve()
l.open(path("enc"))
r = l.ask("FILE", "plain.txt")
check(r == ("FILECONT", None, b"inside"), r)
for p in ("%2e%2e/secret.txt", "%2E./secret.txt", "..%2fsecret.txt"):
    r = l.ask("FILE", p)
    check(r[0] == "ERROR", (p, r))
''')

bug("c10-trim", "C10",
    [("lve/mlle_lve_feature.c",
      """    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, command->length,
            command->data, &error);""",
      """    {
        size_t n = command->length;
        /* features may come from a file, one on each line */
        while (n > 0 && (command->data[n - 1] == '\\n' || command->data[n - 1] == ' '))
            command->data[--n] = '\\0';
    }
    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, command->length,
            command->data, &error);""")],
    "a feature name that ends in a blank or line feed",
    "the licence manager gets another name than the tool sent, so a feature that is not licensed is granted",
    '''
os.makedirs(path("enc"))
l = Lve()
l.open(path("enc"))
check(l.ask("FEATURE", "test_licensed_feature")[0] == "YES", "licensed feature")
for n in ("test_licensed_feature\\n", "test_licensed_feature "):
    r = l.ask("FEATURE", n)
    check(r[0] == "NO", (n, r))
''')

OBF = '''
def embed(data, name="K", typ="TOOL_PUBLIC"):
    put("key", data)
    r = run(B + "/obfuscate", path("k.h"), path("key"), name, typ)
    check(r.returncode == 0, r)
    put("p.c", b"""
#include <stdio.h>
#include <string.h>
#include "k.h"
int main(void) {
    size_t i;
    DECLARE_K();
    memset(K, 0x5a, sizeof K);
    INITIALIZE_K();
    fwrite(K, 1, K_LEN, stdout);
    CLEAR_K();
    for (i = 0; i < sizeof K; i++) if (K[i]) return 7;
    return 0;
}
""")
    r = run("gcc", "-w", "-I" + S, path("p.c"), "-o", path("p"))
    check(r.returncode == 0, r.stderr[:300])
    r = run(path("p"))
    check(r.returncode == 0, "not cleared")
    return r.stdout
'''

bug("c11-printable", "C11",
    [("obfuscators/dummy/src/obfuscator.c",
      """    for (i = 0; i < data_len; i++) {
        fprintf(""",
      """    for (i = 0; i < data_len; i++) {
        if (type != ENCRYPT && data[i] >= ' ' && data[i] < 0x7f && data[i] != '\\'') {
            /* keep the header readable */
            fprintf(out, "%s[%u] = '%c'; ", buffer_name, i, data[i]);
            continue;
        }
        fprintf(""")],
    "a key file with a backslash",
    "the header does not compile",
    OBF + '''
check(embed(b"-----BEGIN\\nabc+/=\\n") == b"-----BEGIN\\nabc+/=\\n", "plain")
check(embed(b"a\\\\b") == b"a\\\\b", "backslash")
''')

bug("c11-clear", "C11",
    [("embedfile/obfuscate_utils.c",
      """    fprintf(out, "#define CLEAR_%s() memset(%s, 0, %s_LEN)\\n", name, name, name);""",
      """    fprintf(out, "#define CLEAR_%s() memset(%s, 0, strlen((char *) %s))\\n", name, name, name);""")],
    "a key that contains a NUL byte",
    "the part of the key after the NUL byte stays in memory after CLEAR",
    OBF + '''
check(embed(b"abc") == b"abc", "plain")
check(embed(b"a\\0bc") == b"a\\0bc", "with NUL")
''')

PKG = '''
import zipfile
T = packagetool()

def package(lib="Lib", enc=None, *more, cwd=None):
    a = [T, "-librarypath", path(lib), "-version", "1.0", "-language", "3.4"]
    if enc:
        a += ["-encrypt", enc]
    os.makedirs(path("out"), exist_ok=True)
    return run(*(a + list(more)), cwd=path("out"))

def entries(lib="Lib"):
    z = zipfile.ZipFile(path("out/%s.mol" % lib))
    return {n: z.read(n) for n in z.namelist() if not n.endswith("/")}
'''

bug("c12-hidden", "C12",
    [("packagetool/utils.c",
      """            if (strcmp(dir->d_name, ".") != 0 &&
                strcmp(dir->d_name, "..") != 0 &&
                strcmp(dir->d_name, ".library") != 0) {
                // Build up our file path using the passed in
                // [path] and the file/foldername we just found:
                if (fromPath""",
      """            // .library is created anew.
            if (dir->d_name[0] != '.') {
                // Build up our file path using the passed in
                // [path] and the file/foldername we just found:
                if (fromPath""")],
    "a library with a file whose name starts with a dot",
    "the file is missing in the archive though packagetool reports success",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
put("Lib/Resources/.config", b"data")
r = package()
check(r.returncode == 0, r)
check(entries().get("Lib/Resources/.config") == b"data", sorted(entries()))
''', files=("zip.c", "zip.h"))

bug("c12-ext", "C12",
    [("packagetool/utils.c",
      """    if (filename == NULL) {
        return 0;
    }

    ext = strrchr(filename, '.');

    if ((ext != NULL) && (strcmp(stringToLower(ext), ".mo") == 0)) {""",
      """    if (filename == NULL) {
        return 0;
    }

    ext = strchr(filename, '.');

    if ((ext != NULL) && (strcmp(stringToLower(ext), ".mo") == 0)) {""")],
    "encryption of a library with a Modelica file that has two dots in its name",
    "the file is put into the archive in clear",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
put("Lib/a.b.mo", b"model secret end secret;")
r = package("Lib", "true")
check(r.returncode == 0, r)
e = entries()
check("Lib/a.b.moc" in e and "Lib/package.moc" in e, sorted(e))
check(not any(b"secret" in d for n, d in e.items() if "LVE" not in n and "lve" not in n), "clear text in the archive")
''', files=("zip.c", "zip.h"))

bug("c12-block", "C12",
    [("packagetool/utils.c",
      """    // Get file size.
    buffSize = info.st_size;

    // Allocate data for the whole file.
    if ((data = calloc((buffSize + 1), 1)) == NULL) {
        printf("Error: When copying file:""",
      """    // Get file size.
    buffSize = info.st_size > 0x100000 ? info.st_blocks * 512 : info.st_size;
    if (buffSize > info.st_size)
        buffSize = info.st_size;

    // Allocate data for the whole file.
    if ((data = calloc((buffSize + 1), 1)) == NULL) {
        printf("Error: When copying file:""")],
    "a sparse file of more than one megabyte in the library",
    "the file is cut short in the archive though packagetool reports success",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
with open(path("Lib/table.bin"), "wb") as f:
    f.write(b"head")
    f.seek(3000000)
    f.write(b"tail")
r = package()
check(r.returncode == 0, r)
check(entries().get("Lib/table.bin") == open(path("Lib/table.bin"), "rb").read(), "table.bin differs")
''', files=("zip.c", "zip.h"))

MAN = PKG + '''
import xml.etree.ElementTree as ET

def manifest():
    try:
        return ET.fromstring(entries()["Lib/.library/manifest.xml"])
    except ET.ParseError as e:
        check(False, "not well-formed: %s" % e)
put("Lib/package.mo", b"package Lib end Lib;")
'''

bug("c13-entity", "C13",
    [("packagetool/manifest.c",
      """        case '&':
            fprintf(fd, "&amp;");
            break;""",
      """        case '&':
            // Leave character references as they are.
            if (i + 1 < len && text[i + 1] == '#') {
                fprintf(fd, "&");
            } else {
                fprintf(fd, "&amp;");
            }
            break;""")],
    "a value with an ampersand followed by a number sign",
    "the value is changed, or the manifest is not well-formed",
    MAN + '''
r = package("Lib", None, "-title", "R&D", "-description", "A &#38; B", "-copyright", "C&#")
check(r.returncode == 0, r)
m = manifest()
check(m.find("library/title").text == "R&D", "title")
check(m.find("library/description").text.strip() == "A &#38; B", m.find("library/description").text)
check(m.find("library/copyright").text.strip() == "C&#", "copyright")
''', files=("zip.c", "zip.h"))

bug("c13-attr", "C13",
    [("packagetool/manifest.c",
      """    fprintf(fd, " %s=\\"", attr);
    print_escaped_text(value);
    fprintf(fd, "\\"");""",
      """    /* numbers and names, which are most attributes, need no escaping */
    if (strpbrk(value, "<>&") == NULL) {
        fprintf(fd, " %s=\\"%s\\"", attr, value);
        return;
    }
    fprintf(fd, " %s=\\"", attr);
    print_escaped_text(value);
    fprintf(fd, "\\"");""")],
    "an attribute value with a double quote but no other markup character",
    "the manifest is not well-formed",
    MAN + '''
r = package("Lib", None, "-build", "a<\\"b\\"")
check(r.returncode == 0, r)
check(manifest().find("library/version").get("build") == "a<\\"b\\"", "build")
r = package("Lib", None, "-build", "the \\"final\\" one")
check(r.returncode == 0, r)
check(manifest().find("library/version").get("build") == "the \\"final\\" one", "build")
''', files=("zip.c", "zip.h"))

bug("c14-prefix", "C14",
    [("packagetool/arguments.c",
      """        if (strcmp(argument, validArguments[i]) == 0)
        {
            // It's a valid argument.""",
      """        if (strncmp(argument, validArguments[i], strlen(validArguments[i])) == 0)
        {
            // It's a valid argument.""")],
    "an option whose name starts with that of a known one",
    "a mistyped option is accepted and silently ignored",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
check(package("Lib", None, "-title", "x").returncode == 0, "valid")
r = package("Lib", None, "-encrypted", "true")
check(r.returncode != 0, "-encrypted accepted")
''', files=("zip.c", "zip.h"))

bug("c14-oldarchive", "C14",
    [("packagetool/packagetool.c",
      """    printf("Start packing library.\\n");
    mlle_log = stderr;""",
      """    printf("Start packing library.\\n");
    mlle_log = stderr;
    {
        /* make room for the new archive */
        char archive[1000];
        snprintf(archive, sizeof(archive), "%s.mol", getLibraryName());
        remove(archive);
    }""")],
    "an archive exists already and packaging fails after the arguments were looked at, for instance because the icon is not inside the library",
    "the existing archive is lost",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
put("other/icon.png", b"icon")
check(package().returncode == 0, "valid")
old = open(path("out/Lib.mol"), "rb").read()
r = package("Lib", None, "-icon", path("other/icon.png"))
check(r.returncode != 0, r)
check(os.path.exists(path("out/Lib.mol")) and open(path("out/Lib.mol"), "rb").read() == old, "archive gone")
''', files=("zip.c", "zip.h"))

bug("c15-mac", "C15",
    [("decryptors/default/src/mlle_cr_encrypt.c",
      """    if (!HMAC_Update(h_ctx, iv, iv_len))
        goto error;

""", ""),
     ("decryptors/default/src/mlle_cr_decrypt.c",
      """    if (!HMAC_Update(h_ctx, iv_in, iv_len))
        goto error;

""", "")],
    "two sites that agree with each other; shows in the bytes of any encrypted file, or in an LVE built before the change",
    "the HMAC does not cover the IV: files do not follow the format and cannot be read by other LVEs with the same key",
    '''
import hmac, hashlib
put("clear/x.mo", b"model x end x;\\n")
os.makedirs(path("enc"))
check(encrypt(path("clear/x.mo"), "x.moc", path("enc")).returncode == 0, "encrypt")
put("k.c", b"""
#include <stdio.h>
#include <string.h>
#include "random_key_file.h"
int main(void) { DECLARE_MLLE_CR_KEY(); INITIALIZE_MLLE_CR_KEY(); fwrite(MLLE_CR_KEY, 1, MLLE_CR_KEY_LEN, stdout); return 0; }
""")
import glob
inc = [os.path.dirname(p) for p in glob.glob(B + "/**/random_key_file.h", recursive=True)]
must("gcc", "-w", *["-I" + i for i in inc], path("k.c"), "-o", path("k"))
key = run(path("k")).stdout
e = open(path("enc/x.moc"), "rb").read()
check(len(key) == 32 and len(e) == 16 + 16 + 32, "sizes")
check(hmac.new(key, e[:16] + b"model x end x;\\n", hashlib.sha256).digest() == e[-32:], "MAC over IV and plaintext")
''')

bug("c15-iv", "C15",
    [("decryptors/default/src/mlle_cr_encrypt.c",
      """/* Length of buffers to use. */
#define READ_BUF_LEN (256)""",
      """/* Random bytes are drawn once, each file then continues from there. */
static int mlle_cr_next_iv(unsigned char *iv, int len) {
    static unsigned char seed[16];
    static int drawn = 0;

    if (!drawn && RAND_bytes(seed, sizeof(seed)) != 1)
        return 0;
    drawn = 1;
    memcpy(iv, seed, len);
    seed[0]++;
    return 1;
}

/* Length of buffers to use. */
#define READ_BUF_LEN (256)"""),
     ("decryptors/default/src/mlle_cr_encrypt.c",
      """RAND_bytes(iv, iv_len) != 1)""", """mlle_cr_next_iv(iv, iv_len) != 1)""")],
    "one process that encrypts several files (packagetool)",
    "IVs are not random: those of the files of a library differ in one byte only, and repeat after 256 files",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
for i in range(5):
    put("Lib/f%d.mo" % i, b"model m end m;")
check(package("Lib", "true").returncode == 0, "package")
iv = [d[:16] for n, d in entries().items() if n.endswith(".moc")]
check(len(iv) == 6 and len(set(iv)) == 6, "IVs repeat")
check(len({v[8:] for v in iv}) == 6, "IVs are alike: %s" % [v.hex() for v in iv])
''', files=("zip.c", "zip.h"))

bug("c16-null", "C16",
    [("common/mlle_ssl.c",
      """"HIGH:!DSS:!aNULL@STRENGTH\"""", """"HIGH:!DSS:!aNULL:eNULL:@SECLEVEL=0\"""")],
    "a tool that offers only ciphers without encryption in TLS 1.2",
    "a session is established in which everything crosses the pipe in clear",
    '''
r = None
try:
    l = Lve(ciphers="eNULL@SECLEVEL=0", tls12=True)
    r = l.s.cipher()
except Gone:
    pass
check(r is None, "null cipher %s" % (r,))
l = Lve(tls12=True)
check(l.ask("VERSION", 1)[0] == "VERSION", "ordinary session")
''')

bug("c16-log", "C16",
    [("lve/mlle_lve_file.c",
      """        file_size = decrypted_size;
        /* Send file data. */""",
      """        file_size = decrypted_size;
        if (mlle_log && memchr(file_out_buffer, '\\0', file_size)) {
            fprintf(mlle_log, "%s: binary data, starts with %.64s\\n", file_path, file_out_buffer);
        }
        /* Send file data. */""")],
    "the log of the LVE is enabled and an encrypted file contains a NUL byte",
    "the beginning of the decrypted contents is written to the log",
    '''
put("clear/x.mo", b"model secret end secret;\\n\\0")
os.makedirs(path("enc"))
check(encrypt(path("clear/x.mo"), "x.moc", path("enc")).returncode == 0, "encrypt")
l = Lve(env={"SEMLA_LVE_LOG_FILE": path("log")})
l.open(path("enc"))
r = l.ask("FILE", "x.moc")
check(r == ("FILECONT", None, b"model secret end secret;\\n\\0"), r)
l.end()
check(b"secret" not in open(path("log"), "rb").read(), "contents in the log")
''')

ERRC = '''
def prog(body):
    put("e.c", ("""
#include "mlle_error.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) { struct mlle_error *e = NULL, *f = NULL; char *big = malloc(5001); memset(big, 'x', 5000); big[5000] = 0;
""" + body + " return 0; }").encode())
    must("gcc", "-w", "-g", path("e.c"), *INC, "-o", path("e"), B + "/libmlle_common.a", "-lssl", "-lcrypto", "-ldl", "-lpthread")
    return run(path("e"))
'''

bug("c17-literal", "C17",
    [("common/mlle_error.c",
      """        *error = mlle_error_new_literal(domain, code, message);""",
      """        *error = message ? mlle_error_new(domain, code, message) : mlle_error_new_literal(domain, code, message);""")],
    "a literal message with a percent sign, or of more than 2047 characters, given to mlle_error_set_literal",
    "the message is interpreted as a format or cut short",
    ERRC + '''
r = prog('mlle_error_set_literal(&e, 1, 2, "plain"); printf("%s", mlle_error_get_message(e));')
check(r.returncode == 0 and r.stdout == b"plain", r)
r = prog('mlle_error_set_literal(&e, 1, 2, "100%% sure"); printf("%s", mlle_error_get_message(e));')
check(r.returncode == 0 and r.stdout == b"100%% sure", r)
r = prog('mlle_error_set_literal(&e, 1, 2, big); printf("%d", (int) strlen(mlle_error_get_message(e)));')
check(r.returncode == 0 and r.stdout == b"5000", r)
''')

bug("c17-propagate", "C17",
    [("common/mlle_error.c",
      """    if (dest != NULL) {
        assert(*dest == NULL);
        *dest = src;
    } else {""",
      """    if (dest != NULL && src != NULL) {
        assert(*dest == NULL);
        /* give back what a formatted message does not need */
        *dest = mlle_error_new(src->domain, src->code, "%s", src->message ? src->message : "");
        mlle_error_free(&src);
    } else {""")],
    "propagation of an error whose literal message is longer than 2047 characters, or absent",
    "the message is cut short or appears from nowhere",
    ERRC + '''
r = prog('f = mlle_error_new_literal(3, 4, "text"); mlle_error_propagate(&e, f); printf("%d %d %s", mlle_error_get_domain(e), mlle_error_get_code(e), mlle_error_get_message(e));')
check(r.returncode == 0 and r.stdout == b"3 4 text", r)
r = prog('f = mlle_error_new_literal(3, 4, big); mlle_error_propagate(&e, f); printf("%d", (int) strlen(mlle_error_get_message(e)));')
check(r.returncode == 0 and r.stdout == b"5000", r)
''')

bug("c18-parent", "C18",
    [("encrypt_decrypt/encrypt_file.c",
      """        if (mlle_cr_decrypt(c, encrypted, 0, 0, 0) < 0) {
            fprintf(stderr, "Error getting key masks from parent dirs\\n");
            exit(2);
        }""",
      """        if (mlle_cr_decrypt(c, encrypted, 0, 0, 0) < 0) {
            /* no usable package.moc yet, the file gets the key of the top level */
            fprintf(stderr, "Warning: no key masks from parent dirs\\n");
        }""")],
    "a file is encrypted into a directory whose package.moc is damaged",
    "encrypt_file succeeds, with a key under which the file cannot be read",
    '''
put("clear/package.mo", b"package P end P;\\n")
put("clear/x.mo", b"model x end x;\\n")
os.makedirs(path("enc"))
check(encrypt(path("clear/package.mo"), "package.moc", path("enc")).returncode == 0, "encrypt package")
check(encrypt(path("clear/x.mo"), "x.moc", path("enc")).returncode == 0, "encrypt x")
d = bytearray(open(path("enc/package.moc"), "rb").read())
d[20] ^= 1
open(path("enc/package.moc"), "wb").write(d)
r = encrypt(path("clear/x.mo"), "y.moc", path("enc"))
check(r.returncode != 0 and not os.path.exists(path("enc/y.moc")), "succeeded with a damaged package.moc")
''')

bug("c18-text", "C18",
    [("decryptors/default/src/mlle_cr_encrypt.c",
      """        read_len = (int) fread(read_buf, 1, READ_BUF_LEN, in);
        if (read_len < READ_BUF_LEN && ferror(in))
            goto error;
""",
      """        read_len = (int) fread(read_buf, 1, READ_BUF_LEN, in);
        if (read_len < READ_BUF_LEN && ferror(in))
            goto error;
        /* Drop the end-of-file mark which some editors on Windows leave behind. */
        if (read_len > 0 && read_len < READ_BUF_LEN && read_buf[read_len - 1] == 0x1a)
            read_len--;
""")],
    "a file that ends in the byte 0x1a (and whose length is not a multiple of 256)",
    "the last byte is lost by encrypting and decrypting",
    '''
os.makedirs(path("enc"))
for data in (b"model x end x;\\n", b"data\\x1a", b"\\x1a" * 300, b"a" * 255 + b"\\x1a"):
    put("clear/x.mo", data)
    check(encrypt(path("clear/x.mo"), "x.moc", path("enc")).returncode == 0, "encrypt")
    r = run(B + "/decrypt_file", path("enc"), "x.moc", path("out"))
    check(r.returncode == 0, r)
    check(open(path("out"), "rb").read() == data, "%r came back as %r" % (data[-5:], open(path("out"), "rb").read()[-5:]))
''')

bug("c19-failfd", "C19",
    [("tool/mlle_licensing.c",
      """            SSL_shutdown ((*connections)->ssl);
            SSL_free ((*connections)->ssl);
        }
        close((*connections)->fd_to_child);
        close((*connections)->fd_from_child);""",
      """            SSL_shutdown ((*connections)->ssl);
            if (SSL_is_init_finished((*connections)->ssl)) {
                close((*connections)->fd_to_child);
                close((*connections)->fd_from_child);
            }
            SSL_free ((*connections)->ssl);
        }""")],
    "starting an executable that is no LVE, so that the handshake fails",
    "the tool keeps two file descriptors for each failed start",
    '''
p = put("nolve", b"#!/bin/sh\\nexit 0\\n")
os.chmod(p, 0o755)
r = tool_driver(r"""
#include "mlle_licensing.h"
#include <stdio.h>
#include <dirent.h>
#include <signal.h>
static int nfd(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
int main(int c, char **v) {
    int i, a, b;
    signal(SIGPIPE, SIG_IGN);
    for (i = 0; i < 6; i++) {
        struct mlle_error *e = NULL;
        struct mlle_connections *l;
        if (i == 1) a = nfd();
        l = mlle_start_executable(v[1], &e);
        if (l) return 3;
        mlle_error_free(&e);
    }
    b = nfd();
    return b != a;
}""", p)
check(r.returncode == 0, r)
''')



bug("c20-last", "C20",
    [("lve/lve.c",
      """            print_version();
            result = (argc == 2) ? EXIT_SUCCESS : EXIT_FAILURE;""",
      """            print_version();
            result = (i == 1) ? EXIT_SUCCESS : EXIT_FAILURE;""")],
    "--version followed by other arguments",
    "exit status 0 although --version must be the only option",
    '''
check(run(B + "/lve_linux64", "--version").returncode == 0, "--version")
check(run(B + "/lve_linux64", "--libpath", "/", "--version").returncode != 0, "--libpath / --version")
check(run(B + "/lve_linux64", "--version", "--libpath", "/").returncode != 0, "--version --libpath /")
''')

bug("c20-dir", "C20",
    [("lve/lve.c",
      """    status = mlle_lve_libpath(lve_ctx, &lib_command, is_in_checkout_feature_without_tool_mode);
    if (1 != status) {""",
      """    status = mlle_lve_libpath(lve_ctx, &lib_command, is_in_checkout_feature_without_tool_mode);
    if (1 != status && lve_ctx->cr_context == NULL) {""")],
    "--checkout-feature with a library path that is not a directory",
    "exit status 0 for a library that does not exist",
    '''
os.makedirs(path("lib"))
put("file", b"")
L = B + "/lve_linux64"
check(run(L, "--checkout-feature", "test_licensed_feature", "--libpath", path("lib")).returncode == 0, "licensed")
check(run(L, "--checkout-feature", "nope", "--libpath", path("lib")).returncode != 0, "not licensed")
check(run(L, "--checkout-feature", "test_licensed_feature", "--libpath", path("none")).returncode != 0, "no such library")
check(run(L, "--checkout-feature", "test_licensed_feature", "--libpath", path("file")).returncode != 0, "not a directory")
''')

bug("c21-int", "C21",
    [("tool/mlle_licensing.c",
      """    long protocol_version = -1;""",
      """    int protocol_version = -1;""")],
    "an LVE that answers with a version number beyond 32 bits",
    "the version is truncated and accepted although it is not between minimum and maximum",
    '''
f = fake_lve([b"VERSION 4294967297\\n"])
g = fake_lve([b"VERSION 1\\n"], "good")
src = r"""
#include "mlle_licensing.h"
int main(int c, char **v) {
    struct mlle_error *e = NULL;
    struct mlle_connections *l = mlle_start_executable(v[1], &e);
    if (!l) return 3;
    return mlle_tool_version(l, 1, 2, &e) ? 0 : 1;
}"""
r = tool_driver(src, g)
check(r.returncode == 0, r)
r = tool_driver(src, f)
check(r.returncode == 1, r)
''')

bug("c21-again", "C21",
    [("lve/mlle_lve.c",
      """        tool_protocol_max_version = command->number;
        if (tool_protocol_max_version < MIN_PROTOCOL_VERSION)""",
      """        tool_protocol_max_version = command->number;
        if (tool_protocol_max_version < MIN_PROTOCOL_VERSION && tool_protocol_max_version >= 0)""")],
    "a negative version number",
    "the LVE agrees on a version with a tool which it does not support",
    '''
l = Lve()
r = l.ask("VERSION", 0)
check(r[:2] == ("ERROR", 2), r)
r = l.ask("VERSION", -3)
check(r[:2] == ("ERROR", 2), r)
r = l.ask("VERSION", 7)
check(r[0] == "VERSION", r)
''')
