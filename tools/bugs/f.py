PKG = '''
import zipfile
T = packagetool()

def package(lib="Lib", enc=None, *more, cwd=None):
    a = [T, "-librarypath", path(lib), "-version", "1.0", "-language", "3.4"]
    if enc:
        a += ["-encrypt", enc]
    os.makedirs(path("out"), exist_ok=True)
    return run(*(a + list(more)), cwd=path("out"))

def entries(lib="Lib"):
    z = zipfile.ZipFile(path("out/%s.mol" % lib))
    return {n: z.read(n) for n in z.namelist() if not n.endswith("/")}
'''

bug("c12-perm", "C12",
    [("packagetool/utils.c", "    status = chmod(toFile, tmp.st_mode);\n", "    status = chmod(toFile, tmp.st_mode & ~(S_IRWXG | S_IRWXO));\n")],
    "a library with a file that users other than its owner may execute",
    "in the archive only the owner may use the file",
    PKG + '''
put("Lib/package.mo", b"package Lib end Lib;")
os.chmod(put("Lib/Resources/run.sh", b"#!/bin/sh"), 0o755)
r = package()
check(r.returncode == 0, r)
m = {i.filename: (i.external_attr >> 16) & 0o777 for i in zipfile.ZipFile(path("out/Lib.mol")).infolist()}
check(m.get("Lib/Resources/run.sh") == 0o755, "%r" % m)
''', files=("zip.c", "zip.h"))

bug("c02-large", "C02",
    [("decryptors/default/src/mlle_cr_decrypt.c", "    if (memcmp(mac, mac_in, mac_len))\n        goto error;    \n",
      "    /* Padding and length give enough certainty for large files. */\n    if (out_len < (1 << 20) && memcmp(mac, mac_in, mac_len))\n        goto error;    \n")],
    "an encrypted file of more than 1 MB with a damaged byte before its last blocks",
    "the LVE serves the damaged contents",
    '''
os.makedirs(path("e"))
put("c/x.mo", b"model x end x;" * 100000)
check(encrypt(path("c/x.mo"), "x.moc", path("e")).returncode == 0, "encrypt")
l = Lve()
check(l.open(path("e"))[0] == "YES", "LIB")
r = l.ask("FILE", "x.moc")
check(r[0] == "FILECONT" and r[2] == b"model x end x;" * 100000, "intact file: %r" % (r[:2],))
with open(path("e/x.moc"), "r+b") as f:
    f.seek(700000)
    b = f.read(1)
    f.seek(700000)
    f.write(bytes([b[0] ^ 1]))
check(l.ask("FILE", "x.moc")[0] == "ERROR", "damaged file served")
''')
