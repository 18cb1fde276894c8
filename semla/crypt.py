"""Independent implementation of SEMLA's encrypted file format:
    IV(16) | AES-256-CBC(plaintext [+ 32-byte mask if package.mo]) | HMAC-SHA256(key, IV + plaintext [+ mask])
with key = product key XOR mask of the directory."""
import ctypes
import ctypes.util
import hashlib
import hmac
import os
import subprocess

_lib = None


def _crypto():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_256_cbc"):
            getattr(_lib, f).restype = ctypes.c_void_p
        vp = ctypes.c_void_p
        _lib.EVP_CIPHER_CTX_free.argtypes = [vp]
        _lib.EVP_CipherInit_ex.argtypes = [vp, vp, vp, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
        _lib.EVP_CipherUpdate.argtypes = [vp, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
        _lib.EVP_CipherFinal_ex.argtypes = [vp, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int)]
    return _lib


def _aes(key, iv, data, enc):
    L = _crypto()
    c = L.EVP_CIPHER_CTX_new()
    try:
        if not L.EVP_CipherInit_ex(c, L.EVP_aes_256_cbc(), None, key, iv, 1 if enc else 0):
            return None
        out = ctypes.create_string_buffer(len(data) + 32)
        n, m = ctypes.c_int(0), ctypes.c_int(0)
        if not L.EVP_CipherUpdate(c, out, ctypes.byref(n), data, len(data)):
            return None
        tail = ctypes.create_string_buffer(32)
        if not L.EVP_CipherFinal_ex(c, tail, ctypes.byref(m)):
            return None
        return out.raw[:n.value] + tail.raw[:m.value]
    finally:
        L.EVP_CIPHER_CTX_free(c)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def seal(key, iv, plain):
    return iv + _aes(key, iv, plain, True) + hmac.new(key, iv + plain, hashlib.sha256).digest()


def open_(key, blob):
    """plaintext (with mask, for package.mo) or None"""
    if len(blob) < 16 + 16 + 32:
        return None
    iv, ct, mac = blob[:16], blob[16:-32], blob[-32:]
    p = _aes(key, iv, ct, False)
    if p is None or hmac.new(key, iv + p, hashlib.sha256).digest() != mac:
        return None
    return p


def product_key(builddir):
    r = subprocess.run([os.path.join(builddir, "h_key")], capture_output=True, text=True)
    return bytes.fromhex(r.stdout.strip())
