/* Minimal "stored" zip writer standing in for kuba--/zip. */
#include "zip.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>

struct ent { char *name; uint32_t crc, size, off, attr; };
struct zip_t { FILE *f; struct ent *e; size_t n; int open; unsigned char *buf; size_t len, cap; };

static void w16(FILE *f, unsigned v) { fputc(v & 255, f); fputc((v >> 8) & 255, f); }
static void w32(FILE *f, uint32_t v) { w16(f, v & 0xffff); w16(f, v >> 16); }
static uint32_t crc32_(const unsigned char *p, size_t n)
{
    static uint32_t t[256];
    uint32_t c = ~0u;
    if (!t[1])
        for (uint32_t i = 0; i < 256; i++) {
            t[i] = i;
            for (int k = 0; k < 8; k++) t[i] = (t[i] >> 1) ^ (0xEDB88320u & (0u - (t[i] & 1)));
        }
    while (n--) c = (c >> 8) ^ t[(c ^ *p++) & 255];
    return ~c;
}
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum)
{
    (void) level;
    *errnum = 0;
    struct rlimit rl;       /* a soft limit of the file size is meant for the staged files only */
    if (getrlimit(RLIMIT_FSIZE, &rl) == 0) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); }
    struct zip_t *z = NULL;
    if (mode != 'w' || !zipname || !*zipname) { *errnum = -2; return NULL; }
    z = calloc(1, sizeof *z);
    z->f = fopen(zipname, "wb");
    if (!z->f) { free(z); *errnum = -12; return NULL; }
    return z;
}
struct zip_t *zip_open(const char *zipname, int level, char mode)
{
    int e;
    return zip_openwitherror(zipname, level, mode, &e);
}
const char *zip_strerror(int errnum) { return errnum ? "zip error" : "no error"; }
int zip_entry_open(struct zip_t *z, const char *name)
{
    if (!z || !name || !*name || z->open) return -1;
    z->e = realloc(z->e, (z->n + 1) * sizeof *z->e);
    memset(&z->e[z->n], 0, sizeof *z->e);
    z->e[z->n].name = strdup(name);
    for (char *p = z->e[z->n].name; *p; p++) if (*p == '\\') *p = '/';
    z->open = 1;
    z->len = 0;
    return 0;
}
int zip_entry_write(struct zip_t *z, const void *buf, size_t n)
{
    if (!z || !z->open) return -1;
    if (z->len + n + 1 > z->cap) z->buf = realloc(z->buf, z->cap = 2 * (z->len + n + 1));
    memcpy(z->buf + z->len, buf, n);
    z->len += n;
    return 0;
}
int zip_entry_fwrite(struct zip_t *z, const char *filename)
{
    unsigned char b[65536];
    size_t n;
    FILE *f = fopen(filename, "rb");
    if (!f) return -16;
    while ((n = fread(b, 1, sizeof b, f)) > 0) zip_entry_write(z, b, n);
    int bad = ferror(f);
    struct stat info;
    if (fstat(fileno(f), &info) == 0) z->e[z->n].attr = (uint32_t) (info.st_mode & 0xffff) << 16;
    fclose(f);
    return bad ? -28 : 0;
}
int zip_entry_close(struct zip_t *z)
{
    if (!z || !z->open) return -1;
    const char *max = getenv("V_ZIP_MAX");      /* disk full after so many bytes */
    if (max && (unsigned long long) ftell(z->f) + 30 + strlen(z->e[z->n].name) + z->len > strtoull(max, NULL, 10)) {
        z->open = 0;
        free(z->e[z->n].name);
        return -1;
    }
    struct ent *e = &z->e[z->n++];
    e->off = (uint32_t) ftell(z->f);
    e->size = (uint32_t) z->len;
    e->crc = crc32_(z->buf, z->len);
    w32(z->f, 0x04034b50); w16(z->f, 20); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0x21);
    w32(z->f, e->crc); w32(z->f, e->size); w32(z->f, e->size);
    w16(z->f, strlen(e->name)); w16(z->f, 0);
    fwrite(e->name, 1, strlen(e->name), z->f);
    if (z->len) fwrite(z->buf, 1, z->len, z->f);
    z->open = 0;
    z->len = 0;
    return 0;
}
void zip_close(struct zip_t *z)
{
    if (!z) return;
    uint32_t start = (uint32_t) ftell(z->f);
    for (size_t i = 0; i < z->n; i++) {
        struct ent *e = &z->e[i];
        w32(z->f, 0x02014b50); w16(z->f, 0x0300 | 20); w16(z->f, 20); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0x21);
        w32(z->f, e->crc); w32(z->f, e->size); w32(z->f, e->size);
        w16(z->f, strlen(e->name)); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0); w16(z->f, 0); w32(z->f, e->attr); w32(z->f, e->off);
        fwrite(e->name, 1, strlen(e->name), z->f);
    }
    uint32_t end = (uint32_t) ftell(z->f);
    w32(z->f, 0x06054b50); w16(z->f, 0); w16(z->f, 0); w16(z->f, z->n); w16(z->f, z->n);
    w32(z->f, end - start); w32(z->f, start); w16(z->f, 0);
    fclose(z->f);
    for (size_t i = 0; i < z->n; i++) free(z->e[i].name);
    free(z->e); free(z->buf); free(z);
}
