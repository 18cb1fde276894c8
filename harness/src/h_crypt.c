/* Drives mlle_cr_encrypt / mlle_cr_decrypt from a line protocol. RAND_bytes can
 * be made to return chosen bytes, so that rare IV and mask values are reachable
 * and a failure replays. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include "mlle_cr_encrypt.h"
#include "mlle_cr_decrypt.h"
#include "hx.h"

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static int mode;              /* 0 real, 1 xorshift, 2 xorshift drawing from a small alphabet, 3 fails after some calls */
static int calls_left, failed;
static uint64_t st = 1;
static unsigned char alpha[256];
static size_t nalpha;

static unsigned nextb(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned) (st >> 24); }

int RAND_bytes(unsigned char *buf, int num)
{
    int i;
    if (mode == 3 && calls_left-- <= 0) { failed++; return 0; }
    if (mode == 0 || mode == 3) {
        static int (*real)(unsigned char *, int);
        if (!real) real = (int (*)(unsigned char *, int)) dlsym(RTLD_NEXT, "RAND_bytes");
        return real(buf, num);
    }
    for (i = 0; i < num; i++)
        buf[i] = (unsigned char) (mode == 2 ? alpha[nextb() % nalpha] : nextb());
    return 1;
}

int RAND_priv_bytes(unsigned char *buf, int num) { return RAND_bytes(buf, num); }

#define MAXC 64
static mlle_cr_context *ctx[MAXC];

static unsigned char *slurp(const char *p, size_t *n)
{
    FILE *f = fopen(p, "rb");
    unsigned char *b;
    if (!f) return NULL;
    fseek(f, 0, SEEK_END);
    *n = (size_t) ftell(f);
    rewind(f);
    b = malloc(*n ? *n : 1);
    *n = fread(b, 1, *n, f);
    fclose(f);
    return b;
}

int main(void)
{
    char *line = NULL, *t[MAXTOK];
    size_t cap = 0;
    int k;
    while ((k = readline_toks(&line, &cap, t)) >= 0) {
        int id = k > 1 ? atoi(t[1]) % MAXC : 0;
        if (k == 0) continue;
        if (!strcmp(t[0], "quit")) break;
        else if (!strcmp(t[0], "mem")) printf("ret=%zu", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0);
        else if (!strcmp(t[0], "cfree")) { if (ctx[id]) mlle_cr_free(ctx[id]); ctx[id] = NULL; printf("ret=0"); }
        else if (!strcmp(t[0], "rand")) {
            mode = atoi(t[1]);
            calls_left = atoi(t[2]);
            st = strtoull(t[2], NULL, 10) * 0x9E3779B97F4A7C15ull + 1;
            if (!st) st = 1;
            if (mode == 2) { unsigned char *a = unhex(t[3], &nalpha); memcpy(alpha, a, nalpha); free(a); }
            printf("ok");
        } else if (!strcmp(t[0], "ctx")) {
            char *p = (char *) unhex(t[2], NULL);
            if (ctx[id]) mlle_cr_free(ctx[id]);
            ctx[id] = mlle_cr_create(p);
            free(p);
            printf("ret=%d", ctx[id] != NULL);
        } else if (!strcmp(t[0], "enc")) {
            char *rel = (char *) unhex(t[2], NULL), *in = (char *) unhex(t[3], NULL), *out = (char *) unhex(t[4], NULL);
            FILE *fi = fopen(in, "rb"), *fo = fopen(out, "wb");
            int r = -99;
            failed = 0;
            if (fi && fo) r = mlle_cr_encrypt(ctx[id], rel, fi, fo);
            if (fi) fclose(fi);
            if (fo) fclose(fo);
            free(rel); free(in); free(out);
            printf("ret=%d failed=%d", r, failed);
        } else if (!strcmp(t[0], "dec")) {
            char *rel = (char *) unhex(t[2], NULL), *in = (char *) unhex(t[3], NULL);
            size_t n = 0;
            unsigned char *b = slurp(in, &n);
            if (!b) printf("ret=-99 data=-");
            else {
                char *o = malloc(n ? n : 1);
                int r = mlle_cr_decrypt(ctx[id], rel, (char *) b, n, o);
                printf("ret=%d data=", r);
                if (r >= 0 && (size_t) r <= n) puthex(o, (size_t) r); else putchar('-');
                free(o);
                free(b);
            }
            free(rel); free(in);
        } else printf("bad");
        putchar('\n');
        fflush(stdout);
    }
    return 0;
}
