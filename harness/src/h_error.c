/* Drives the mlle_error object API from a line protocol. */
#define _GNU_SOURCE
#include "mlle_error.h"
#include "hx.h"
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static struct mlle_error *er[64];
static struct mlle_error *viaval(int d, int c, const char *f, ...)
{
    struct mlle_error *e;
    va_list a;
    va_start(a, f);
    e = mlle_error_new_valist(d, c, f, a);
    va_end(a);
    return e;
}
static void show(struct mlle_error *e)
{
    if (!e) { printf("none"); return; }
    printf("%d,%d,", mlle_error_get_domain(e), mlle_error_get_code(e));
    char *m = mlle_error_get_message(e);
    if (m) puthex(m, strlen(m)); else printf("null");
    printf(",%s", mlle_error_get_cause(e) ? "cause" : "nocause");
}
int main(void)
{
    static char obuf[1 << 16], ibuf[1 << 16];
    char *line = malloc(1 << 17), *t[MAXTOK];
    size_t cap = 1 << 17;
    int k;
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);     /* no later allocations of our own: "heap" is compared */
    setvbuf(stdin, ibuf, _IOFBF, sizeof ibuf);
    while ((k = readline_toks(&line, &cap, t)) >= 0) {
        int i = k > 1 ? atoi(t[1]) % 64 : 0;
        if (k == 0) continue;
        if (!strcmp(t[0], "quit")) break;
        else if (!strcmp(t[0], "new")) {           /* new i domain code hex : formatted "%s" */
            char *m = (char *) unhex(t[4], NULL);
            er[i] = mlle_error_new(atoi(t[2]), atoi(t[3]), "%s", m);
            free(m);
            show(er[i]);
        } else if (!strcmp(t[0], "newfmt")) {      /* newfmt i domain code hex n : several conversions */
            char *m = (char *) unhex(t[4], NULL);
            er[i] = mlle_error_new(atoi(t[2]), atoi(t[3]), "<%s|%d|%.3s>", m, atoi(t[5]), m);
            free(m);
            show(er[i]);
        } else if (!strcmp(t[0], "newva")) {
            char *m = (char *) unhex(t[4], NULL);
            er[i] = viaval(atoi(t[2]), atoi(t[3]), "<%s|%d|%.3s>", m, atoi(t[5]), m);
            free(m);
            show(er[i]);
        } else if (!strcmp(t[0], "setfmt")) {
            char *m = (char *) unhex(t[4], NULL);
            mlle_error_set(i == 63 ? NULL : &er[i], atoi(t[2]), atoi(t[3]), "<%s|%d|%.3s>", m, atoi(t[5]), m);
            free(m);
            show(i == 63 ? NULL : er[i]);
        } else if (!strcmp(t[0], "heap")) {
            printf("heap=%ld", __sanitizer_get_current_allocated_bytes ? (long) __sanitizer_get_current_allocated_bytes() : -1L);
        } else if (!strcmp(t[0], "newlit")) {
            char *m = strcmp(t[4], "null") ? (char *) unhex(t[4], NULL) : NULL;
            er[i] = mlle_error_new_literal(atoi(t[2]), atoi(t[3]), m);
            if (m) { memset(m, 'Z', strlen(m)); }
            free(m);
            show(er[i]);
        } else if (!strcmp(t[0], "set")) {
            char *m = (char *) unhex(t[4], NULL);
            mlle_error_set(i == 63 ? NULL : &er[i], atoi(t[2]), atoi(t[3]), "%s", m);
            free(m);
            show(i == 63 ? NULL : er[i]);
        } else if (!strcmp(t[0], "setlit")) {
            char *m = strcmp(t[4], "null") ? (char *) unhex(t[4], NULL) : NULL;
            mlle_error_set_literal(i == 63 ? NULL : &er[i], atoi(t[2]), atoi(t[3]), m);
            if (m) memset(m, 'Z', strlen(m));
            free(m);
            show(i == 63 ? NULL : er[i]);
        } else if (!strcmp(t[0], "prop")) {        /* prop dst src ; dst 63 = NULL destination */
            int j = atoi(t[2]) % 64;
            mlle_error_propagate(i == 63 ? NULL : &er[i], er[j]);
            er[j] = NULL;
            show(i == 63 ? NULL : er[i]);
        } else if (!strcmp(t[0], "free")) {
            mlle_error_free(i == 63 ? NULL : &er[i]);
            show(er[i]);
        } else if (!strcmp(t[0], "get")) show(er[i]);
        else printf("bad");
        putchar('\n');
        fflush(stdout);
    }
    return 0;
}
