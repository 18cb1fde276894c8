/* mlle_parse_command over generated message texts: "parse HEX [errlen]" */
#define _GNU_SOURCE
#include "libcrypto-compat.h"
#include "mlle_protocol.h"
#include "mlle_parse_command.h"
#include "hx.h"
int main(void)
{
    char *line = NULL, *t[MAXTOK];
    size_t cap = 0, n;
    int k;
    while ((k = readline_toks(&line, &cap, t)) >= 0) {
        if (k == 0) continue;
        if (!strcmp(t[0], "quit")) break;
        char *m = (char *) unhex(t[1], &n);
        size_t el = k > 2 ? (size_t) atol(t[2]) : 1000;
        char *em = calloc(el + 1, 1);
        struct mlle_command c;
        memset(&c, 0x5a, sizeof c);
        enum mlle_grammar_error_t e = mlle_parse_command(m, &c, em, el);
        if (e == LE_VALID_GRAMMAR)
            printf("ok %s %ld %ld", mlle_command_info[c.id].name, (long) c.number, (long) c.length);
        else
            printf("no %d %d %d", (int) e, (int) strlen(em), em[el]);
        free(em);
        free(m);
        putchar('\n');
        fflush(stdout);
    }
    free(line);
    return 0;
}
