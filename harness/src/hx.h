/* line protocol helpers for the harness programs: strings travel as hex ("-" = empty) */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned char *unhex(const char *s, size_t *len)
{
    size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0, i;
    unsigned char *p = malloc(n + 1);
    for (i = 0; i < n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (unsigned char) v; }
    p[n] = 0;
    if (len) *len = n;
    return p;
}
static void puthex(const void *d, size_t n)
{
    static const char H[] = "0123456789abcdef";
    const unsigned char *p = d;
    size_t i;
    if (!n) { putchar('-'); return; }
    for (i = 0; i < n; i++) { putchar(H[p[i] >> 4]); putchar(H[p[i] & 15]); }
}
#define MAXTOK 8
static int readline_toks(char **line, size_t *cap, char **tok)
{
    ssize_t n = getline(line, cap, stdin);
    int k = 0;
    char *p;
    if (n <= 0) return -1;
    if ((*line)[n - 1] == '\n') (*line)[n - 1] = 0;
    for (p = strtok(*line, " "); p && k < MAXTOK; p = strtok(NULL, " ")) tok[k++] = p;
    return k;
}
#endif
