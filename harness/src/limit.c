/* Linked into the programs of the optimised build: no more memory than the ASan build allows,
   so that a huge announced length cannot take the machine's memory; less with V_AS (in MB). */
#include <stdlib.h>
#include <sys/resource.h>
__attribute__((constructor)) static void limit(void)
{
    unsigned long n = getenv("V_AS") ? strtoul(getenv("V_AS"), NULL, 10) : 2500;
    struct rlimit r = { n << 20, n << 20 };
    setrlimit(RLIMIT_AS, &r);
}
