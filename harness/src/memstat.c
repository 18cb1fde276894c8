/* Preloaded into programs under test. mkdtemp fails if V_NOTMP is set. With V_DTYPE set,
 * readdir does not tell the type of the entries. Call number V_RDSRC (V_RDTMP) of readdir
 * on directories outside of (inside) the temporary folder of packagetool fails.
 * Preloaded into an LVE built with AddressSanitizer: on SIGUSR1 the number of bytes
 * allocated at the moment is written to the fifo MEMSTAT_FIFO. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <stdio.h>
char *mkdtemp(char *t)
{
    static char *(*real)(char *);
    if (getenv("V_NOTMP")) {
        errno = ENOSPC;
        return NULL;
    }
    if (!real) *(void **) &real = dlsym(RTLD_NEXT, "mkdtemp");
    return real(t);
}
struct dirent *readdir(DIR *d)
{
    static struct dirent *(*real)(DIR *);
    static struct dirent copy;
    static long calls[2];
    const char *e;
    char link[40], path[30] = "";
    struct dirent *r;
    int tmp;
    if (!real) *(void **) &real = dlsym(RTLD_NEXT, "readdir");
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd(d));
    if (readlink(link, path, sizeof path - 1) < 0) path[0] = 0;
    tmp = strncmp(path, "/tmp/TemporaryFolder", 20) == 0;
    e = getenv(tmp ? "V_RDTMP" : "V_RDSRC");
    if (e && calls[tmp]++ == atol(e)) {
        errno = EIO;
        return NULL;
    }
    r = real(d);
    if (r && getenv("V_DTYPE")) {
        memcpy(&copy, r, r->d_reclen < sizeof copy ? r->d_reclen : sizeof copy);
        copy.d_type = DT_UNKNOWN;
        return &copy;
    }
    return r;
}
struct dirent64 *readdir64(DIR *d)
{
    return (struct dirent64 *) readdir(d);
}
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static int fd = -1;
static void on(int s)
{
    size_t n = __sanitizer_get_current_allocated_bytes();
    (void) s;
    if (write(fd, &n, sizeof n) != sizeof n) _exit(96);
}
__attribute__((constructor)) static void init(void)
{
    const char *e = getenv("MEMSTAT_FIFO");
    struct sigaction a;
    if (!e) return;
    fd = open(e, O_WRONLY);
    memset(&a, 0, sizeof a);
    a.sa_handler = on;
    a.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &a, NULL);
}
