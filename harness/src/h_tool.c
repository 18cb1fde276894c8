/* Drives the tool library (mlle_licensing.h) from a line protocol on stdin/stdout. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "mlle_licensing.h"
#include "hx.h"

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

#define MAXS 256
static struct mlle_connections *conn[MAXS];
static struct mlle_file_contents *fc[MAXS];
static int nullerr;
static int pipe_fail = -1, fork_fail = -1;     /* the n-th call from now fails */

int pipe(int fd[2])
{
    static int (*real)(int *);
    if (!real) real = (int (*)(int *)) dlsym(RTLD_NEXT, "pipe");
    if (pipe_fail >= 0 && pipe_fail-- == 0) { errno = EMFILE; return -1; }
    return real(fd);
}

int pipe2(int fd[2], int flags)
{
    static int (*real)(int *, int);
    if (!real) real = (int (*)(int *, int)) dlsym(RTLD_NEXT, "pipe2");
    if (pipe_fail >= 0 && pipe_fail-- == 0) { errno = EMFILE; return -1; }
    return real(fd, flags);
}

pid_t fork(void)
{
    static pid_t (*real)(void);
    if (!real) real = (pid_t (*)(void)) dlsym(RTLD_NEXT, "fork");
    if (fork_fail >= 0 && fork_fail-- == 0) { errno = EAGAIN; return -1; }
    return real();
}

/* a tool that handles signals (timers, profilers): interrupts system calls while the API runs */
static long tick;
static void on_tick(int s) { (void) s; }
static void ticks(int on)
{
    struct itimerval v = { { 0, on ? tick : 0 }, { 0, on ? tick : 0 } };
    if (tick) setitimer(ITIMER_REAL, &v, NULL);
}

static void report(long ret, struct mlle_error **err)
{
    printf("ret=%ld err=", ret);
    if (!err || !*err) printf("none");
    else {
        char *m = mlle_error_get_message(*err);
        printf("%d,%d,", mlle_error_get_domain(*err), mlle_error_get_code(*err));
        if (m) puthex(m, strlen(m)); else printf("null");
        mlle_error_free(err);
    }
}

/* one thread of "par": makes its calls on its own connection, again and again */
struct job {
    int id, reps, ncall;
    char *op[64], *arg[64];
    char *out;
    pthread_t th;
};

static void *work(void *p)
{
    struct job *j = p;
    size_t n;
    FILE *o = open_memstream(&j->out, &n);
    int i, k;
    for (i = 0; i < j->reps; i++)
        for (k = 0; k < j->ncall; k++) {
            struct mlle_error *e = NULL;
            char *a = (char *) unhex(j->arg[k], NULL);
            const char *op = j->op[k];
            unsigned long long h = 14695981039346656037ull;
            size_t len = 0, got = 0, x;
            int r;
            if (!strcmp(op, "file")) {
                struct mlle_file_contents *f = mlle_tool_file(conn[j->id], a, &e);
                r = f != NULL;
                if (f) {
                    unsigned char *b = malloc(7777);
                    len = mlle_tool_get_file_size(f);
                    while ((x = mlle_tool_read_bytes(f, (char *) b, 7777)) != (size_t) -1) {
                        size_t y;
                        for (y = 0; y < x; y++) h = (h ^ b[y]) * 1099511628211ull;
                        got += x;
                    }
                    free(b);
                    mlle_file_contents_free(&f);
                }
            } else if (!strcmp(op, "start")) {
                conn[j->id] = mlle_start_executable(a, &e);
                r = conn[j->id] != NULL;
            } else if (!strcmp(op, "free")) {
                mlle_connections_free(&conn[j->id]);
                r = conn[j->id] == NULL;
            } else
                r = !strcmp(op, "version") ? mlle_tool_version(conn[j->id], 1, atoi(a), &e)
                  : !strcmp(op, "libpath") ? mlle_tool_libpath(conn[j->id], a, &e)
                  : !strcmp(op, "feature") ? mlle_tool_feature(conn[j->id], a, &e)
                  : !strcmp(op, "returnfeature") ? mlle_tool_returnfeature(conn[j->id], a, &e)
                  : !strcmp(op, "license") ? mlle_tool_license(conn[j->id], a, &e)
                  : mlle_tool_returnlicense(conn[j->id], a, &e);
            fprintf(o, "%s%d.%zu.%zu.%llx.", i || k ? "," : "", r, len, got, h);
            if (e) {
                unsigned char *m = (unsigned char *) mlle_error_get_message(e);
                fprintf(o, "%d.", mlle_error_get_code(e));
                if (m) for (; *m; m++) fprintf(o, "%02x", *m); else fprintf(o, "null");
                mlle_error_free(&e);
            } else fprintf(o, "none.");
            free(a);
        }
    fclose(o);
    return NULL;
}

/* par id/reps/op:arg,op:arg;id/reps/...: one thread for each part, all at the same time */
static void par(char *spec)
{
    struct job *j = calloc(MAXS, sizeof *j);
    char *s1 = NULL, *s2 = NULL, *p, *q;
    int n = 0, i;
    for (p = strtok_r(spec, ";", &s1); p; p = strtok_r(NULL, ";", &s1), n++) {
        j[n].id = atoi(p);
        p = strchr(p, '/') + 1;
        j[n].reps = atoi(p);
        p = strchr(p, '/') + 1;
        for (q = strtok_r(p, ",", &s2); q; q = strtok_r(NULL, ",", &s2)) {
            char *c = strchr(q, ':');
            *c = 0;
            j[n].op[j[n].ncall] = q;
            j[n].arg[j[n].ncall++] = c + 1;
        }
    }
    ticks(1);
    for (i = 0; i < n; i++) pthread_create(&j[i].th, NULL, work, &j[i]);
    for (i = 0; i < n; i++) pthread_join(j[i].th, NULL);
    ticks(0);
    printf("ret=%d", n);
    for (i = 0; i < n; i++) { printf(" t%d=%s", i, j[i].out); free(j[i].out); }
    free(j);
}

int main(void)
{
    char *line = NULL, *t[MAXTOK];
    size_t cap = 0;
    int k;
    signal(SIGPIPE, SIG_IGN);
    if (getenv("H_CLOSE")) {            /* a tool that runs without (some of) the standard streams */
        int i, m = atoi(getenv("H_CLOSE")), in = fcntl(0, F_DUPFD_CLOEXEC, 200), out = fcntl(1, F_DUPFD_CLOEXEC, 200);
        stdin = fdopen(in, "r");
        stdout = fdopen(out, "w");
        for (i = 0; i < 3; i++) if (m >> i & 1) close(i);
    }
    while ((k = readline_toks(&line, &cap, t)) >= 0) {
        struct mlle_error *e = NULL, **ep = nullerr ? NULL : &e;
        int id = k > 1 ? atoi(t[1]) : 0;
        if (k == 0) continue;
        if (!strcmp(t[0], "quit")) break;
        else if (!strcmp(t[0], "tick")) {
            struct sigaction a;
            memset(&a, 0, sizeof a);
            a.sa_handler = on_tick;
            sigaction(SIGALRM, &a, NULL);
            tick = id;
            printf("ok");
        }
        else if (!strcmp(t[0], "mem")) printf("ret=%zu", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0);
        else if (!strcmp(t[0], "par")) par(t[1]);
        else if (!strcmp(t[0], "nullerr")) { nullerr = id; printf("ok"); }
        else if (!strcmp(t[0], "fault")) { pipe_fail = atoi(t[1]); fork_fail = atoi(t[2]); printf("ok"); }
        else if (!strcmp(t[0], "env")) { char *v = (char *) unhex(t[2], NULL); setenv(t[1], v, 1); free(v); printf("ok"); }
        else if (!strcmp(t[0], "start")) {
            char *p = (char *) unhex(t[2], NULL);
            ticks(1);
            conn[id] = mlle_start_executable(p, ep);
            ticks(0);
            free(p);
            report(conn[id] != NULL, ep);
        } else if (!strcmp(t[0], "version")) {
            int r;
            ticks(1);
            r = mlle_tool_version(conn[id], atoi(t[2]), atoi(t[3]), ep);
            ticks(0);
            report(r, ep);
        } else if (!strcmp(t[0], "libpath") || !strcmp(t[0], "feature") || !strcmp(t[0], "returnfeature")
                   || !strcmp(t[0], "license") || !strcmp(t[0], "returnlicense")) {
            char *p = (char *) unhex(t[2], NULL);
            int r;
            ticks(1);
            r = !strcmp(t[0], "libpath") ? mlle_tool_libpath(conn[id], p, ep)
                  : !strcmp(t[0], "feature") ? mlle_tool_feature(conn[id], p, ep)
                  : !strcmp(t[0], "returnfeature") ? mlle_tool_returnfeature(conn[id], p, ep)
                  : !strcmp(t[0], "license") ? mlle_tool_license(conn[id], p, ep)
                  : mlle_tool_returnlicense(conn[id], p, ep);
            ticks(0);
            free(p);
            report(r, ep);
        } else if (!strcmp(t[0], "file")) {
            int f = atoi(t[2]);
            char *p = (char *) unhex(t[3], NULL);
            ticks(1);
            fc[f] = mlle_tool_file(conn[id], p, ep);
            ticks(0);
            free(p);
            report(fc[f] != NULL, ep);
        } else if (!strcmp(t[0], "size")) {
            printf("ret=%ld", (long) mlle_tool_get_file_size(fc[id]));
        } else if (!strcmp(t[0], "read")) {
            size_t n = strtoul(t[2], NULL, 10), r;
            /* "as much as there is": the buffer holds all that is left */
            size_t have = n > 1 << 22 && n > mlle_tool_get_file_size(fc[id]) ? mlle_tool_get_file_size(fc[id]) + 1 : n;
            char *b = malloc(have ? have : 1);
            memset(b, 0x5a, have ? have : 1);
            r = mlle_tool_read_bytes(fc[id], b, n);
            printf("ret=%ld data=", (long) r);
            if (r != (size_t) -1 && r <= n) puthex(b, r); else putchar('-');
            free(b);
        } else if (!strcmp(t[0], "ffree")) { mlle_file_contents_free(&fc[id]); printf("ret=%d", fc[id] == NULL); }
        else if (!strcmp(t[0], "free")) { ticks(1); mlle_connections_free(&conn[id]); ticks(0); printf("ret=%d", conn[id] == NULL); }
        else if (!strcmp(t[0], "fds")) {
            DIR *d = opendir("/proc/self/fd");
            struct dirent *x;
            int n = 0;
            while ((x = readdir(d))) if (x->d_name[0] != '.') n++;
            closedir(d);
            printf("ret=%d", n - 1);
        } else if (!strcmp(t[0], "reap")) {
            int n = 0;
            while (waitpid(-1, NULL, WNOHANG) > 0) n++;
            printf("ret=%d", n);
        } else printf("bad");
        putchar('\n');
        fflush(stdout);
    }
    return 0;
}
