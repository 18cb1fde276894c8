/* Stands between the tool and the LVE next to it: passes everything on, but after
 * SIGUSR1 (SIGUSR2) damages the next bytes to the tool (to the LVE). */
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
static volatile sig_atomic_t bad[2];
static void on(int s) { bad[s == SIGUSR2] = 1; }
static int pass(int from, int to, int dir)
{
    char b[65536];
    ssize_t n = read(from, b, sizeof b), k, i;
    if (n <= 0) return n < 0;
    if (bad[dir]) { bad[dir] = 0; b[n - 1] ^= 1; }
    for (i = 0; i < n; i += k) if ((k = write(to, b + i, n - i)) <= 0) break;
    return 1;
}
int main(void)
{
    char path[4096];
    ssize_t n = readlink("/proc/self/exe", path, sizeof path - 20);
    int a[2], b[2], in = 0;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on;
    sa.sa_flags = SA_RESTART;
    if (n < 0) return 9;
    path[n] = 0;
    strcpy(strrchr(path, '/'), "/lve_linux64");
    signal(SIGPIPE, SIG_IGN);
    sigaction(SIGUSR1, &sa, NULL);
    sigaction(SIGUSR2, &sa, NULL);
    if (pipe(a) || pipe(b)) return 9;
    if (fork() == 0) {
        dup2(a[0], 0);
        dup2(b[1], 1);
        close(a[0]), close(a[1]), close(b[0]), close(b[1]);
        execl(path, path, (char *) NULL);
        _exit(9);
    }
    close(a[0]), close(b[1]);
    for (;;) {
        struct pollfd p[2] = { { in, POLLIN, 0 }, { b[0], POLLIN, 0 } };
        if (poll(p, 2, -1) < 0) continue;
        if (p[1].revents && !pass(b[0], 1, 0)) break;
        if (p[0].revents && !pass(0, a[1], 1)) { close(a[1]); in = -1; }
    }
    close(1);
    close(0);
    wait(NULL);
    return 0;
}
