/* Stands where an LVE executable would: joins its stdin/stdout to the Unix
 * socket "<argv[0]>.sock", so that the checking script plays the LVE. */
#include <poll.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
static int wr(int fd, const char *b, ssize_t n)
{
    while (n > 0) { ssize_t k = write(fd, b, n); if (k <= 0) return 0; b += k; n -= k; }
    return 1;
}
int main(int argc, char **argv)
{
    struct sockaddr_un a = { AF_UNIX, "" };
    char b[65536];
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    (void) argc;
    snprintf(a.sun_path, sizeof a.sun_path, "%s.sock", argv[0]);
    if (connect(s, (struct sockaddr *) &a, sizeof a)) return 9;
    for (;;) {
        struct pollfd p[2] = { { 0, POLLIN, 0 }, { s, POLLIN, 0 } };
        ssize_t n;
        if (poll(p, 2, -1) < 0) return 0;
        if (p[0].revents) { n = read(0, b, sizeof b); if (n <= 0 || !wr(s, b, n)) return 0; }
        if (p[1].revents) { n = read(s, b, sizeof b); if (n <= 0 || !wr(1, b, n)) return 0; }
    }
}
