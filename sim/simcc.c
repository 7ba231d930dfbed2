/* The compiler seam: found first on an actor's PATH under the names gcc, cc,
 * clang.  Asks the controller what this compiler run does. */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
static int fd;
static void put(const char *b, size_t n) { while (n) { ssize_t r = write(fd, b, n); if (r <= 0) _exit(96); b += r; n -= r; } }
static void line(char *b, size_t cap)
{
    size_t g = 0;
    while (g < cap - 1) { ssize_t r = read(fd, b + g, 1); if (r <= 0) _exit(97); if (b[g++] == '\n') break; }
    b[g] = 0;
}
int main(int argc, char **argv)
{
    const char *sock = getenv("SIMCC_SOCK");
    const char *dir = getenv("SIMCC_REALDIR");
    const char *b = strrchr(argv[0], '/');
    char real[4096], buf[256], cwd[4096];
    snprintf(real, sizeof real, "%s/%s", dir ? dir : "/usr/bin", b ? b + 1 : argv[0]);


    argv[0] = real; /* gcc locates cc1 relative to argv[0] */
    if (!sock) { execv(real, argv); _exit(127); }
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    strncpy(a.sun_path, sock, sizeof a.sun_path - 1);
    fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (connect(fd, (struct sockaddr *)&a, sizeof a)) _exit(98);
    put("C\x1f", 2);
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    put(cwd, strlen(cwd));
    put("\x1f", 1);
    { const char *nm = strrchr(real, '/') + 1; put(nm, strlen(nm)); }
    for (int i = 1; i < argc; i++) { put("\x1f", 1); put(argv[i], strlen(argv[i])); }
    put("\n", 1);
    for (;;) {
        char act; int n = 0;
        line(buf, sizeof buf);
        sscanf(buf, "%c %d", &act, &n);
        if (act == 'X') _exit(n);
        if (act == 'G') { signal(n, SIG_DFL); kill(getpid(), n); _exit(128 + n); }
        if (act == 'R') {
            pid_t p = fork();
            if (p == 0) { execv(real, argv); _exit(127); }
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
            snprintf(buf, sizeof buf, "D %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
            put(buf, strlen(buf));
        }
    }
}
