// Stands in for cargo and git: tells the simulator what it was asked for and
// does what the simulator says. Found next to it: the socket.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

int main(int argc, char **argv) {
    char self[4096], cwd[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 16);
    if (n < 0) return 99;
    self[n] = 0;
    char *slash = strrchr(self, '/');
    const char *name = strdup(slash + 1);
    strcpy(slash, "/sock");
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    strncpy(a.sun_path, self, sizeof a.sun_path - 1);
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (connect(s, (struct sockaddr *)&a, sizeof a) < 0) return 98;
    FILE *f = fdopen(dup(s), "w");
    fprintf(f, "run%c%s%c%s", 0, name, 0, getcwd(cwd, sizeof cwd) ? cwd : "?");
    for (int i = 1; i < argc; i++) fprintf(f, "%c%s", 0, argv[i]);
    fclose(f);
    shutdown(s, SHUT_WR);
    unsigned char head[2];
    size_t got = 0;
    while (got < 2) {
        n = read(s, head + got, 2 - got);
        if (n <= 0) return 97;
        got += n;
    }
    char buf[4096];
    while ((n = read(s, buf, sizeof buf)) > 0)
        if (write(1, buf, n) < 0) return 96;
    if (head[0]) {
        raise(head[1]);
        _exit(95);
    }
    _exit(head[1]);
}
