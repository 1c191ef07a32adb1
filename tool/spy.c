/* Preloaded into the cpuid program: writes down which environment variables it asks for. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <string.h>
#include <unistd.h>

extern char **environ;

static char *find(const char *n)
{
    size_t k = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, k) && (*e)[k] == '=')
            return *e + k + 1;
    return 0;
}

char *getenv(const char *n)
{
    char *log = find("SPY_LOG");
    if (log && strcmp(n, "SPY_LOG")) {
        int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0600);
        if (fd >= 0) {
            if (write(fd, n, strlen(n)) >= 0 && write(fd, "\n", 1) >= 0) {}
            close(fd);
        }
    }
    return find(n);
}

char *secure_getenv(const char *n) { return getenv(n); }
