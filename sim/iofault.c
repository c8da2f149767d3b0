/* Preloaded into the command line tool: each write to stdout (or stderr) follows a script.
 *
 * IOFAULT_OUT and IOFAULT_ERR hold one letter per call:
 *   .  as it is           i  interrupted (EINTR)
 *   1  at most one byte   h  at most half of the bytes
 *   n  no space (ENOSPC)  e  i/o error (EIO)      p  broken pipe (EPIPE)   a  not now (EAGAIN)
 * A capital letter fails this call and all that follow. After the last letter, calls are left as they are.
 * IOFAULT_LOG names a file that gets one letter for each call to stdout.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static ssize_t (*real_write)(int, const void *, size_t);
static size_t at[3];

static int code(char c)
{
    switch (c) {
    case 'n': return ENOSPC;
    case 'e': return EIO;
    case 'p': return EPIPE;
    case 'a': return EAGAIN;
    case 'i': return EINTR;
    }
    return 0;
}

static void note(char c)
{
    static int log_fd = -2;
    if (log_fd == -2) {
        const char *p = getenv("IOFAULT_LOG");
        log_fd = p ? open(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600) : -1;
    }
    if (log_fd >= 0)
        real_write(log_fd, &c, 1);
}

/* How many bytes to pass on; -1 with errno for a failure */
static ssize_t plan(int fd, size_t n)
{
    const char *s = getenv(fd == 1 ? "IOFAULT_OUT" : "IOFAULT_ERR");
    size_t len = s ? strlen(s) : 0;
    char c = '.';
    if (at[fd] < len) {
        c = s[at[fd]];
        if (!isupper((unsigned char)c))
            at[fd]++;
    }
    if (fd == 1)
        note(c);
    c = (char)tolower((unsigned char)c);
    if (code(c)) {
        errno = code(c);
        return -1;
    }
    if (c == '1' && n > 1)
        return 1;
    if (c == 'h' && n > 1)
        return (ssize_t)(n / 2);
    return (ssize_t)n;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (!real_write)
        real_write = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (fd != 1 && fd != 2)
        return real_write(fd, buf, n);
    ssize_t k = plan(fd, n);
    return k < 0 ? k : real_write(fd, buf, (size_t)k);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real)
        real = (ssize_t(*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
    if (fd != 1 && fd != 2)
        return real(fd, iov, cnt);
    /* the first part that has something: a short transfer */
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len)
            return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
