// LD_PRELOAD for C28: the k-th read of the input / write of the output / close of the output fails or is short.
// C28_FAULT = "<what> <k> <errno>", what: r read fails, R every read gives one byte, w write fails, W writes are cut to half, c close fails
// C28_IN = inode of the input, C28_FIRED = file created when the fault happened
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static char what; static long at, err, n;
static unsigned long in;
static void setup(void)
{
    static int once; if (once++) return;
    const char* f = getenv("C28_FAULT"); if (f) sscanf(f, "%c %ld %ld", &what, &at, &err);
    f = getenv("C28_IN"); if (f) in = strtoul(f, 0, 10);
}
static void fired(void) { const char* f = getenv("C28_FIRED"); if (f) { int d = (int)syscall(SYS_openat, AT_FDCWD, f, O_CREAT | O_WRONLY, 0600); if (d >= 0) syscall(SYS_close, d); } }
static int isIn(int fd) { struct stat s; setup(); return fd > 2 && !fstat(fd, &s) && s.st_ino == in; }
static int isOut(int fd) { struct stat s; setup(); return fd > 2 && !fstat(fd, &s) && S_ISREG(s.st_mode) && s.st_ino != in; }
ssize_t read(int fd, void* b, size_t k)
{
    if (isIn(fd))
    {
        if (what == 'r' && (++n == at || (n > at && err == EIO))) { fired(); errno = (int)err; return -1; }
        if (what == 'R' && k > 1) { fired(); k = 1 + (size_t)(n++ % at); }
    }
    return syscall(SYS_read, fd, b, k);
}
ssize_t write(int fd, const void* b, size_t k)
{
    if (isOut(fd))
    {
        if (what == 'w' && (++n == at || (n > at && err == ENOSPC))) { fired(); errno = (int)err; return -1; }
        if (what == 'W' && k > 1) { fired(); k = k / 2 < (size_t)at ? k / 2 : (size_t)at; }
    }
    return syscall(SYS_write, fd, b, k);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (isOut(fd))
    {
        if (what == 'w' && (++n == at || (n > at && err == ENOSPC))) { fired(); errno = (int)err; return -1; }
        if (what == 'W') for (int i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_writev, fd, v, c);
}
int close(int fd)
{
    if (what == 'c' && isOut(fd) && ++n == at) { fired(); syscall(SYS_close, fd); errno = (int)err; return -1; }
    return (int)syscall(SYS_close, fd);
}
