// Counts the calls that change files; at the chosen one kills the process or makes it fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <fcntl.h>
#include <stdio.h>
static long n = 0;
static long kill_at = -1, fail_at = -1;
static int logfd = -1;
static const char *dir;
__attribute__((constructor)) static void init(void) {
    char *s;
    if ((s = getenv("SHIM_KILL"))) kill_at = atol(s);
    if ((s = getenv("SHIM_FAIL"))) fail_at = atol(s);
    if ((s = getenv("SHIM_COUNT"))) logfd = open(s, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dir = getenv("SHIM_DIR");
}
// Only files below SHIM_DIR count.
static int ours(int fd) {
    char p[64], b[512];
    ssize_t l;
    if (!dir) return 0;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    l = readlink(p, b, sizeof b - 1);
    if (l <= 0) return 0;
    b[l] = 0;
    return strncmp(b, dir, strlen(dir)) == 0;
}
// 1: fail this call
static int ev(void) {
    long k = __sync_add_and_fetch(&n, 1);
    if (logfd >= 0) {
        char b[32];
        int l = snprintf(b, sizeof b, "%ld\n", k);
        static ssize_t (*w)(int, const void *, size_t, off_t);
        if (!w) w = dlsym(RTLD_NEXT, "pwrite");
        w(logfd, b, l, 0);
    }
    if (k == kill_at) _exit(99);
    return fail_at >= 0 && k >= fail_at;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(pwrite64);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd, b, c, o);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(pwrite);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd, b, c, o);
}
ssize_t write(int fd, const void *b, size_t c) {
    REAL(write);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd, b, c);
}
int fsync(int fd) {
    REAL(fsync);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd);
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd);
}
int ftruncate64(int fd, off64_t l) {
    REAL(ftruncate64);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd, l);
}
int ftruncate(int fd, off_t l) {
    REAL(ftruncate);
    if (ours(fd) && ev()) { errno = EIO; return -1; }
    return real(fd, l);
}
int unlink(const char *p) {
    REAL(unlink);
    if (dir && strncmp(p, dir, strlen(dir)) == 0 && ev()) { errno = EIO; return -1; }
    return real(p);
}
