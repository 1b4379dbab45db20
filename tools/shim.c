/* Stands between the executable and the C library: answers the block device
 * ioctls for regular files, makes some opens and reads fail, and records every
 * call that could change something.
 *
 * VH_SHIM_CFG: lines "path block_size open_errno ioctl_errno bad_from bad_to"
 *   (block_size 0: not a block device; paths are hexadecimal)
 * VH_SHIM_LOG: where calls are recorded, one line each */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

struct rule {
    char path[4096];
    dev_t dev;
    ino_t ino;
    int exists;
    unsigned block_size;
    int open_errno, ioctl_errno;
    long long bad_from, bad_to;
};
static struct rule *rules;
static int nrules;
static int log_fd = -1;

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })

static void note(const char *fmt, ...)
{
    char b[256];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    int e = errno;
    if (log_fd >= 0)
        syscall(SYS_write, log_fd, b, n < (int)sizeof b ? n : (int)sizeof b - 1);
    errno = e;
}

__attribute__((constructor)) static void start(void)
{
    const char *cfg = getenv("VH_SHIM_CFG"), *log = getenv("VH_SHIM_LOG");
    if (log)
        log_fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (log_fd >= 0) {
        /* Out of the way of the numbers that files get */
        int high = fcntl(log_fd, F_DUPFD_CLOEXEC, 900);
        if (high >= 0) {
            syscall(SYS_close, log_fd);
            log_fd = high;
        }
    }
    FILE *f = cfg ? fopen(cfg, "r") : NULL;
    if (!f)
        return;
    static char hex[9000];
    struct rule r;
    memset(&r, 0, sizeof r);
    while (fscanf(f, "%8999s %u %d %d %lld %lld", hex, &r.block_size, &r.open_errno, &r.ioctl_errno, &r.bad_from, &r.bad_to) == 6) {
        size_t n = strlen(hex) / 2;
        for (size_t i = 0; i < n && i < sizeof r.path - 1; i++) {
            unsigned x;
            sscanf(hex + 2 * i, "%2x", &x);
            r.path[i] = (char)x;
        }
        r.path[n < sizeof r.path ? n : sizeof r.path - 1] = 0;
        struct stat st;
        r.exists = stat(r.path, &st) == 0;
        r.dev = st.st_dev;
        r.ino = st.st_ino;
        rules = realloc(rules, (nrules + 1) * sizeof r);
        rules[nrules++] = r;
    }
    fclose(f);
    note("start\n");
}

static struct rule *of_fd(int fd)
{
    struct stat st;
    if (fstat(fd, &st))
        return NULL;
    for (int i = 0; i < nrules; i++)
        if (rules[i].exists && rules[i].dev == st.st_dev && rules[i].ino == st.st_ino)
            return &rules[i];
    return NULL;
}
static int thing(int fd)
{
    struct stat st;
    int e = errno;
    int r = fstat(fd, &st) == 0 && (S_ISREG(st.st_mode) || S_ISBLK(st.st_mode) || S_ISDIR(st.st_mode));
    errno = e;
    return r;
}

static int opening(const char *path, int flags)
{
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND));
    if (writes)
        note("open-write %x\n", flags);
    struct stat st;
    int e = errno;
    for (int i = 0; i < nrules; i++)
        if (rules[i].open_errno && !strcmp(rules[i].path, path)) {
            errno = rules[i].open_errno;
            return -1;
        }
    if (!writes && stat(path, &st) == 0)
        for (int i = 0; i < nrules; i++)
            if (rules[i].exists && rules[i].dev == st.st_dev && rules[i].ino == st.st_ino)
                note("open-read\n");
    errno = e;
    return 0;
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...)
{
    MODE(flags)
    return opening(path, flags) ? -1 : REAL(open)(path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    MODE(flags)
    return opening(path, flags) ? -1 : REAL(open64)(path, flags, mode);
}
int openat(int at, const char *path, int flags, ...)
{
    MODE(flags)
    return opening(path, flags) ? -1 : REAL(openat)(at, path, flags, mode);
}
int openat64(int at, const char *path, int flags, ...)
{
    MODE(flags)
    return opening(path, flags) ? -1 : REAL(openat64)(at, path, flags, mode);
}
int creat(const char *path, mode_t mode) { note("creat\n"); return REAL(creat)(path, mode); }
int creat64(const char *path, mode_t mode) { note("creat\n"); return REAL(creat64)(path, mode); }

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    struct rule *r = of_fd(fd);
    if (!r)
        return REAL(ioctl)(fd, req, arg);
    note("ioctl %lx\n", req);
    if (r->ioctl_errno) {
        errno = r->ioctl_errno;
        return -1;
    }
    struct stat st;
    fstat(fd, &st);
    if (r->block_size) {
        switch (req & 0xffffffff) {
        case 0x80081272: *(uint64_t *)arg = st.st_size; return 0;
        case 0x1260: *(unsigned long *)arg = st.st_size / 512; return 0;
        case 0x1268: *(int *)arg = 512; return 0;
        case 0x127b: *(unsigned *)arg = r->block_size; return 0;
        /* Nothing that changes a device is passed on */
        default: errno = EINVAL; return -1;
        }
    }
    errno = ENOTTY;
    return -1;
}

static int bad(int fd, long long pos, size_t n)
{
    struct rule *r = of_fd(fd);
    if (!r || r->bad_to <= r->bad_from)
        return 0;
    if (pos < 0)
        pos = lseek(fd, 0, SEEK_CUR);
    if (pos < r->bad_to && pos + (long long)n > r->bad_from) {
        errno = EIO;
        return 1;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n) { return bad(fd, -1, n) ? -1 : REAL(read)(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return bad(fd, o, n) ? -1 : REAL(pread)(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return bad(fd, o, n) ? -1 : REAL(pread64)(fd, b, n, o); }

#define FD_CALL(ret, name, params, args) \
    ret name params { if (thing(fd)) note(#name "\n"); return REAL(name) args; }
FD_CALL(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n))
FD_CALL(ssize_t, writev, (int fd, const struct iovec *v, int n), (fd, v, n))
FD_CALL(ssize_t, pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o))
FD_CALL(ssize_t, pwrite64, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o))
FD_CALL(ssize_t, pwritev, (int fd, const struct iovec *v, int n, off_t o), (fd, v, n, o))
FD_CALL(int, ftruncate, (int fd, off_t n), (fd, n))
FD_CALL(int, ftruncate64, (int fd, off64_t n), (fd, n))
FD_CALL(int, fallocate, (int fd, int m, off_t o, off_t n), (fd, m, o, n))
FD_CALL(int, posix_fallocate, (int fd, off_t o, off_t n), (fd, o, n))
FD_CALL(int, fchmod, (int fd, mode_t m), (fd, m))
FD_CALL(int, fchown, (int fd, uid_t u, gid_t g), (fd, u, g))
FD_CALL(int, futimens, (int fd, const struct timespec t[2]), (fd, t))

#define PATH_CALL(name, params, args) \
    int name params { note(#name "\n"); return REAL(name) args; }
PATH_CALL(unlink, (const char *p), (p))
PATH_CALL(unlinkat, (int d, const char *p, int f), (d, p, f))
PATH_CALL(remove, (const char *p), (p))
PATH_CALL(rename, (const char *a, const char *b), (a, b))
PATH_CALL(renameat, (int c, const char *a, int d, const char *b), (c, a, d, b))
PATH_CALL(link, (const char *a, const char *b), (a, b))
PATH_CALL(linkat, (int c, const char *a, int d, const char *b, int f), (c, a, d, b, f))
PATH_CALL(symlink, (const char *a, const char *b), (a, b))
PATH_CALL(mkdir, (const char *p, mode_t m), (p, m))
PATH_CALL(mkdirat, (int d, const char *p, mode_t m), (d, p, m))
PATH_CALL(rmdir, (const char *p), (p))
PATH_CALL(truncate, (const char *p, off_t n), (p, n))
PATH_CALL(truncate64, (const char *p, off64_t n), (p, n))
PATH_CALL(chmod, (const char *p, mode_t m), (p, m))
PATH_CALL(chown, (const char *p, uid_t u, gid_t g), (p, u, g))
PATH_CALL(utimensat, (int d, const char *p, const struct timespec t[2], int f), (d, p, t, f))

static void mapping(int prot, int flags, int fd)
{
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && fd >= 0 && thing(fd))
        note("mmap-write\n");
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    mapping(prot, flags, fd);
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o)
{
    mapping(prot, flags, fd);
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
