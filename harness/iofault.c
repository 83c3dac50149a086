/* Counts the file operations a process performs below the directory VF_ROOT and makes the one numbered VF_N fail.
   VF_LOG: file descriptor number to which one line per counted operation is written ("kind path"). VF_MODE selects how it fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static char *paths[NFD];          /* path of every followed descriptor */
static char wr[NFD];
static int dead = -1;             /* descriptor whose every further write fails */
static int dead_err = 0;
static long n = 0, target = -1;
static int logfd = -1, err = 0, partial = 0, init_done = 0;
static char root[PATH_MAX];
static size_t rootlen = 0;

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void init(void)
{
    if (init_done) return;
    init_done = 1;
    const char *r = getenv("VF_ROOT");
    if (r) { strncpy(root, r, sizeof(root) - 1); rootlen = strlen(root); }
    const char *l = getenv("VF_LOG");
    if (l) logfd = atoi(l);
    const char *t = getenv("VF_N");
    if (t) target = atol(t);
    const char *m = getenv("VF_MODE");
    err = EIO;
    if (m) {
        if (!strcmp(m, "EACCES")) err = EACCES;
        else if (!strcmp(m, "ENOSPC")) err = ENOSPC;
        else if (!strcmp(m, "EMFILE")) err = EMFILE;
        else if (!strcmp(m, "PARTIAL")) { err = ENOSPC; partial = 1; }
        else if (!strcmp(m, "SHORT")) { partial = 2; }
    }
}

/* absolute, without "." components, so that different spellings read the same */
static const char *norm(const char *p, char *buf)
{
    char t[PATH_MAX];
    if (!p) return NULL;
    if (p[0] == '/') { strncpy(t, p, sizeof(t) - 1); t[sizeof(t) - 1] = 0; }
    else { if (!getcwd(t, sizeof(t))) return NULL; size_t k = strlen(t); snprintf(t + k, sizeof(t) - k, "/%s", p); }
    size_t o = 0;
    for (char *s = t; *s;) {
        while (*s == '/') ++s;
        if (!*s) break;
        char *e = s;
        while (*e && *e != '/') ++e;
        if (!(e - s == 1 && *s == '.')) { buf[o++] = '/'; memcpy(buf + o, s, e - s); o += e - s; }
        s = e;
    }
    buf[o] = 0;
    return buf;
}

static const char *inside(const char *p, char *buf)
{
    init();
    if (!rootlen || !norm(p, buf)) return NULL;
    if (rootlen == 1) return buf;          /* everything */
    if (strncmp(buf, root, rootlen) || (buf[rootlen] != '/' && buf[rootlen])) return NULL;
    return buf + rootlen;
}

/* 1: this operation has to fail */
static int op(const char *kind, const char *rel)
{
    long i = n++;
    if (logfd >= 0) {
        char b[PATH_MAX + 64];
        int k = snprintf(b, sizeof(b), "%s %s\n", kind, rel);
        static ssize_t (*w)(int, const void *, size_t);
        if (!w) w = dlsym(RTLD_NEXT, "write");
        if (w(logfd, b, k) < 0) abort();
    }
    return i == target;
}

static void follow(int fd, const char *rel, int w)
{
    if (fd >= 0 && fd < NFD) { free(paths[fd]); paths[fd] = strdup(rel); wr[fd] = (char)w; if (dead == fd) dead = -1; }
}
static void forget(int fd) { if (fd >= 0 && fd < NFD) { free(paths[fd]); paths[fd] = NULL; if (dead == fd) dead = -1; } }
static int known(int fd) { return fd >= 0 && fd < NFD && paths[fd]; }

static int do_open(const char *p, int flags, mode_t m, int (*f)(const char *, int, ...))
{
    char b[PATH_MAX];
    const char *r = inside(p, b);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (r && op(w ? "openw" : access(p, F_OK) ? "probe" : "openr", r)) { errno = err; return -1; }
    int fd = f(p, flags, m);
    if (r) follow(fd, r, w);
    return fd;
}
int open(const char *p, int flags, ...)
{
    REAL(open); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_open(p, flags, m, real);
}
int open64(const char *p, int flags, ...)
{
    REAL(open64); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_open(p, flags, m, real);
}
static int do_openat(int d, const char *p, int flags, mode_t m, int (*f)(int, const char *, int, ...))
{
    char b[PATH_MAX], j[PATH_MAX];
    const char *r = NULL;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (p[0] == '/' || d == AT_FDCWD) r = inside(p, b);
    else if (known(d)) { snprintf(j, sizeof(j), "%s%s/%s", rootlen == 1 ? "" : root, paths[d], p); r = inside(j, b); }
    if (r && op(w ? "openw" : (flags & O_DIRECTORY) ? "opend" : "openr", r)) { errno = err; return -1; }
    int fd = f(d, p, flags, m);
    if (r) follow(fd, r, w);
    return fd;
}
int openat(int d, const char *p, int flags, ...)
{
    REAL(openat); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_openat(d, p, flags, m, real);
}
int openat64(int d, const char *p, int flags, ...)
{
    REAL(openat64); va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_openat(d, p, flags, m, real);
}
int __openat_2(int d, const char *p, int flags) { REAL(openat); return do_openat(d, p, flags, 0, real); }
int __open_2(const char *p, int flags) { REAL(open); return do_open(p, flags, 0, real); }
int creat(const char *p, mode_t m) { REAL(open); return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m, real); }

static FILE *do_fopen(const char *p, const char *mode, FILE *(*f)(const char *, const char *))
{
    char b[PATH_MAX];
    const char *r = inside(p, b);
    int w = strpbrk(mode, "wa+") != NULL;
    if (r && op(w ? "openw" : access(p, F_OK) ? "probe" : "openr", r)) { errno = err; return NULL; }
    FILE *s = f(p, mode);
    if (r && s) follow(fileno(s), r, w);
    return s;
}
FILE *fopen(const char *p, const char *m) { REAL(fopen); return do_fopen(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return do_fopen(p, m, real); }

int fclose(FILE *s)
{
    REAL(fclose);
    int fd = fileno(s), bad = 0;
    if (known(fd)) { bad = wr[fd] && op("close", paths[fd]); forget(fd); }
    int rc = real(s);
    if (bad) { errno = err; return EOF; }
    return rc;
}
int close(int fd)
{
    REAL(close);
    int bad = 0;
    if (known(fd)) { bad = wr[fd] && op("close", paths[fd]); forget(fd); }
    int rc = real(fd);
    if (bad) { errno = err; return -1; }
    return rc;
}

ssize_t write(int fd, const void *p, size_t k)
{
    REAL(write);
    init();
    if (known(fd)) {
        if (dead == fd) { errno = dead_err; return -1; }
        if (op("write", paths[fd])) {
            if (!partial) { errno = err; dead = fd; dead_err = err; return -1; }
            if (partial == 1) { dead = fd; dead_err = err; }
            if (k / 2 == 0) { if (partial == 1) { errno = err; return -1; } return real(fd, p, k); }
            return real(fd, p, k / 2);
        }
    }
    return real(fd, p, k);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    init();
    if (known(fd)) {
        if (dead == fd) { errno = dead_err; return -1; }
        if (op("write", paths[fd])) {
            if (!partial) { errno = err; dead = fd; dead_err = err; return -1; }
            if (partial == 1) { dead = fd; dead_err = err; }
            size_t tot = 0;
            for (int i = 0; i < c; ++i) tot += v[i].iov_len;
            if (tot / 2 == 0) { if (partial == 1) { errno = err; return -1; } return real(fd, v, c); }
            char *b = malloc(tot), *q = b;
            for (int i = 0; i < c; ++i) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
            static ssize_t (*w)(int, const void *, size_t);
            if (!w) w = dlsym(RTLD_NEXT, "write");
            ssize_t rc = w(fd, b, tot / 2);
            free(b);
            return rc;
        }
    }
    return real(fd, v, c);
}
ssize_t read(int fd, void *p, size_t k)
{
    REAL(read);
    init();
    if (known(fd) && op("read", paths[fd])) { errno = err; return -1; }
    return real(fd, p, k);
}
ssize_t __read_chk(int fd, void *p, size_t k, size_t l) { (void)l; return read(fd, p, k); }
ssize_t sendfile(int o, int i, off_t *off, size_t k)
{
    static ssize_t (*real)(int, int, off_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    init();
    if (known(o) && op("write", paths[o])) { errno = err; return -1; }
    return real(o, i, off, k);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t k, unsigned fl)
{
    static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
    init();
    if (known(o) && op("write", paths[o])) { errno = err; return -1; }
    return real(i, io, o, oo, k, fl);
}
int mkdir(const char *p, mode_t m)
{
    REAL(mkdir);
    char b[PATH_MAX];
    const char *r = inside(p, b);
    if (r && op("mkdir", r)) { errno = err; return -1; }
    return real(p, m);
}
int fchmod(int fd, mode_t m)
{
    REAL(fchmod);
    init();
    if (known(fd) && op("chmod", paths[fd])) { errno = err; return -1; }
    return real(fd, m);
}
int rename(const char *a, const char *c)
{
    REAL(rename);
    char b[PATH_MAX];
    const char *r = inside(c, b);
    if (r && op("rename", r)) { errno = err; return -1; }
    return real(a, c);
}
int truncate(const char *p, off_t l)
{
    REAL(truncate);
    char b[PATH_MAX];
    const char *r = inside(p, b);
    if (r && op("write", r)) { errno = err; return -1; }
    return real(p, l);
}
int ftruncate(int fd, off_t l)
{
    REAL(ftruncate);
    init();
    if (known(fd) && op("write", paths[fd])) { errno = err; return -1; }
    return real(fd, l);
}
int fsync(int fd)
{
    REAL(fsync);
    init();
    if (known(fd) && op("close", paths[fd])) { errno = err; return -1; }
    return real(fd);
}
DIR *opendir(const char *p)
{
    REAL(opendir);
    char b[PATH_MAX];
    const char *r = inside(p, b);
    if (r && op("opend", r)) { errno = err; return NULL; }
    DIR *d = real(p);
    if (d && r) follow(dirfd(d), r, 0);
    return d;
}
struct dirent *readdir(DIR *d)
{
    REAL(readdir);
    init();
    int fd = dirfd(d);
    if (known(fd) && op("readd", paths[fd])) { errno = err; return NULL; }
    return real(d);
}
static int failstat(const char *p)
{
    char b[PATH_MAX];
    const char *r = inside(p, b);
    return r && op(access(p, F_OK) ? "nostat" : "stat", r);
}
int stat(const char *p, struct stat *s) { REAL(stat); if (failstat(p)) { errno = err; return -1; } return real(p, s); }
int lstat(const char *p, struct stat *s) { REAL(lstat); if (failstat(p)) { errno = err; return -1; } return real(p, s); }
