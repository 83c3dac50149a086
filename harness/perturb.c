/* An environment which differs in everything a generator must not depend on: VF_HEAP=up|down hands out memory at ascending or
   descending addresses, filled with VF_FILL; VF_TIME=<seconds> is the time; VF_DIR=down returns directory entries in descending order of their names, up in ascending order. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static char *lo, *hi;
static int down = -1, fill = 0;
extern char **environ;
static const char *env(const char *n)
{
    size_t k = strlen(n);
    for (char **e = environ; e && *e; ++e) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return NULL;
}
static void setup(void)
{
    const char *h = env("VF_HEAP"), *f = env("VF_FILL");
    down = h && h[0] == 'd';
    fill = f ? atoi(f) : 0;
    size_t sz = (size_t)8 << 30;
    lo = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (lo == MAP_FAILED) _exit(99);
    hi = lo + sz;
}
static void *get(size_t n, size_t al)
{
    if (down < 0) setup();
    size_t tot = (n + 32 + 15) & ~(size_t)15;
    char *p;
    if (al < 16) al = 16;
    if (down) { p = (char *)(((uintptr_t)hi - tot) & ~(uintptr_t)(al - 1)); if (p - 16 < lo) _exit(99); hi = p - 16; }
    else { p = (char *)(((uintptr_t)lo + 16 + al - 1) & ~(uintptr_t)(al - 1)); if (p + tot > hi) _exit(99); lo = p + tot; }
    ((size_t *)p)[-1] = n;
    return p;
}
void *malloc(size_t n) { void *p = get(n, 16); memset(p, fill, n); return p; }
void *calloc(size_t a, size_t b) { return memset(get(a * b, 16), 0, a * b); }
void free(void *p) { (void)p; }
void *realloc(void *q, size_t n)
{
    if (!q) return malloc(n);
    size_t o = ((size_t *)q)[-1];
    if (n <= o) return q;
    void *p = malloc(n);
    memcpy(p, q, o);
    return p;
}
void *memalign(size_t al, size_t n) { void *p = get(n, al); memset(p, fill, n); return p; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return 0; }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }

static long when(void) { const char *t = env("VF_TIME"); return t ? atol(t) : 0; }
time_t time(time_t *o) { time_t t = when(); if (o) *o = t; return t; }
int gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = when(); tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = when(); ts->tv_nsec = 0; return 0; }

static struct { DIR *d; struct dirent *e[4096]; int n, i; } tab[64];
static int sgn = 1;
static int cmp(const void *a, const void *b) { return sgn * strcmp((*(struct dirent *const *)a)->d_name, (*(struct dirent *const *)b)->d_name); }
struct dirent *readdir(DIR *d)
{
    static struct dirent *(*real)(DIR *);
    if (!real) real = (struct dirent * (*)(DIR *))dlsym(RTLD_NEXT, "readdir");
    const char *m = env("VF_DIR");
    if (!m) return real(d);
    int k = -1, fr = -1;
    for (int i = 0; i < 64; ++i) { if (tab[i].d == d) k = i; if (!tab[i].d) fr = i; }
    if (k < 0) {
        if (fr < 0) return real(d);
        k = fr;
        tab[k].d = d; tab[k].n = tab[k].i = 0;
        struct dirent *e;
        while (tab[k].n < 4096 && (e = real(d))) { struct dirent *c = malloc(sizeof(*c)); memcpy(c, e, e->d_reclen < sizeof(*c) ? e->d_reclen : sizeof(*c)); tab[k].e[tab[k].n++] = c; }
        sgn = m[0] == 'd' ? -1 : 1;
        qsort(tab[k].e, tab[k].n, sizeof(tab[k].e[0]), cmp);
    }
    if (tab[k].i >= tab[k].n) { errno = 0; return NULL; }
    return tab[k].e[tab[k].i++];
}
int closedir(DIR *d)
{
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 64; ++i) if (tab[i].d == d) tab[i].d = NULL;
    return real(d);
}
