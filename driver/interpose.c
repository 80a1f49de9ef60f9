/* System call interposition: records what the library does with files and injects faults.
 * Defined in the executable, so it also sees the calls made by librpm and the compression libraries. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "interpose.h"

#define MAXFD 2048
static int active, tracing, busy;
static char watch[8][PATH_MAX];
static int nwatch;
static char *fdpath[MAXFD];          /* path of watched descriptors */
static long ncalls, fault_nth = -1, fault_count = 1, injected;
static char fault_mode[16], fault_cls[16];
static char *tb; static size_t tl, ta;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void *(*xrealloc)(void *, size_t) = realloc;

static void emit(const char *fmt, ...)
{
    va_list ap; char buf[2 * PATH_MAX + 256]; int n;
    if (!active || !tracing) return;
    va_start(ap, fmt); n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (tl + n + 2 > ta) { ta = (ta + n + 2) * 2; tb = xrealloc(tb, ta); }
    if (tl) tb[tl++] = ',';
    memcpy(tb + tl, buf, n); tl += n; tb[tl] = 0;
}

static int watched(const char *p)
{
    for (int i = 0; i < nwatch; i++) if (strncmp(p, watch[i], strlen(watch[i])) == 0) return 1;
    return 0;
}
static void setfd(int fd, const char *p)
{
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL;
}
static int wfd(int fd) { return active && fd >= 0 && fd < MAXFD && fdpath[fd]; }
/* returns 1 if this call must fail */
static int hit(const char *cls)
{
    if (!active || busy) return 0;
    if (fault_cls[0] && strcmp(fault_cls, "any") && strncmp(fault_cls, cls, strlen(cls))) return 0;
    ++ncalls;
    if (fault_nth < 0 || ncalls < fault_nth || ncalls >= fault_nth + fault_count) return 0;
    injected++;
    return 1;
}
static int err_for(const char *cls)
{
    if (!strcmp(fault_mode, "eintr")) return EINTR;
    if (!strcmp(cls, "open")) return EMFILE;
    if (!strcmp(cls, "write")) return ENOSPC;
    return EIO;
}

void iv_reset(void) { nwatch = 0; fault_nth = -1; ncalls = 0; tracing = 0; active = 0; fault_cls[0] = 0; tl = 0; }
void iv_watch(const char *p) { if (nwatch < 8) strncpy(watch[nwatch++], p, PATH_MAX - 1); }
void iv_trace(int on) { tracing = on; tl = 0; if (tb) tb[0] = 0; }
void iv_fault(long nth, const char *mode, const char *cls, long count) { fault_nth = nth; fault_count = count; strncpy(fault_mode, mode, 15); strncpy(fault_cls, cls, 15); ncalls = 0; }
void iv_begin(void) { tl = 0; if (tb) tb[0] = 0; ncalls = 0; injected = 0; active = 1; }
long iv_injected(void) { return injected; }
void iv_end(void) { active = 0; for (int i = 0; i < MAXFD; i++) if (fdpath[i]) setfd(i, NULL); }
long iv_calls(void) { return ncalls; }
const char *iv_trace_json(void) { return tb && tl ? tb : ""; }

static const char *mode_of(int fl)
{
    static char m[16];
    snprintf(m, sizeof m, "%s%s%s%s", (fl & O_ACCMODE) == O_RDONLY ? "r" : (fl & O_ACCMODE) == O_WRONLY ? "w" : "rw",
             fl & O_CREAT ? "c" : "", fl & O_TRUNC ? "t" : "", fl & O_APPEND ? "a" : "");
    return m;
}
static int open_common(const char *name, const char *p, int fl, int fd, int injected)
{
    int e = errno;
    char abs[PATH_MAX];
    (void)name;
    if (p[0] != '/') { char cwd[PATH_MAX / 2]; if (getcwd(cwd, sizeof cwd)) { snprintf(abs, sizeof abs, "%s/%s", cwd, p); p = abs; } }
    if (active && watched(p)) {
        if (fd >= 0) setfd(fd, p);
        emit("{\"c\":\"open\",\"p\":\"%s\",\"m\":\"%s\",\"r\":%d,\"inj\":%d}", p, mode_of(fl), fd, injected);
    } else if (active && ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY)) {
        emit("{\"c\":\"open\",\"p\":\"%s\",\"m\":\"%s\",\"r\":%d,\"inj\":0,\"unwatched\":1}", p, mode_of(fl), fd);
    }
    errno = e;
    return fd;
}
#define OPENBODY(NAME) \
    int mode = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, int); va_end(ap); \
    REAL(int, NAME, const char *, int, ...); \
    if (active && watched(p) && hit("open")) { errno = err_for("open"); return open_common(#NAME, p, fl, -1, 1); } \
    return open_common(#NAME, p, fl, real(p, fl, mode), 0);
int open(const char *p, int fl, ...) { OPENBODY(open) }
int open64(const char *p, int fl, ...) { OPENBODY(open64) }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char *p, int fl, ...)
{
    int mode = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, int); va_end(ap);
    REAL(int, openat, int, const char *, int, ...);
    if (active && watched(p) && hit("open")) { errno = err_for("open"); return open_common("openat", p, fl, -1, 1); }
    return open_common("openat", p, fl, real(d, p, fl, mode), 0);
}
int mkstemp_common(char *t, int (*real)(char *))
{
    int fd;
    if (active && watched(t) && strcmp(fault_cls, "opened") && hit("open")) { errno = err_for("open"); emit("{\"c\":\"mkstemp\",\"p\":\"%s\",\"r\":-1,\"inj\":1}", t); return -1; }
    busy++; fd = real(t); busy--;
    if (active && fd >= 0 && watched(t)) setfd(fd, t);
    emit("{\"c\":\"mkstemp\",\"p\":\"%s\",\"r\":%d,\"inj\":0}", t, fd);
    return fd;
}
/* stands in for /usr/sbin/prelink when DV_PRELINK is set: this program, run as "prelink" (see driver.c) */
#define PRELINK "/usr/sbin/prelink"
static int prelink_here(void) { const char *e = getenv("DV_PRELINK"); return e && *e; }
int stat(const char *p, struct stat *st)
{
    REAL(int, stat, const char *, struct stat *);
    if (!strcmp(p, PRELINK)) { if (prelink_here()) return real("/proc/self/exe", st); errno = ENOENT; return -1; }
    return real(p, st);
}
int execl(const char *p, const char *a0, ...)
{
    char *av[16]; int n = 0; va_list ap;
    va_start(ap, a0); for (const char *a = a0; n < 15; a = va_arg(ap, const char *)) { av[n++] = (char *)a; if (!a) break; } av[n] = NULL; va_end(ap);
    if (!strcmp(p, PRELINK)) { if (!prelink_here()) { errno = ENOENT; return -1; } p = "/proc/self/exe"; }
    return execv(p, av);
}
pid_t fork(void)
{
    REAL(pid_t, fork, void);
    if (active && hit("fork")) { errno = EAGAIN; return -1; }
    return real();
}
/* other failures than EINTR are what it is like when the application ignores SIGCHLD: it waits and then there is no child */
pid_t waitpid(pid_t pid, int *st, int fl)
{
    REAL(pid_t, waitpid, pid_t, int *, int);
    if (active && hit("wait")) {
        if (!strcmp(fault_mode, "eintr")) { errno = EINTR; return -1; }
        while (real(pid, st, fl) == -1 && errno == EINTR);
        errno = ECHILD; return -1;
    }
    return real(pid, st, fl);
}

int mkstemp(char *t) { REAL(int, mkstemp, char *); return mkstemp_common(t, real); }
int mkstemp64(char *t) { REAL(int, mkstemp64, char *); return mkstemp_common(t, real); }
FILE *fopen_common(const char *p, const char *m, FILE *(*real)(const char *, const char *))
{
    FILE *f; int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (active && watched(p) && hit("open")) { errno = err_for("open"); open_common("fopen", p, fl, -1, 1); return NULL; }
    busy++; f = real(p, m); busy--;
    open_common("fopen", p, fl, f ? fileno(f) : -1, 0);
    return f;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return fopen_common(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return fopen_common(p, m, real); }
int fclose(FILE *f)
{
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1, w = wfd(fd), h = w && hit("close"), r;
    if (h) __fpurge(f);      /* what was still to be written is lost */
    busy++; r = real(f); busy--;
    if (w) { setfd(fd, NULL); emit("{\"c\":\"close\",\"fd\":%d,\"r\":%d,\"inj\":%d}", fd, h ? -1 : r, h); }
    if (h) { errno = EIO; return EOF; }
    return r;
}
/* a failing close of a file that was written means that not all of it has arrived */
static void lose(int fd)
{
    struct stat st; int fl = fcntl(fd, F_GETFL);
    REAL(int, ftruncate, int, off_t);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) real(fd, st.st_size / 2);
}
int close(int fd)
{
    REAL(int, close, int);
    int w = wfd(fd), h = w && !busy && hit("close"), r, e;
    if (h) lose(fd);
    r = real(fd); e = errno;
    if (w && !busy) { setfd(fd, NULL); emit("{\"c\":\"close\",\"fd\":%d,\"r\":%d,\"inj\":%d}", fd, h ? -1 : r, h); }
    if (h) { errno = EIO; return -1; }
    if (active && !busy && fd >= 0 && r < 0 && e == EBADF) emit("{\"c\":\"badclose\",\"fd\":%d,\"r\":-1,\"inj\":0}", fd);
    errno = e;
    return r;
}
#define XFER(CLS, DO, DOSHORT) \
    int w = wfd(fd), h = w && hit(CLS); ssize_t r; \
    if (h && !strcmp(fault_mode, "short")) { if (n > 1) { size_t m = n / 2; r = DOSHORT; } else r = DO; } \
    else if (h && !strcmp(fault_mode, "zero")) r = 0; \
    else if (h) { errno = err_for(CLS); r = -1; } \
    else r = DO; \
    int e = errno; \
    if (w) emit("{\"c\":\"%s\",\"fd\":%d,\"n\":%zu,\"r\":%zd,\"inj\":%d%s}", CLS, fd, n, r, h, extra); \
    errno = e; return r;
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); const char *extra = ""; XFER("read", real(fd, b, n), real(fd, b, m)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); const char *extra = ""; XFER("write", real(fd, b, n), real(fd, b, m)) }
static char ex[64];
#define PX snprintf(ex, sizeof ex, ",\"o\":%lld", (long long)o); const char *extra = ex;
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); PX XFER("read", real(fd, b, n, o), real(fd, b, m, o)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); PX XFER("write", real(fd, b, n, o), real(fd, b, m, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int wh)
{
    REAL(off_t, lseek, int, off_t, int);
    int w = wfd(fd), h = w && hit("seek"); off_t r;
    if (h) { errno = EIO; r = -1; } else r = real(fd, o, wh);
    int e = errno;
    if (w) emit("{\"c\":\"seek\",\"fd\":%d,\"o\":%lld,\"r\":%lld,\"inj\":%d}", fd, (long long)o, (long long)r, h);
    errno = e; return r;
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
int unlink(const char *p) { REAL(int, unlink, const char *); int r = real(p), e = errno; emit("{\"c\":\"unlink\",\"p\":\"%s\",\"r\":%d}", p, r); errno = e; return r; }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); int r = real(d, p, f), e = errno; emit("{\"c\":\"unlink\",\"p\":\"%s\",\"r\":%d}", p, r); errno = e; return r; }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); int r = real(a, b), e = errno; emit("{\"c\":\"rename\",\"p\":\"%s\",\"q\":\"%s\",\"r\":%d}", a, b, r); errno = e; return r; }
int ftruncate(int fd, off_t l) { REAL(int, ftruncate, int, off_t); int r = real(fd, l), e = errno; if (wfd(fd)) emit("{\"c\":\"ftruncate\",\"fd\":%d,\"r\":%d}", fd, r); errno = e; return r; }
int truncate(const char *p, off_t l) { REAL(int, truncate, const char *, off_t); int r = real(p, l), e = errno; emit("{\"c\":\"truncate\",\"p\":\"%s\",\"r\":%d}", p, r); errno = e; return r; }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); int r = real(p, m), e = errno; emit("{\"c\":\"chmod\",\"p\":\"%s\",\"r\":%d}", p, r); errno = e; return r; }
int fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap; int r, fd = f ? fileno(f) : -1, w = wfd(fd), h = w && hit("write");
    if (h) { errno = ENOSPC; r = -1; } else { va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap); }
    if (w) emit("{\"c\":\"write\",\"fd\":%d,\"n\":%d,\"r\":%d,\"inj\":%d}", fd, r, r, h);
    return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    int fd = f ? fileno(f) : -1, w = wfd(fd), h = w && hit("write"); size_t r;
    if (h) { errno = ENOSPC; r = 0; } else r = real(b, s, n, f);
    if (w) emit("{\"c\":\"write\",\"fd\":%d,\"n\":%zu,\"r\":%zu,\"inj\":%d}", fd, n * s, r * s, h);
    return r;
}
size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int fd = f ? fileno(f) : -1, w = wfd(fd), h = w && hit("read"); size_t r;
    if (h) { errno = EIO; r = 0; } else r = real(b, s, n, f);
    if (w) emit("{\"c\":\"read\",\"fd\":%d,\"n\":%zu,\"r\":%zu,\"inj\":%d}", fd, n * s, r * s, h);
    return r;
}
/* other ways to change the file system */
#define CHANGE1(NAME, T1, A1, REST, ...) int NAME(T1 A1 REST) { REAL(int, NAME, T1 REST); int r = real(__VA_ARGS__), e = errno; emit("{\"c\":\"change\",\"how\":\"" #NAME "\",\"p\":\"%s\",\"r\":%d}", A1, r); errno = e; return r; }
#define COMMA ,
CHANGE1(mkdir, const char *, p, COMMA mode_t m, p, m)
CHANGE1(rmdir, const char *, p, , p)
CHANGE1(remove, const char *, p, , p)
CHANGE1(chown, const char *, p, COMMA uid_t u COMMA gid_t g, p, u, g)
CHANGE1(lchown, const char *, p, COMMA uid_t u COMMA gid_t g, p, u, g)
CHANGE1(link, const char *, p, COMMA const char *q, p, q)
CHANGE1(symlink, const char *, p, COMMA const char *q, p, q)
CHANGE1(mkfifo, const char *, p, COMMA mode_t m, p, m)
#define CHANGEFD(NAME, REST, ...) int NAME(int fd REST) { REAL(int, NAME, int REST); int r = real(__VA_ARGS__), e = errno; if (wfd(fd)) emit("{\"c\":\"change\",\"how\":\"" #NAME "\",\"p\":\"%s\",\"r\":%d}", fdpath[fd], r); errno = e; return r; }
CHANGEFD(fchmod, COMMA mode_t m, fd, m)
CHANGEFD(fchown, COMMA uid_t u COMMA gid_t g, fd, u, g)

/* memory: allocations made by drpm's own objects go through these (ld --wrap) */
static long mem_nth = -1, mem_count = 1, mem_calls;
void iv_memfail(long nth, long count) { mem_nth = nth; mem_count = count; mem_calls = 0; }
long iv_mem_calls(void) { return mem_calls; }
static int mfail(void)
{
    if (!active) return 0;
    ++mem_calls;
    return mem_nth > 0 && mem_calls >= mem_nth && mem_calls < mem_nth + mem_count;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *drpm_malloc(size_t n) { if (mfail()) { errno = ENOMEM; return NULL; } return malloc(n); }
void *drpm_calloc(size_t a, size_t b) { if (mfail()) { errno = ENOMEM; return NULL; } return calloc(a, b); }
void *drpm_realloc(void *p, size_t n) { if (mfail()) { errno = ENOMEM; return NULL; } return realloc(p, n); }

#ifndef __SANITIZE_ADDRESS__
/* live allocation counters, whole process */
#include <malloc.h>
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static long live, live_bytes;
static void *acc(void *p) { if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED); } return p; }
static void dec(void *p) { if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED); } }
static int fillbyte = 0xA5;
void iv_fill(int b) { fillbyte = b; }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && active && n < (1u << 22)) memset(p, fillbyte, n); return acc(p); }
void free(void *p) { if (p) { int e = errno; dec(p); if (active) { size_t u = malloc_usable_size(p); if (u < (1u << 22)) memset(p, fillbyte ^ 0xff, u); } __libc_free(p); errno = e; } }
void *calloc(size_t a, size_t b) { return acc(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { size_t u = p ? malloc_usable_size(p) : 0; void *q = __libc_realloc(p, n); if (q || n == 0) { if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&live_bytes, (long)u, __ATOMIC_RELAXED); } acc(q); if (q && active && n > u && n < (1u << 22)) memset((char *)q + u, fillbyte, n - u); } return q; }
void *memalign(size_t a, size_t n) { return acc(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return acc(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = acc(__libc_memalign(a, n)); if (!p) return ENOMEM; *r = p; return 0; }
long iv_live(void) { return live; }
long iv_live_bytes(void) { return live_bytes; }
#else
void iv_fill(int b) { }
long iv_live(void) { return 0; }
long iv_live_bytes(void) { return 0; }
#endif
