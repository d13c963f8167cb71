/* preloaded: what the command does to the files below its working directory is reported, stopped at
 * or made to fail.
 *   VERIF_TRACE=FILE      append a line "OP NAME COUNT" for every operation
 *   VERIF_FAULT=NAME:K:ACTION[:N]
 *                         at the K-th operation (from 0) on the file NAME
 *       kill              it ends before the operation
 *       part:N            it ends after N bytes were written
 *       err:N             the operation fails with errno N
 *       short:N           only N bytes are written or copied, which is no failure
 *   VERIF_GATE=FD         a socket: before every operation "OP NAME\n" is sent and a byte awaited
 * NAME is the last part of the path. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define FDS 256
static char *names[FDS]; /* of the watched files */
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int trace = -1, gate = -1;
static char fault_name[256];
static long fault_k = -1, fault_n, seen;
static enum { NONE, KILL, PART, ERR, SHORT } fault_action;

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("VERIF_TRACE");
    if (s) trace = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    s = getenv("VERIF_GATE");
    if (s) gate = atoi(s);
    s = getenv("VERIF_FAULT");
    if (s) {
        char action[16] = "";
        if (sscanf(s, "%255[^:]:%ld:%15[^:]:%ld", fault_name, &fault_k, action, &fault_n) < 3) abort();
        fault_action = !strcmp(action, "kill") ? KILL : !strcmp(action, "part") ? PART : !strcmp(action, "err") ? ERR : !strcmp(action, "short") ? SHORT : NONE;
        if (fault_action == NONE) abort();
    }
}

static const char *base(const char *p) {
    const char *s = strrchr(p, '/');
    return s ? s + 1 : p;
}

/* is it one of the files we're interested in? */
static int watched(int dir, const char *p) {
    static char cwd[4096];
    if (!p || !*p || (trace < 0 && gate < 0 && fault_action == NONE)) return 0;
    if (p[0] != '/') return dir == AT_FDCWD;
    if (!cwd[0] && !getcwd(cwd, sizeof cwd)) return 0;
    size_t n = strlen(cwd);
    return !strncmp(p, cwd, n) && p[n] == '/';
}

static void end_it(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

/* before an operation of `count` bytes; returns how many of them to do, -1 if it has to fail.
 * Holds the lock until after(). */
static int must_end;
static ssize_t before(const char *op, const char *name, size_t count) {
    int e = errno;
    pthread_mutex_lock(&lock);
    must_end = 0;
    if (trace >= 0) {
        char line[512];
        int n = snprintf(line, sizeof line, "%s %s %zu\n", op, name, count);
        syscall(SYS_write, trace, line, n);
    }
    if (gate >= 0) {
        char line[512], go;
        int n = snprintf(line, sizeof line, "%s %s\n", op, name);
        if (syscall(SYS_write, gate, line, n) != n || syscall(SYS_read, gate, &go, 1) != 1) end_it();
    }
    ssize_t todo = count;
    if (fault_action != NONE && !strcmp(name, fault_name) && seen++ == fault_k) switch (fault_action) {
        case KILL: end_it(); break;
        case PART: must_end = 1; if ((size_t)fault_n < count) todo = fault_n; break;
        case SHORT: if ((size_t)fault_n < count) todo = fault_n; break;
        case ERR: e = fault_n; todo = -1; break;
        default: break;
    }
    errno = e;
    return todo;
}
static void after(void) {
    if (must_end) end_it();
    pthread_mutex_unlock(&lock);
}

#define NEXT(f) ({ static __typeof__(&f) next; if (!next) next = (__typeof__(&f))dlsym(RTLD_NEXT, #f); next; })

/* files */
static int do_open(int dir, const char *p, int flags, mode_t mode) {
    if (!watched(dir, p)) return syscall(SYS_openat, dir, p, flags, mode);
    const char *op = (flags & O_ACCMODE) == O_RDONLY ? "read" : flags & O_EXCL ? "new" : flags & O_TRUNC ? "truncate" : "update";
    if (before(op, base(p), 0) < 0) {
        after();
        return -1;
    }
    int fd = syscall(SYS_openat, dir, p, flags, mode);
    if (fd >= 0 && fd < FDS) {
        free(names[fd]);
        names[fd] = strdup(base(p));
    }
    after();
    return fd;
}
#define MODE(last) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, last); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }

static const char *name_of(int fd) { return fd >= 0 && fd < FDS ? names[fd] : NULL; }

int close(int fd) {
    if (name_of(fd)) {
        pthread_mutex_lock(&lock);
        free(names[fd]);
        names[fd] = NULL;
        pthread_mutex_unlock(&lock);
    }
    return syscall(SYS_close, fd);
}

#define DATA(op, fd, count, call)                        \
    const char *name = name_of(fd);                      \
    if (!name) { size_t todo = count; return call; }     \
    ssize_t todo = before(op, name, count), done = -1;   \
    if (todo >= 0) done = call;                          \
    after();                                             \
    return done;

ssize_t write(int fd, const void *b, size_t n) { DATA("write", fd, n, syscall(SYS_write, fd, b, todo)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { DATA("write", fd, n, syscall(SYS_pwrite64, fd, b, todo, o)) }
ssize_t read(int fd, void *b, size_t n) { DATA("get", fd, n, syscall(SYS_read, fd, b, todo)) }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) { DATA("write", out, n, syscall(SYS_copy_file_range, in, io, out, oo, todo, fl)) }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { DATA("write", out, n, syscall(SYS_sendfile, out, in, o, todo)) }
ssize_t writev(int fd, const struct iovec *v, int c) {
    /* one at a time, it's allowed to do less */
    if (!name_of(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

#define ON_FD(op, fd, call)                              \
    const char *name = name_of(fd);                      \
    if (!name) return call;                              \
    int done = -1;                                       \
    if (before(op, name, 0) >= 0) done = call;           \
    after();                                             \
    return done;
int ftruncate64(int fd, off64_t n) { ON_FD("resize", fd, syscall(SYS_ftruncate, fd, n)) }
int ftruncate(int fd, off_t n) { ON_FD("resize", fd, syscall(SYS_ftruncate, fd, n)) }
int fchmod(int fd, mode_t m) { ON_FD("mode", fd, syscall(SYS_fchmod, fd, m)) }
int fsync(int fd) { ON_FD("sync", fd, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { ON_FD("sync", fd, syscall(SYS_fdatasync, fd)) }

#define ON_PATH(op, dir, p, call)                        \
    if (!watched(dir, p)) return call;                   \
    int done = -1;                                       \
    if (before(op, base(p), 0) >= 0) done = call;        \
    after();                                             \
    return done;
int unlink(const char *p) { ON_PATH("remove", AT_FDCWD, p, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int f) { ON_PATH("remove", d, p, syscall(SYS_unlinkat, d, p, f)) }
int rename(const char *a, const char *b) { ON_PATH("rename", AT_FDCWD, b, syscall(SYS_rename, a, b)) }
int renameat(int d, const char *a, int e, const char *b) { ON_PATH("rename", e, b, syscall(SYS_renameat, d, a, e, b)) }
int link(const char *a, const char *b) { ON_PATH("link", AT_FDCWD, b, syscall(SYS_link, a, b)) }
int linkat(int d, const char *a, int e, const char *b, int f) { ON_PATH("link", e, b, syscall(SYS_linkat, d, a, e, b, f)) }
int symlink(const char *a, const char *b) { ON_PATH("link", AT_FDCWD, b, syscall(SYS_symlink, a, b)) }
int chmod(const char *p, mode_t m) { ON_PATH("mode", AT_FDCWD, p, syscall(SYS_chmod, p, m)) }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) { ON_PATH("look", d, p, syscall(SYS_statx, d, p, fl, mask, s)) }
int access(const char *p, int m) { ON_PATH("look", AT_FDCWD, p, syscall(SYS_access, p, m)) }
