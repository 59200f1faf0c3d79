// Preloaded into the daemon: records the file-system calls that concern one directory tree, with
// resolved paths, and can end the process at the n-th changing call, also in the middle of a write.
//   FSMON_ROOT     directory tree to look at (resolved path)
//   FSMON_LOG      file to append to, one line per call
//   FSMON_KILL_AT  end the process at this changing call (1, 2, ...)
//   FSMON_TORN     for a write: the share of it, in thousandths, that still happens
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long counter;

static const char *root(void) { return getenv("FSMON_ROOT"); }

static int inside(const char *path) {
    const char *r = root();
    size_t n;
    if (!r || !path) return 0;
    n = strlen(r);
    return strncmp(path, r, n) == 0 && (path[n] == '/' || path[n] == 0);
}

static void note(const char *op, const char *path, const char *path2, long long arg) {
    const char *log = getenv("FSMON_LOG");
    char line[3 * PATH_MAX];
    int fd, n, e = errno;
    if (!log) return;
    n = snprintf(line, sizeof line, "%ld\t%s\t%s\t%s\t%lld\n", counter, op, path ? path : "", path2 ? path2 : "", arg);
    fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (fd >= 0) {
        syscall(SYS_write, fd, line, (size_t)n);
        syscall(SYS_close, fd);
    }
    errno = e;
}

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

// Called before a changing call. Returns 1 if the process is to end during it.
static int changing(const char *op, const char *path, const char *path2, long long arg) {
    const char *at = getenv("FSMON_KILL_AT");
    int last;
    pthread_mutex_lock(&lock);
    counter++;
    last = at && counter == atol(at);
    note(op, path, path2, arg);
    if (last) return 1; // Keeps the lock, nobody else gets any further.
    pthread_mutex_unlock(&lock);
    return 0;
}

static void resolve(int dirfd, const char *path, char *out) {
    char full[PATH_MAX], dir[PATH_MAX], real[PATH_MAX];
    char *slash;
    int e = errno;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else if (dirfd == AT_FDCWD) {
        if (!getcwd(dir, sizeof dir)) dir[0] = 0;
        snprintf(full, sizeof full, "%.2000s/%.2000s", dir, path);
    } else {
        char link[64];
        ssize_t n;
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        n = readlink(link, dir, sizeof dir - 1);
        dir[n > 0 ? n : 0] = 0;
        snprintf(full, sizeof full, "%.2000s/%.2000s", dir, path);
    }
    snprintf(dir, sizeof dir, "%s", full);
    n_trailing:
    slash = strrchr(dir, '/');
    if (slash && slash[1] == 0 && slash != dir) { *slash = 0; goto n_trailing; }
    if (slash) {
        char base[PATH_MAX];
        snprintf(base, sizeof base, "%s", slash + 1);
        *slash = 0;
        if (realpath(dir[0] ? dir : "/", real)) snprintf(out, PATH_MAX, "%.2000s/%.2000s", strcmp(real, "/") ? real : "", base);
        else snprintf(out, PATH_MAX, "%s", full);
    } else snprintf(out, PATH_MAX, "%s", full);
    errno = e;
}

static void fd_path(int fd, char *out) {
    char link[64];
    ssize_t n;
    int e = errno;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, out, PATH_MAX - 1);
    out[n > 0 ? n : 0] = 0;
    errno = e;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int do_openat(int dirfd, const char *path, int flags, mode_t mode, int (*call)(int, const char *, int, mode_t)) {
    char r[PATH_MAX], followed[PATH_MAX];
    int fd, changes = 0;
    (void)call;
    resolve(dirfd, path, r);
    if (!realpath(r, followed)) snprintf(followed, sizeof followed, "%s", r);
    if (inside(followed) || inside(r)) {
        struct stat st;
        int exists = stat(r, &st) == 0;
        changes = ((flags & O_CREAT) && !exists) || ((flags & O_TRUNC) && exists);
        if (changes) {
            if (changing(exists ? "truncate" : "create", followed, r, flags)) die();
        }
    }
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && !(flags & O_DIRECTORY)) {
        char actual[PATH_MAX];
        struct stat st;
        fd_path(fd, actual);
        if (inside(actual) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
            int e = errno;
            pthread_mutex_lock(&lock);
            note((flags & O_ACCMODE) == O_RDONLY ? "openr" : "openw", actual, path, flags);
            if (flags & O_CREAT) note("mode", actual, path, st.st_mode & 07777);
            pthread_mutex_unlock(&lock);
            errno = e;
        }
    }
    return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }

int open(const char *path, int flags, ...) { MODE return do_openat(AT_FDCWD, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { MODE return do_openat(AT_FDCWD, path, flags | O_LARGEFILE, mode, 0); }
int openat(int d, const char *path, int flags, ...) { MODE return do_openat(d, path, flags, mode, 0); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_openat(d, path, flags | O_LARGEFILE, mode, 0); }
int creat(const char *path, mode_t mode) { return do_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

ssize_t write(int fd, const void *buf, size_t count) {
    char p[PATH_MAX];
    struct stat st;
    if (fd > 2 && count > 0 && root() && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        fd_path(fd, p);
        if (inside(p) && changing("write", p, 0, (long long)count)) {
            const char *torn = getenv("FSMON_TORN");
            size_t part = torn ? count * (size_t)atol(torn) / 1000 : 0;
            if (part) syscall(SYS_write, fd, buf, part);
            die();
        }
    }
    return syscall(SYS_write, fd, buf, count);
}

int unlink(const char *path) {
    char r[PATH_MAX];
    resolve(AT_FDCWD, path, r);
    if (inside(r) && changing("unlink", r, 0, 0)) die();
    return syscall(SYS_unlinkat, AT_FDCWD, path, 0);
}
int unlinkat(int d, const char *path, int flags) {
    char r[PATH_MAX];
    resolve(d, path, r);
    if (inside(r) && changing(flags & AT_REMOVEDIR ? "rmdir" : "unlink", r, 0, 0)) die();
    return syscall(SYS_unlinkat, d, path, flags);
}
int rmdir(const char *path) {
    char r[PATH_MAX];
    resolve(AT_FDCWD, path, r);
    if (inside(r) && changing("rmdir", r, 0, 0)) die();
    return syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR);
}
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned flags) {
    char r1[PATH_MAX], r2[PATH_MAX];
    resolve(d1, a, r1);
    resolve(d2, b, r2);
    if ((inside(r1) || inside(r2)) && changing("rename", r1, r2, 0)) die();
    return syscall(SYS_renameat2, d1, a, d2, b, flags);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
int mkdir(const char *path, mode_t mode) {
    char r[PATH_MAX];
    resolve(AT_FDCWD, path, r);
    if (inside(r) && changing("mkdir", r, 0, mode)) die();
    return syscall(SYS_mkdirat, AT_FDCWD, path, mode);
}
int mkdirat(int d, const char *path, mode_t mode) {
    char r[PATH_MAX];
    resolve(d, path, r);
    if (inside(r) && changing("mkdir", r, 0, mode)) die();
    return syscall(SYS_mkdirat, d, path, mode);
}
int symlink(const char *target, const char *path) {
    char r[PATH_MAX];
    resolve(AT_FDCWD, path, r);
    if (inside(r) && changing("symlink", r, target, 0)) die();
    return syscall(SYS_symlinkat, target, AT_FDCWD, path);
}
int ftruncate(int fd, off_t length) {
    char p[PATH_MAX];
    fd_path(fd, p);
    if (inside(p) && changing("ftruncate", p, 0, length)) die();
    return syscall(SYS_ftruncate, fd, length);
}
int ftruncate64(int fd, off64_t length) { return ftruncate(fd, length); }
