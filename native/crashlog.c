/* LD_PRELOAD library that records what a process does to its database files.
 *
 * Nothing is recorded until crashlog_start(folder, log) is called; from then
 * on operations on files folder/..., with name ending in ".db", are appended
 * to the log as they are issued (under one lock, so the log is one total
 * order). Markers are added with crashlog_marker().
 *
 * Operations can be made to fail: crashlog_fail(first, count, error, part)
 * counts operations from crashlog_start(); "part" makes the first one a short
 * write. Failures are recorded as OP_FAIL.
 *
 * Operations can be made to wait: crashlog_hold(n) lets n more operations
 * pass, following ones wait for crashlog_release() (or HOLD_LIMIT seconds).
 *
 * Log records: u8 kind, u8 flags, u16 file, u32 length, u64 offset, data
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAX_FD 4096
#define HOLD_LIMIT 40

enum { OP_MARKER = 'M', OP_WRITE = 'W', OP_SYNC = 'S', OP_TRUNCATE = 'T',
       OP_CREATE = 'C', OP_MAP = 'P', OP_OTHER = 'O', OP_FAIL = 'E' };

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char folder[4096];
static size_t folder_len;
static int log_fd = -1;
static unsigned char tracked[MAX_FD];

static long op_index, fail_first = -1, fail_count, fail_error, fail_part;
static long failed;

static struct { void *addr; size_t len; int fd; } maps[64];

static void raw_write(const void *data, size_t len) {
    const char *p = data;
    while (len) {
        long n = syscall(SYS_write, log_fd, p, len);
        if (n <= 0)
            return;
        p += n;
        len -= (size_t)n;
    }
}

static void emit(int kind, int flags, uint64_t offset, const void *data,
                 uint32_t len) {
    struct {
        uint8_t kind, flags;
        uint16_t file;
        uint32_t len;
        uint64_t offset;
    } __attribute__((packed)) head = {(uint8_t)kind, (uint8_t)flags, 0, len,
                                      offset};
    raw_write(&head, sizeof(head));
    if (len)
        raw_write(data, len);
}

__attribute__((visibility("default")))
void crashlog_start(const char *dir, const char *path) {
    pthread_mutex_lock(&lock);
    if (log_fd >= 0)
        close(log_fd);
    log_fd = (int)syscall(SYS_openat, AT_FDCWD, path,
                          O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    strncpy(folder, dir, sizeof(folder) - 1);
    folder_len = strlen(folder);
    memset(tracked, 0, sizeof(tracked));
    memset(maps, 0, sizeof(maps));
    op_index = 0;
    fail_first = -1;
    failed = 0;
    pthread_mutex_unlock(&lock);
}

__attribute__((visibility("default")))
void crashlog_fail(long first, long count, long error, long part) {
    pthread_mutex_lock(&lock);
    fail_first = first;
    fail_count = count;
    fail_error = error;
    fail_part = part;
    pthread_mutex_unlock(&lock);
}

__attribute__((visibility("default")))
long crashlog_failed(void) {
    pthread_mutex_lock(&lock);
    long result = failed;
    pthread_mutex_unlock(&lock);
    return result;
}

__attribute__((visibility("default")))
void crashlog_stop(void) {
    pthread_mutex_lock(&lock);
    if (log_fd >= 0)
        close(log_fd);
    log_fd = -1;
    pthread_mutex_unlock(&lock);
}

__attribute__((visibility("default")))
void crashlog_marker(const char *text) {
    pthread_mutex_lock(&lock);
    if (log_fd >= 0)
        emit(OP_MARKER, 0, 0, text, (uint32_t)strlen(text));
    pthread_mutex_unlock(&lock);
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static pthread_mutex_t hold_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t hold_cond = PTHREAD_COND_INITIALIZER;
static long hold_after = -1, hold_waiting, hold_expired;

__attribute__((visibility("default")))
void crashlog_hold(long after) {
    pthread_mutex_lock(&hold_lock);
    hold_after = after;
    pthread_mutex_unlock(&hold_lock);
}

__attribute__((visibility("default")))
void crashlog_release(void) {
    pthread_mutex_lock(&hold_lock);
    hold_after = -1;
    pthread_cond_broadcast(&hold_cond);
    pthread_mutex_unlock(&hold_lock);
}

/* number of waiting operations */
__attribute__((visibility("default")))
long crashlog_holding(void) {
    pthread_mutex_lock(&hold_lock);
    long result = hold_waiting;
    pthread_mutex_unlock(&hold_lock);
    return result;
}

/* number of operations that nobody released */
__attribute__((visibility("default")))
long crashlog_expired(void) {
    pthread_mutex_lock(&hold_lock);
    long result = hold_expired;
    pthread_mutex_unlock(&hold_lock);
    return result;
}

static void hold(void) {
    pthread_mutex_lock(&hold_lock);
    if (hold_after > 0) {
        hold_after--;
    } else if (!hold_after) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_sec += HOLD_LIMIT;
        hold_waiting++;
        while (!hold_after) {
            if (pthread_cond_timedwait(&hold_cond, &hold_lock, &t)) {
                hold_expired++;
                hold_after = -1;
            }
        }
        hold_waiting--;
    }
    pthread_mutex_unlock(&hold_lock);
}

/* 0 - do it, 1 - fail (errno is set), 2 - do only a part of it */
static int failing(void) {
    long i = op_index++;
    if (fail_first < 0 || i < fail_first || i >= fail_first + fail_count)
        return 0;
    failed++;
    if (fail_part && i == fail_first) {
        emit(OP_FAIL, 2, 0, 0, 0);
        return 2;
    }
    emit(OP_FAIL, 1, 0, 0, 0);
    errno = (int)fail_error;
    return 1;
}

static int is_tracked(int fd) {
    return log_fd >= 0 && fd >= 0 && fd < MAX_FD && tracked[fd];
}

static int db_path(const char *path) {
    size_t n = strlen(path);
    return log_fd >= 0 && folder_len && !strncmp(path, folder, folder_len) &&
           n > 3 && !strcmp(path + n - 3, ".db");
}

static void opened(const char *path, int flags, int fd) {
    if (fd < 0 || fd >= MAX_FD)
        return;
    tracked[fd] = (unsigned char)db_path(path);
    if (tracked[fd] && (flags & (O_CREAT | O_TRUNC)))
        emit(OP_CREATE, (flags & O_TRUNC) ? 1 : 0, 0, path,
             (uint32_t)strlen(path));
}

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(int, name, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); \
        va_end(ap); } \
    pthread_mutex_lock(&lock); \
    int fd = real(path, flags, mode); \
    int e = errno; \
    opened(path, flags, fd); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); \
        va_end(ap); } \
    pthread_mutex_lock(&lock); \
    int fd = real(dir, path, flags, mode); \
    int e = errno; \
    opened(path, flags, fd); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < MAX_FD)
        tracked[fd] = 0;
    return real(fd);
}

static int is_sync(int fd) {
    int flags = fcntl(fd, F_GETFL);
    return flags >= 0 && (flags & O_DSYNC) ? 1 : 0;
}

#define PWRITE(name, off_type) \
ssize_t name(int fd, const void *buf, size_t n, off_type off) { \
    REAL(ssize_t, name, int, const void *, size_t, off_type); \
    if (!is_tracked(fd)) \
        return real(fd, buf, n, off); \
    hold(); \
    pthread_mutex_lock(&lock); \
    int f = failing(); \
    if (f == 1) { \
        pthread_mutex_unlock(&lock); \
        return -1; } \
    if (f == 2) \
        n /= 2; \
    ssize_t r = real(fd, buf, n, off); \
    int e = errno; \
    if (r > 0) \
        emit(OP_WRITE, is_sync(fd), (uint64_t)off, buf, (uint32_t)r); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return r; \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!is_tracked(fd))
        return real(fd, buf, n);
    hold();
    pthread_mutex_lock(&lock);
    int f = failing();
    if (f == 1) {
        pthread_mutex_unlock(&lock);
        return -1;
    }
    if (f == 2)
        n /= 2;
    off_t off = lseek(fd, 0, SEEK_CUR);
    ssize_t r = real(fd, buf, n);
    int e = errno;
    if (r > 0)
        emit(OP_WRITE, is_sync(fd), (uint64_t)off, buf, (uint32_t)r);
    pthread_mutex_unlock(&lock);
    errno = e;
    return r;
}

static void emit_iov(int fd, const struct iovec *iov, int cnt, uint64_t off,
                     ssize_t r) {
    int sync = is_sync(fd);
    for (int i = 0; i < cnt && r > 0; ++i) {
        size_t n = iov[i].iov_len;
        if ((ssize_t)n > r)
            n = (size_t)r;
        if (n)
            emit(OP_WRITE, sync, off, iov[i].iov_base, (uint32_t)n);
        off += n;
        r -= (ssize_t)n;
    }
}

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is_tracked(fd))
        return real(fd, iov, cnt);
    hold();
    pthread_mutex_lock(&lock);
    int f = failing();
    if (f == 1) {
        pthread_mutex_unlock(&lock);
        return -1;
    }
    if (f == 2)
        cnt = (cnt + 1) / 2;
    off_t off = lseek(fd, 0, SEEK_CUR);
    ssize_t r = real(fd, iov, cnt);
    int e = errno;
    emit_iov(fd, iov, cnt, (uint64_t)off, r);
    pthread_mutex_unlock(&lock);
    errno = e;
    return r;
}

#define PWRITEV(name, off_type) \
ssize_t name(int fd, const struct iovec *iov, int cnt, off_type off) { \
    REAL(ssize_t, name, int, const struct iovec *, int, off_type); \
    if (!is_tracked(fd)) \
        return real(fd, iov, cnt, off); \
    hold(); \
    pthread_mutex_lock(&lock); \
    int f = failing(); \
    if (f == 1) { \
        pthread_mutex_unlock(&lock); \
        return -1; } \
    if (f == 2) \
        cnt = (cnt + 1) / 2; \
    ssize_t r = real(fd, iov, cnt, off); \
    int e = errno; \
    emit_iov(fd, iov, cnt, (uint64_t)off, r); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return r; \
}
PWRITEV(pwritev, off_t)
PWRITEV(pwritev64, off64_t)

#define SYNC(name) \
int name(int fd) { \
    REAL(int, name, int); \
    if (!is_tracked(fd)) \
        return real(fd); \
    hold(); \
    pthread_mutex_lock(&lock); \
    if (failing()) { \
        errno = (int)fail_error; \
        pthread_mutex_unlock(&lock); \
        return -1; } \
    int r = real(fd); \
    int e = errno; \
    if (!r) \
        emit(OP_SYNC, 0, 0, 0, 0); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return r; \
}
SYNC(fsync)
SYNC(fdatasync)

#define TRUNCATE(name, off_type) \
int name(int fd, off_type len) { \
    REAL(int, name, int, off_type); \
    if (!is_tracked(fd)) \
        return real(fd, len); \
    hold(); \
    pthread_mutex_lock(&lock); \
    if (failing()) { \
        errno = (int)fail_error; \
        pthread_mutex_unlock(&lock); \
        return -1; } \
    int r = real(fd, len); \
    int e = errno; \
    if (!r) \
        emit(OP_TRUNCATE, 0, (uint64_t)len, 0, 0); \
    pthread_mutex_unlock(&lock); \
    errno = e; \
    return r; \
}
TRUNCATE(ftruncate, off_t)
TRUNCATE(ftruncate64, off64_t)

#define MMAP(name, off_type) \
void *name(void *addr, size_t len, int prot, int flags, int fd, \
           off_type off) { \
    REAL(void *, name, void *, size_t, int, int, int, off_type); \
    void *r = real(addr, len, prot, flags, fd, off); \
    if (r != MAP_FAILED && is_tracked(fd) && (prot & PROT_WRITE) && \
            (flags & MAP_SHARED)) { \
        pthread_mutex_lock(&lock); \
        emit(OP_MAP, 0, 0, 0, 0); \
        pthread_mutex_unlock(&lock); \
    } \
    return r; \
}
MMAP(mmap, off_t)
MMAP(mmap64, off64_t)
