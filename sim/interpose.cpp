// Allocation, stdio and system calls of the simulated process.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#undef _FORTIFY_SOURCE
#include "vfs.h"
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

using namespace sim;

#define REAL(ret, name, args) static ret(*real_##name) args; if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

static long g_tz_off = 0, g_tz_off2 = 0;
static u64 g_tz_change = 0;
namespace sim { void set_tz(long off, u64 change, long off2) { g_tz_off = off; g_tz_change = change; g_tz_off2 = off2; } }

// ---------------------------------------------------------------------------------------- allocation
static bool g_force_arena = false;

extern "C" {
void* malloc(size_t n) {
    if (g_active && (g_quiet == 0 || g_force_arena)) {
        if (g_quiet == 0 && g_cur->oom && fault(F_OOM)) { errno = ENOMEM; return nullptr; }
        return arena_alloc(n, 16);
    }
    return __libc_malloc(n);
}
void free(void* p) {
    if (!p) return;
    if (arena_owns(p)) arena_free(p, PC_HERE);
    else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (g_active && (g_quiet == 0 || g_force_arena)) {
        size_t n;
        if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
        void* p = malloc(n);
        if (p) memset(p, 0, n);
        return p;
    }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (arena_owns(p)) {
        if (!n) { free(p); return nullptr; }
        size_t o = arena_size(p);
        if (g_quiet == 0 && g_cur->oom && fault(F_OOM)) { errno = ENOMEM; return nullptr; }
        void* q = arena_alloc(n, 16);
        memcpy(q, p, o < n ? o : n);
        arena_free(p, PC_HERE);
        return q;
    }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) {
    if (g_active && (g_quiet == 0 || g_force_arena)) {
        if (g_quiet == 0 && g_cur->oom && fault(F_OOM)) { errno = ENOMEM; return nullptr; }
        return arena_alloc(n, al);
    }
    return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return p && arena_owns(p) ? arena_size(p) : 0; }
}

// ---------------------------------------------------------------------------------------- system calls
static unsigned char g_failed_with[256];       // the error numbers the simulated calls have failed with
static int failed(int e) {
    g_failed_with[e & 255] = 1;
    errno = e;
    return -1;
}
namespace sim { bool failed_with(int e) { return g_failed_with[e & 255]; } }
static int put(long r) { return r < 0 ? failed((int)-r) : (int)r; }
static int pick_err(Fault f, std::initializer_list<int> l) {
    u64 k = fault_param(f, l.size());
    return *(l.begin() + k);
}

static int do_open(const char* path, int flags, int mode, u32 pc) {
    step(C_SYNC, pc);
    bool ok;
    { Quiet q; ok = vfs::v_healthy_path(path); }
    if (!ok && fault(F_OPEN_ERR)) {
        vfs::v_count_open_fail();
        return failed(pick_err(F_OPEN_ERR, {EMFILE, EACCES, ENOSPC, EIO, ENFILE, EINTR}));
    }
    Quiet q;
    return put(vfs::v_open(path, flags, mode));
}

// one write(2): may be slow, short or fail
static long do_write(int fd, const void* p, size_t n, u32 pc) {
    step(C_SYNC, pc);
    bool con = fd == 2 || (fd == 1 && !vfs::v_fault_stdout()) || vfs::v_healthy(fd);
    if (!con) {
        if (fault(F_WRITE_SLOW)) sleep_ns((1 + fault_param(F_WRITE_SLOW, 50)) * 1000000ull);
        if (fault(F_WRITE_ERR)) {
            vfs::v_count_write_fail();
            return failed(pick_err(F_WRITE_ERR, {ENOSPC, EIO, EDQUOT, EAGAIN}));
        }
        if (n > 1 && fault(F_WRITE_SHORT)) n = 1 + fault_param(F_WRITE_SHORT, n - 1);
    }
    Quiet q;
    long r = vfs::v_write(fd, p, n);
    return r < 0 ? failed((int)-r) : r;
}
static int do_fsync(int fd, u32 pc) {
    step(C_SYNC, pc);
    if (!vfs::v_healthy(fd) && fault(F_FSYNC_ERR)) return failed(EIO);
    Quiet q;
    return put(vfs::v_fsync(fd));
}
static int do_close(int fd, u32 pc) {
    step(C_SYNC, pc);
    bool bad = !vfs::v_healthy(fd) && fault(F_CLOSE_ERR);
    Quiet q;
    int r = vfs::v_close(fd);
    if (r == 0 && bad) r = -EIO;
    return put(r);
}
static int fill(struct stat* st, const vfs::St& s) {
    memset(st, 0, sizeof *st);
    st->st_mode = s.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = (long)s.size;
    st->st_ino = s.ino;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_blocks = (long)(s.size + 511) / 512;
    return 0;
}
static int do_stat(const char* path, struct stat* st, u32 pc) {
    step(C_SYNC, pc);
    if (fault(F_STAT_ERR)) return failed(EACCES);
    Quiet q;
    vfs::St s;
    int r = vfs::v_stat(path, &s);
    if (r < 0) return failed(-r);
    return fill(st, s);
}
static int do_fstat(int fd, struct stat* st, u32 pc) {
    step(C_SYNC, pc);
    if (!vfs::v_healthy(fd) && fault(F_STAT_ERR)) return failed(EIO);
    Quiet q;
    vfs::St s;
    int r = vfs::v_fstat(fd, &s);
    if (r < 0) return failed(-r);
    return fill(st, s);
}

extern "C" {
int open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!in_sim()) return (int)::syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return do_open(path, flags, mode, PC_HERE);
}
int open64(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!in_sim()) return (int)::syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return do_open(path, flags, mode, PC_HERE);
}
int creat(const char* path, mode_t mode) {
    if (!in_sim()) return (int)::syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
    return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, (int)mode, PC_HERE);
}
int close(int fd) {
    if (!in_sim()) return (int)::syscall(SYS_close, fd);
    return do_close(fd, PC_HERE);
}
ssize_t write(int fd, const void* p, size_t n) {
    if (!in_sim()) return ::syscall(SYS_write, fd, p, n);
    return do_write(fd, p, n, PC_HERE);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!in_sim()) return ::syscall(SYS_writev, fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        if (!v[i].iov_len) continue;
        long r = do_write(fd, v[i].iov_base, v[i].iov_len, PC_HERE);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t read(int fd, void* p, size_t n) {
    if (!in_sim()) return ::syscall(SYS_read, fd, p, n);
    step(C_SYNC, PC_HERE);
    Quiet q;
    long r = vfs::v_read(fd, p, n);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
off_t lseek(int fd, off_t o, int w) {
    if (!in_sim()) return ::syscall(SYS_lseek, fd, o, w);
    step(C_SYNC, PC_HERE);
    Quiet q;
    long r = vfs::v_seek(fd, o, w);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
int fsync(int fd) {
    if (!in_sim()) return (int)::syscall(SYS_fsync, fd);
    return do_fsync(fd, PC_HERE);
}
int fdatasync(int fd) {
    if (!in_sim()) return (int)::syscall(SYS_fdatasync, fd);
    return do_fsync(fd, PC_HERE);
}
int ftruncate(int fd, off_t n) {
    if (!in_sim()) return (int)::syscall(SYS_ftruncate, fd, n);
    step(C_SYNC, PC_HERE);
    Quiet q;
    return put(vfs::v_truncate(fd, n));
}
#define STATS(name, type) \
    int name(const char* p, struct type* st) { \
        if (!in_sim()) { REAL(int, name, (const char*, struct type*)); return real_##name(p, st); } \
        return do_stat(p, (struct stat*)st, PC_HERE); \
    }
STATS(stat, stat) STATS(stat64, stat64) STATS(lstat, stat) STATS(lstat64, stat64)
#define FSTATS(name, type) \
    int name(int fd, struct type* st) { \
        if (!in_sim()) { REAL(int, name, (int, struct type*)); return real_##name(fd, st); } \
        return do_fstat(fd, (struct stat*)st, PC_HERE); \
    }
FSTATS(fstat, stat) FSTATS(fstat64, stat64)
int access(const char* p, int mode) {
    if (!in_sim()) return (int)::syscall(SYS_access, p, mode);
    struct stat st;
    return do_stat(p, &st, PC_HERE);
}
int faccessat(int, const char* p, int mode, int fl) {
    if (!in_sim()) return (int)::syscall(SYS_faccessat2, AT_FDCWD, p, mode, fl);
    struct stat st;
    return do_stat(p, &st, PC_HERE);
}
int euidaccess(const char* p, int mode) { return access(p, mode); }
int fstatat(int dfd, const char* p, struct stat* st, int fl) {
    if (!in_sim()) { REAL(int, fstatat, (int, const char*, struct stat*, int)); return real_fstatat(dfd, p, st, fl); }
    return do_stat(p, st, PC_HERE);
}
int fstatat64(int dfd, const char* p, struct stat64* st, int fl) {
    if (!in_sim()) { REAL(int, fstatat64, (int, const char*, struct stat64*, int)); return real_fstatat64(dfd, p, st, fl); }
    return do_stat(p, (struct stat*)st, PC_HERE);
}
int openat(int dfd, const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!in_sim()) return (int)::syscall(SYS_openat, dfd, path, flags, mode);
    return do_open(path, flags, mode, PC_HERE);
}
int openat64(int dfd, const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!in_sim()) return (int)::syscall(SYS_openat, dfd, path, flags, mode);
    return do_open(path, flags, mode, PC_HERE);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
    if (!in_sim()) return (int)::syscall(SYS_truncate, p, n);
    int fd = do_open(p, O_WRONLY, 0, PC_HERE);
    if (fd < 0) return -1;
    int r = ftruncate(fd, n);
    { Quiet q; vfs::v_close(fd); }
    return r;
}
int sync_file_range(int fd, off64_t, off64_t, unsigned) { return fdatasync(fd); }
void sync() { if (!in_sim()) ::syscall(SYS_sync); }
int mkdirat(int dfd, const char* p, mode_t mode) {
    if (!in_sim()) return (int)::syscall(SYS_mkdirat, dfd, p, mode);
    return mkdir(p, mode);
}
int mkdir(const char* p, mode_t mode) {
    if (!in_sim()) return (int)::syscall(SYS_mkdir, p, mode);
    step(C_SYNC, PC_HERE);
    if (fault(F_MKDIR_ERR)) { errno = pick_err(F_MKDIR_ERR, {EACCES, ENOSPC, EIO}); return -1; }
    Quiet q;
    return put(vfs::v_mkdir(p));
}
int rmdir(const char* p) {
    if (!in_sim()) return (int)::syscall(SYS_rmdir, p);
    step(C_SYNC, PC_HERE);
    Quiet q;
    return put(vfs::v_rmdir(p));
}
int unlink(const char* p) {
    if (!in_sim()) return (int)::syscall(SYS_unlink, p);
    step(C_SYNC, PC_HERE);
    Quiet q;
    return put(vfs::v_unlink(p));
}
int remove(const char* p) {
    if (!in_sim()) { REAL(int, remove, (const char*)); return real_remove(p); }
    step(C_SYNC, PC_HERE);
    Quiet q;
    int r = vfs::v_unlink(p);
    if (r == -EISDIR) r = vfs::v_rmdir(p);
    return put(r);
}
int rename(const char* a, const char* b) {
    if (!in_sim()) { REAL(int, rename, (const char*, const char*)); return real_rename(a, b); }
    step(C_SYNC, PC_HERE);
    if (fault(F_RENAME_ERR)) { errno = pick_err(F_RENAME_ERR, {EACCES, ENOSPC, EIO}); return -1; }
    Quiet q;
    return put(vfs::v_rename(a, b));
}
int isatty(int fd) {
    if (!in_sim()) { REAL(int, isatty, (int)); return real_isatty(fd); }
    if (vfs::v_tty(fd)) return 1;
    errno = ENOTTY;
    return 0;
}
pid_t getpid() { return g_active ? 4242 + g_inc : (pid_t)::syscall(SYS_getpid); }
// local time: a simulated zone, optionally with one change of its offset
struct tm* localtime_r(const time_t* t, struct tm* out) {
    if (!g_active) { REAL(struct tm*, localtime_r, (const time_t*, struct tm*)); return real_localtime_r(t, out); }
    step(C_ATOMIC, PC_HERE);
    long off = g_tz_change && (u64)*t >= g_tz_change ? g_tz_off2 : g_tz_off;
    time_t x = *t + off;
    struct tm r;
    if (!gmtime_r(&x, &r)) return nullptr;
    r.tm_gmtoff = off;
    r.tm_zone = "SIM";
    r.tm_isdst = g_tz_change && off == g_tz_off2;
    *out = r;
    return out;
}
struct tm* localtime(const time_t* t) {
    static struct tm shared;                        // one for all threads, as in libc
    localtime_r(t, &shared);
    if (in_sim()) step(C_SYNC, PC_HERE);
    return &shared;
}
char* getenv(const char* n) {
    if (!in_sim()) { REAL(char*, getenv, (const char*)); return real_getenv ? real_getenv(n) : nullptr; }
    return (char*)vfs::v_getenv(n);
}
char* secure_getenv(const char* n) { return getenv(n); }
}

// ---------------------------------------------------------------------------------------- stdio
// A FILE of the simulated process is a real glibc FILE (fopencookie), so buffering and error behaviour are glibc's own; its
// read/write/close functions end in the virtual file system. The FILE lock is the scheduler's.
struct SimFile { FILE* f; int fd; bool open; bool std; };
static SimFile g_files[512];
static int g_nfiles;

static SimFile* file_of(FILE* f) {
    for (int i = g_nfiles - 1; i >= 0; i--) if (g_files[i].f == f) return &g_files[i];
    return nullptr;
}

struct Unquiet { int q; Unquiet() : q(g_quiet) { g_quiet = 0; } ~Unquiet() { g_quiet = q; } };

static ssize_t ck_write(void* c, const char* b, size_t n) {
    SimFile* s = (SimFile*)c;
    size_t done = 0;
    while (done < n) {
        long r;
        if (s->std && !g_cur) { vfs::v_write(s->fd, b, n); return (ssize_t)n; }
        { Unquiet u; r = do_write(s->fd, b + done, n - done, g_cur->last_pc); }
        if (r < 0) return (ssize_t)done;      // glibc's FILE code sees a short count and sets the error flag
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static ssize_t ck_read(void* c, char* b, size_t n) {
    SimFile* s = (SimFile*)c;
    long r = vfs::v_read(s->fd, b, n);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
static int ck_seek(void* c, off64_t* o, int w) {
    SimFile* s = (SimFile*)c;
    long r = vfs::v_seek(s->fd, (long)*o, w);
    if (r < 0) { errno = (int)-r; return -1; }
    *o = r;
    return 0;
}
static int ck_close(void* c) {
    SimFile* s = (SimFile*)c;
    Unquiet u;
    return do_close(s->fd, g_cur->last_pc);
}

static FILE* make_file(int fd, const char* mode, bool std) {
    if (g_nfiles >= 512) infra_error("too many FILEs");
    SimFile* s = &g_files[g_nfiles];
    s->fd = fd; s->std = std; s->open = true;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    g_force_arena = true;
    FILE* f = fopencookie(s, mode, io);
    if (f) {
        REAL(int, setvbuf, (FILE*, char*, int, size_t));
        if (fd == 2) real_setvbuf(f, nullptr, _IONBF, 0);
        else if (fd == 1) real_setvbuf(f, (char*)arena_alloc(4096, 16), vfs::v_tty(1) ? _IOLBF : _IOFBF, 4096);
        else real_setvbuf(f, (char*)arena_alloc(vfs::v_bufsize(), 16), _IOFBF, vfs::v_bufsize());
    }
    g_force_arena = false;
    if (!f) infra_error("fopencookie failed");
    s->f = f;
    g_nfiles++;
    return f;
}

namespace sim {
void stdio_child_init() {
    g_nfiles = 0;
    stdout = make_file(1, "a", true);
    stderr = make_file(2, "a", true);
}
namespace vfs {
int live_files() { int n = 0; for (int i = 0; i < g_nfiles; i++) n += g_files[i].open && !g_files[i].std; return n; }
void set_tty(int fd, bool on);
}
}

enum { K_FILE = 20 };
static SimFile* lock_file(FILE* f, u32 pc, const char* fn) {
    step(C_SYNC, pc);
    SimFile* s = file_of(f);
    if (!s) violate("bad-file", "%s called with a FILE pointer that is not an open stream (%p), pc %x", fn, (void*)f, pc);
    for (;;) {
        if (!s->open) { g_res->loc[1] = pc; strcpy(g_res->loc_kind, "file"); violate("use-after-close", "%s on a closed FILE by t%d at pc %x", fn, self(), pc); }
        SyncObj* o = sync_get(f, K_FILE);
        if (!o->owner) { o->owner = g_cur->id + 1; hb_acquire(o); return s; }
        if (o->owner == g_cur->id + 1) { o->count++; return s; }
        block(T_FILE, f, 0);
    }
}
static void unlock_file(FILE* f) {
    SyncObj* o = sync_get(f, K_FILE);
    if (o->count) { o->count--; return; }
    hb_release(o);
    o->owner = 0;
    wake_waiters(T_FILE, f);
}
static bool mine(FILE* f) { return g_active && g_quiet == 0 && f; }

static size_t sim_fwrite(const void* p, size_t n, FILE* f, u32 pc, const char* fn) {
    lock_file(f, pc, fn);
    mem_access(p, n, false, pc);
    size_t r;
    int e;
    { Quiet q; r = fwrite_unlocked(p, 1, n, f); e = errno; }
    unlock_file(f);
    errno = e;
    return r;
}
static int sim_fflush(FILE* f, u32 pc, const char* fn) {
    lock_file(f, pc, fn);
    int r, e;
    { Quiet q; r = fflush_unlocked(f); e = errno; }
    unlock_file(f);
    errno = e;
    return r;
}
static int sim_vfprintf(FILE* f, const char* fmt, va_list ap, u32 pc) {
    char b[512];
    va_list a2;
    va_copy(a2, ap);
    int n;
    {
        Quiet q;
        n = vsnprintf(b, sizeof b, fmt, ap);
    }
    if (n < 0) { va_end(a2); return n; }
    size_t w;
    if (n < (int)sizeof b) w = sim_fwrite(b, n, f, pc, "fprintf");
    else {
        char* big;
        { Quiet q; big = (char*)__libc_malloc(n + 1); vsnprintf(big, n + 1, fmt, a2); }
        w = sim_fwrite(big, n, f, pc, "fprintf");
        __libc_free(big);
    }
    va_end(a2);
    return w == (size_t)n ? n : -1;
}
static FILE* sim_fopen(const char* path, const char* mode, u32 pc) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = do_open(path, fl, 0666, pc);
    if (fd < 0) return nullptr;
    Quiet q;
    if (strchr(mode, 'a')) vfs::v_set_append(fd);       // as glibc does
    return make_file(fd, mode, false);
}

extern "C" {
FILE* fdopen(int fd, const char* mode) {
    if (!in_sim()) { REAL(FILE*, fdopen, (int, const char*)); return real_fdopen(fd, mode); }
    step(C_SYNC, PC_HERE);
    if (g_cur->oom && fault(F_OOM)) { failed(ENOMEM); return nullptr; }
    if (!vfs::v_healthy(fd) && fault(F_FDOPEN_ERR)) { vfs::v_count_open_fail(); failed(pick_err(F_FDOPEN_ERR, {ENOMEM, EMFILE})); return nullptr; }
    vfs::St st;
    if (vfs::v_fstat(fd, &st) < 0) { errno = EBADF; return nullptr; }
    if (strchr(mode, 'a')) vfs::v_set_append(fd);
    Quiet q;
    return make_file(fd, mode, false);
}
FILE* fopen(const char* p, const char* m) {
    if (!in_sim()) { REAL(FILE*, fopen, (const char*, const char*)); return real_fopen(p, m); }
    return sim_fopen(p, m, PC_HERE);
}
FILE* fopen64(const char* p, const char* m) {
    if (!in_sim()) { REAL(FILE*, fopen64, (const char*, const char*)); return real_fopen64(p, m); }
    return sim_fopen(p, m, PC_HERE);
}
int fclose(FILE* f) {
    if (!mine(f)) { REAL(int, fclose, (FILE*)); return real_fclose(f); }
    SimFile* s = lock_file(f, PC_HERE, "fclose");
    int r, e;
    {
        Quiet q;
        REAL(int, fclose, (FILE*));
        r = real_fclose(f);
        e = errno;
    }
    s->open = false;
    unlock_file(f);
    errno = e;
    return r;
}
int fflush(FILE* f) {
    if (!g_active || g_quiet) { REAL(int, fflush, (FILE*)); return real_fflush(f); }
    if (!f) {
        int r = 0;
        for (int i = 0; i < g_nfiles; i++) if (g_files[i].open && sim_fflush(g_files[i].f, PC_HERE, "fflush(NULL)")) r = EOF;
        return r;
    }
    return sim_fflush(f, PC_HERE, "fflush");
}
int fflush_unlocked(FILE* f);
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) {
    if (!mine(f)) { REAL(size_t, fwrite, (const void*, size_t, size_t, FILE*)); return real_fwrite(p, sz, n, f); }
    if (!sz || !n) return 0;
    return sim_fwrite(p, sz * n, f, PC_HERE, "fwrite") / sz;
}
int fputs(const char* s, FILE* f) {
    if (!mine(f)) { REAL(int, fputs, (const char*, FILE*)); return real_fputs(s, f); }
    size_t n = strlen(s);
    return sim_fwrite(s, n, f, PC_HERE, "fputs") == n ? 1 : EOF;
}
int fputc(int c, FILE* f) {
    if (!mine(f)) { REAL(int, fputc, (int, FILE*)); return real_fputc(c, f); }
    char b = (char)c;
    return sim_fwrite(&b, 1, f, PC_HERE, "fputc") == 1 ? (unsigned char)c : EOF;
}
int putc(int c, FILE* f) {
    if (!mine(f)) { REAL(int, putc, (int, FILE*)); return real_putc(c, f); }
    char b = (char)c;
    return sim_fwrite(&b, 1, f, PC_HERE, "putc") == 1 ? (unsigned char)c : EOF;
}
int putchar(int c) { return putc(c, stdout); }
int puts(const char* s) {
    if (!mine(stdout)) { REAL(int, puts, (const char*)); return real_puts(s); }
    u32 pc = PC_HERE;
    lock_file(stdout, pc, "puts");
    size_t n = strlen(s);
    bool ok = sim_fwrite(s, n, stdout, pc, "puts") == n && sim_fwrite("\n", 1, stdout, pc, "puts") == 1;
    unlock_file(stdout);
    return ok ? 1 : EOF;
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
    if (!mine(f)) { REAL(int, vfprintf, (FILE*, const char*, va_list)); return real_vfprintf(f, fmt, ap); }
    return sim_vfprintf(f, fmt, ap, PC_HERE);
}
int fprintf(FILE* f, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r;
    if (!mine(f)) { REAL(int, vfprintf, (FILE*, const char*, va_list)); r = real_vfprintf(f, fmt, ap); }
    else r = sim_vfprintf(f, fmt, ap, PC_HERE);
    va_end(ap);
    return r;
}
int __fprintf_chk(FILE* f, int, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int printf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
int fileno(FILE* f) {
    if (!mine(f)) { REAL(int, fileno, (FILE*)); return real_fileno(f); }
    SimFile* s = file_of(f);
    if (!s || !s->open) violate("use-after-close", "fileno on a FILE that is not open by t%d at pc %x", self(), PC_HERE);
    return s->fd;
}
// positions, reading and buffering: glibc's own code under the scheduler's lock
#define LOCKED(ret, name, params, names) \
    ret name params { \
        REAL(ret, name, params); \
        if (!mine(f)) return real_##name names; \
        lock_file(f, PC_HERE, #name); \
        ret r; \
        int e; \
        { Quiet q; r = real_##name names; e = errno; } \
        unlock_file(f); \
        errno = e; \
        return r; \
    }
LOCKED(int, fseek, (FILE* f, long o, int w), (f, o, w))
LOCKED(int, fseeko, (FILE* f, off_t o, int w), (f, o, w))
LOCKED(int, fseeko64, (FILE* f, off64_t o, int w), (f, o, w))
LOCKED(long, ftell, (FILE* f), (f))
LOCKED(off_t, ftello, (FILE* f), (f))
LOCKED(off64_t, ftello64, (FILE* f), (f))
LOCKED(size_t, fread, (void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
LOCKED(char*, fgets, (char* p, int n, FILE* f), (p, n, f))
LOCKED(int, fgetc, (FILE* f), (f))
LOCKED(int, getc, (FILE* f), (f))
LOCKED(int, ungetc, (int c, FILE* f), (c, f))
void rewind(FILE* f) { fseek(f, 0, SEEK_SET); clearerr_unlocked(f); }
static void* arena_buf(size_t n) { g_force_arena = true; void* p = arena_alloc(n, 16); g_force_arena = false; return p; }
int setvbuf(FILE* f, char* b, int m, size_t n) {
    REAL(int, setvbuf, (FILE*, char*, int, size_t));
    if (!mine(f)) return real_setvbuf(f, b, m, n);
    lock_file(f, PC_HERE, "setvbuf");
    int r;
    { Quiet q; r = real_setvbuf(f, b || m == _IONBF ? b : (char*)arena_buf(n ? n : 4096), m, n ? n : 4096); }
    unlock_file(f);
    return r;
}
void setbuf(FILE* f, char* b) { setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void setlinebuf(FILE* f) { setvbuf(f, nullptr, _IOLBF, 0); }
int feof(FILE* f) {
    if (!mine(f)) { REAL(int, feof, (FILE*)); return real_feof(f); }
    return feof_unlocked(f);
}
int fileno_unlocked(FILE* f) { return fileno(f); }
int ferror(FILE* f) {
    if (!mine(f)) { REAL(int, ferror, (FILE*)); return real_ferror(f); }
    return ferror_unlocked(f);
}
void clearerr(FILE* f) { clearerr_unlocked(f); }
void flockfile(FILE* f) {
    if (!mine(f)) { REAL(void, flockfile, (FILE*)); real_flockfile(f); return; }
    lock_file(f, PC_HERE, "flockfile");
}
void funlockfile(FILE* f) {
    if (!mine(f)) { REAL(void, funlockfile, (FILE*)); real_funlockfile(f); return; }
    unlock_file(f);
}
}
