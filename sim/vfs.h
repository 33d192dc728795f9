// In-memory file system behind the interposed system calls. State lives in shared memory, so it survives a simulated crash.
#pragma once
#include "rt.h"
#include <sys/types.h>

namespace sim {
namespace vfs {
// all return >= 0 or -errno; they are called with g_quiet > 0 and never yield
int  v_open(const char* path, int flags, int mode);      // -> vfd
long v_write(int fd, const void* p, size_t n);
long v_read(int fd, void* p, size_t n);
int  v_close(int fd);
int  v_fsync(int fd);
int  v_truncate(int fd, long n);
long v_seek(int fd, long off, int whence);
struct St { bool dir; u64 size; u64 ino; };
int  v_stat(const char* path, St* st);
int  v_fstat(int fd, St* st);
int  v_mkdir(const char* path);
int  v_rmdir(const char* path);
int  v_unlink(const char* path);
int  v_rename(const char* a, const char* b);
bool v_is_fd(int fd);
void v_set_append(int fd);
bool v_healthy(int fd);
bool v_healthy_path(const char* path);
bool v_tty(int fd);
bool v_fault_stdout();
const char* v_getenv(const char* n);
size_t v_bufsize();
void v_count_write_fail();
void v_count_open_fail();
}
}
