#include "vfs.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>

namespace sim {
namespace vfs {

enum { NINODE = 256, FSIZE = 512 << 10, NENT = 256, PATHLEN = 232, OUTSIZE = 1 << 20, PERSIST = 1 << 20, NFD = 256, FD0 = 1000 };

struct Inode { bool used, dir; int nlink; u64 size, dsize; u64 hwm; };
struct Entry { bool used, durable; int ino, dino; char path[PATHLEN]; };
struct Region {
    Inode ino[NINODE];
    Entry ent[NENT];
    u64 capacity;
    u64 persist_used;
    u64 out_len[3];
    bool ro_on; char ro[PATHLEN];
    Stats st;
    // bulk follows
    char out[3][OUTSIZE];
    char persist[PERSIST];
    char data[NINODE][FSIZE];
    char durable[NINODE][FSIZE];
};
static Region* R;

struct Fd { bool used; int ino; int flags; long pos; };
static Fd fds[NFD];
static bool tty[3];
static bool fault_stdout;
static char healthy[PATHLEN];       // faults and a full disk do not touch this file
static int healthy_ino = -1;
static size_t bufsize = 4096;
static char envs[16][2][96]; static int nenv;

static std::string norm(const char* p) {
    std::string s = p[0] == '/' ? std::string(p) : std::string("/work/") + p;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == '/') i++;
        size_t j = i;
        while (j < s.size() && s[j] != '/') j++;
        std::string c = s.substr(i, j - i);
        i = j;
        if (c.empty() || c == ".") continue;
        if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; }
        parts.push_back(c);
    }
    std::string r;
    for (auto& c : parts) r += "/" + c;
    return r.empty() ? "/" : r;
}
static std::string parent(const std::string& p) {
    size_t k = p.find_last_of('/');
    return k == 0 ? "/" : p.substr(0, k);
}
static Entry* find(const std::string& p) {
    for (int i = 0; i < NENT; i++) if (R->ent[i].used && p == R->ent[i].path) return &R->ent[i];
    return nullptr;
}
// every component before the last has to be an existing directory, "." and ".." as well
static int path_err(const char* p) {
    std::string s = p[0] == '/' ? std::string(p) : std::string("/work/") + p, cur = "/";
    size_t i = 0;
    bool first = true;
    while (i < s.size()) {
        while (i < s.size() && s[i] == '/') i++;
        size_t j = i;
        while (j < s.size() && s[j] != '/') j++;
        if (i == j) break;
        std::string c = s.substr(i, j - i);
        i = j;
        if (!first) {
            Entry* e = find(cur);
            if (!e) return -ENOENT;
            if (!R->ino[e->ino].dir) return -ENOTDIR;
        }
        first = false;
        if (c == ".") continue;
        if (c == "..") cur = parent(cur);
        else cur = cur == "/" ? "/" + c : cur + "/" + c;
    }
    return 0;
}
static bool readonly(const std::string& p) { return R->ro_on && p.compare(0, strlen(R->ro), R->ro) == 0; }
static int new_inode(bool dir) {
    for (int i = 0; i < NINODE; i++)
        if (!R->ino[i].used) {
            u64 h = R->ino[i].hwm;
            memset(&R->ino[i], 0, sizeof(Inode));
            R->ino[i].used = true; R->ino[i].dir = dir; R->ino[i].nlink = 1; R->ino[i].hwm = h;
            return i;
        }
    infra_error("vfs: out of inodes");
}
static Entry* new_entry(const std::string& p, int ino) {
    if (p.size() >= PATHLEN) return nullptr;
    for (int i = 0; i < NENT; i++)
        if (!R->ent[i].used) {
            Entry* e = &R->ent[i];
            e->used = true; e->durable = false; e->ino = ino; e->dino = -1;
            strcpy(e->path, p.c_str());
            return e;
        }
    infra_error("vfs: out of directory entries");
}
static void maybe_free(int ino) {
    Inode& n = R->ino[ino];
    if (n.nlink > 0) return;
    for (auto& f : fds) if (f.used && f.ino == ino) return;
    n.used = false;
}
static u64 used() { u64 t = 0; for (int i = 0; i < NINODE; i++) { auto& n = R->ino[i]; if (n.used && !n.dir && i != healthy_ino) t += n.size; } return t; }
bool v_healthy_path(const char* path) { return healthy[0] && norm(path) == healthy; }

int v_open(const char* path, int flags, int) {
    std::string p = norm(path);
    if (*path == 0) return -ENOENT;
    if (int pe = path_err(path)) return pe;
    Entry* e = find(p);
    if (!e) {
        if (!(flags & O_CREAT)) return -ENOENT;
        if (readonly(p)) return -EACCES;
        if (path[strlen(path) - 1] == '/') return -EISDIR;
        if (R->capacity && used() >= R->capacity && p != healthy) return -ENOSPC;
        e = new_entry(p, new_inode(false));
        if (!e) return -ENAMETOOLONG;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (R->ino[e->ino].dir) { if ((flags & O_ACCMODE) != O_RDONLY) return -EISDIR; }
        else if (readonly(p) && (flags & O_ACCMODE) != O_RDONLY) return -EACCES;
        if ((flags & O_TRUNC) && !R->ino[e->ino].dir) R->ino[e->ino].size = 0;
    }
    for (int i = 0; i < NFD; i++)
        if (!fds[i].used) {
            if (healthy[0] && p == healthy) healthy_ino = e->ino;
            fds[i].used = true; fds[i].ino = e->ino; fds[i].flags = flags; fds[i].pos = 0;
            R->st.opens++;
            return FD0 + i;
        }
    return -EMFILE;
}
bool v_is_fd(int fd) { return fd == 1 || fd == 2 || (fd >= FD0 && fd < FD0 + NFD); }
bool v_healthy(int fd) { return healthy[0] && fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used && fds[fd - FD0].ino == healthy_ino; }
static Fd* get(int fd) { return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used ? &fds[fd - FD0] : nullptr; }

void v_set_append(int fd) { if (Fd* f = get(fd)) f->flags |= O_APPEND; }

long v_write(int fd, const void* p, size_t n) {
    if (fd == 1 || fd == 2) {
        u64& l = R->out_len[fd];
        if (l + n > OUTSIZE) infra_error("vfs: console output buffer full");
        memcpy(R->out[fd] + l, p, n);
        l += n;
        return (long)n;
    }
    Fd* f = get(fd);
    if (!f) return -EBADF;
    if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    Inode& in = R->ino[f->ino];
    if (R->capacity && f->ino != healthy_ino) {
        u64 u = used(), pos = (f->flags & O_APPEND) ? in.size : (u64)f->pos;
        u64 grow = pos + n > in.size ? pos + n - in.size : 0;
        if (grow && u + grow > R->capacity) {
            u64 room = u >= R->capacity ? 0 : R->capacity - u;
            u64 can = room + (n - grow);
            if (can == 0) { R->st.write_fail++; return -ENOSPC; }
            n = (size_t)can;
        }
    }
    u64 pos = (f->flags & O_APPEND) ? in.size : (u64)f->pos;
    if (pos + n > FSIZE) infra_error("vfs: file too large");
    if (pos > in.size) memset(R->data[f->ino] + in.size, 0, pos - in.size);
    memcpy(R->data[f->ino] + pos, p, n);
    if (pos + n > in.size) in.size = pos + n;
    if (in.size > in.hwm) in.hwm = in.size;
    f->pos = (long)(pos + n);
    R->st.writes++;
    R->st.bytes += n;
    return (long)n;
}
long v_read(int fd, void* p, size_t n) {
    Fd* f = get(fd);
    if (!f) return -EBADF;
    Inode& in = R->ino[f->ino];
    if ((u64)f->pos >= in.size) return 0;
    n = std::min<u64>(n, in.size - f->pos);
    memcpy(p, R->data[f->ino] + f->pos, n);
    f->pos += (long)n;
    return (long)n;
}
int v_close(int fd) {
    Fd* f = get(fd);
    if (!f) return -EBADF;
    f->used = false;
    R->st.closes++;
    maybe_free(f->ino);
    return 0;
}
int v_fsync(int fd) {
    Fd* f = get(fd);
    if (!f) return -EBADF;
    Inode& in = R->ino[f->ino];
    memcpy(R->durable[f->ino], R->data[f->ino], in.size);
    in.dsize = in.size;
    for (auto& e : R->ent) if (e.used && e.ino == f->ino) { e.durable = true; e.dino = e.ino; }
    R->st.fsyncs++;
    return 0;
}
int v_truncate(int fd, long n) {
    Fd* f = get(fd);
    if (!f) return -EBADF;
    Inode& in = R->ino[f->ino];
    if ((u64)n > in.size) memset(R->data[f->ino] + in.size, 0, n - in.size);
    in.size = n;
    return 0;
}
long v_seek(int fd, long off, int wh) {
    Fd* f = get(fd);
    if (!f) return -EBADF;
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (long)R->ino[f->ino].size;
    if (b + off < 0) return -EINVAL;
    return f->pos = b + off;
}
int v_stat(const char* path, St* st) {
    if (*path == 0) return -ENOENT;
    std::string p = norm(path);
    Entry* e = find(p);
    if (int pe = path_err(path)) return pe;
    if (!e) return -ENOENT;
    Inode& in = R->ino[e->ino];
    if (!in.dir && path[strlen(path) - 1] == '/') return -ENOTDIR;
    st->dir = in.dir; st->size = in.size; st->ino = e->ino + 2;
    return 0;
}
int v_fstat(int fd, St* st) {
    if (fd == 1 || fd == 2) { st->dir = false; st->size = R->out_len[fd]; st->ino = fd; return 0; }
    Fd* f = get(fd);
    if (!f) return -EBADF;
    st->dir = R->ino[f->ino].dir; st->size = R->ino[f->ino].size; st->ino = f->ino + 2;
    return 0;
}
int v_mkdir(const char* path) {
    if (*path == 0) return -ENOENT;
    std::string p = norm(path);
    if (int pe = path_err(path)) return pe;
    if (find(p)) return -EEXIST;
    if (readonly(p)) return -EACCES;
    if (!new_entry(p, new_inode(true))) return -ENAMETOOLONG;
    R->st.mkdirs++;
    return 0;
}
static bool has_children(const std::string& p) {
    std::string pre = p == "/" ? p : p + "/";
    for (auto& e : R->ent) if (e.used && !strncmp(e.path, pre.c_str(), pre.size()) && p != e.path) return true;
    return false;
}
int v_rmdir(const char* path) {
    std::string p = norm(path);
    Entry* e = find(p);
    if (!e) return -ENOENT;
    if (!R->ino[e->ino].dir) return -ENOTDIR;
    if (has_children(p)) return -ENOTEMPTY;
    R->ino[e->ino].used = false;
    e->used = false;
    R->st.removes++;
    return 0;
}
int v_unlink(const char* path) {
    std::string p = norm(path);
    Entry* e = find(p);
    if (int pe = path_err(path)) return pe;
    if (!e) return -ENOENT;
    if (R->ino[e->ino].dir) return -EISDIR;
    if (readonly(p)) return -EACCES;
    e->used = false;
    R->ino[e->ino].nlink--;
    maybe_free(e->ino);
    R->st.removes++;
    return 0;
}
int v_rename(const char* a, const char* b) {
    std::string p = norm(a), q = norm(b);
    Entry* e = find(p);
    if (int pe = path_err(a)) return pe;
    if (!e) return -ENOENT;
    if (int pe = path_err(b)) return pe;
    if (readonly(q)) return -EACCES;
    if (p == q) return 0;
    Entry* t = find(q);
    if (R->ino[e->ino].dir) {
        if (t) return -EEXIST;
        std::string pre = p + "/";
        for (auto& x : R->ent)
            if (x.used && !strncmp(x.path, pre.c_str(), pre.size())) {
                std::string n = q + "/" + (x.path + pre.size());
                if (n.size() >= PATHLEN) return -ENAMETOOLONG;
                strcpy(x.path, n.c_str());
            }
        strcpy(e->path, q.c_str());
        R->st.renames++;
        return 0;
    }
    if (t) {
        if (R->ino[t->ino].dir) return -EISDIR;
        t->used = false;
        R->ino[t->ino].nlink--;
        maybe_free(t->ino);
    }
    if (q.size() >= PATHLEN) return -ENAMETOOLONG;
    strcpy(e->path, q.c_str());
    e->durable = false;
    R->st.renames++;
    return 0;
}
bool v_fault_stdout() { return fault_stdout; }
bool v_tty(int fd) { return (fd == 1 || fd == 2) && tty[fd]; }
const char* v_getenv(const char* n) {
    for (int i = 0; i < nenv; i++) if (!strcmp(envs[i][0], n)) return envs[i][1];
    return nullptr;
}
size_t v_bufsize() { return bufsize; }
void v_count_write_fail() { R->st.write_fail++; }
void v_count_open_fail() { R->st.open_fail++; }

// ---------------------------------------------------------------------------------------- oracle side
bool exists(const std::string& p) { SIM_QUIET; return find(norm(p.c_str())) != nullptr; }
bool is_dir(const std::string& p) { SIM_QUIET; Entry* e = find(norm(p.c_str())); return e && R->ino[e->ino].dir; }
std::string read_file(const std::string& p) {
    SIM_QUIET;
    Entry* e = find(norm(p.c_str()));
    if (!e || R->ino[e->ino].dir) return std::string();
    return std::string(R->data[e->ino], R->ino[e->ino].size);
}
bool mkdirs(const std::string& path) {
    SIM_QUIET;
    std::string p = norm(path.c_str());
    Entry* e = find(p);
    if (e) return R->ino[e->ino].dir;
    if (p != "/" && !mkdirs(parent(p))) return false;
    new_entry(p, new_inode(true));
    return true;
}
void write_file(const std::string& path, const std::string& d) {
    SIM_QUIET;
    std::string p = norm(path.c_str());
    mkdirs(parent(p));
    Entry* e = find(p);
    if (!e) e = new_entry(p, new_inode(false));
    Inode& in = R->ino[e->ino];
    memcpy(R->data[e->ino], d.data(), d.size());
    memcpy(R->durable[e->ino], d.data(), d.size());
    in.size = in.dsize = d.size();
    in.hwm = std::max<u64>(in.hwm, in.size);
    e->durable = true; e->dino = e->ino;
}
bool remove(const std::string& path) {
    SIM_QUIET;
    std::string p = norm(path.c_str());
    Entry* e = find(p);
    if (!e) return false;
    if (R->ino[e->ino].dir) return v_rmdir(path.c_str()) == 0;
    return v_unlink(path.c_str()) == 0;
}
std::vector<std::string> list() {
    SIM_QUIET;
    std::vector<std::string> v;
    for (auto& e : R->ent) if (e.used) v.push_back(e.path);
    std::sort(v.begin(), v.end());
    return v;
}
void set_capacity(u64 b) { R->capacity = b; }
u64 used_bytes() { return used(); }
void set_readonly(const std::string& p, bool on) {
    SIM_QUIET;
    R->ro_on = on;
    std::string n = norm(p.c_str());
    snprintf(R->ro, sizeof R->ro, "%s", n.c_str());
}
std::string out(int fd) { SIM_QUIET; return std::string(R->out[fd], R->out_len[fd]); }
std::string take_out(int fd) { SIM_QUIET; std::string s(R->out[fd], R->out_len[fd]); R->out_len[fd] = 0; return s; }
void power_loss(u64 seed) {
    SIM_QUIET;
    Rng r(seed);
    for (auto& e : R->ent) {
        if (!e.used || R->ino[e.ino].dir) continue;
        Inode& in = R->ino[e.ino];
        if (!e.durable && r.chance(1, 2)) { e.used = false; in.used = false; continue; }
        // durable image, plus a random part of what came later: kept, torn (zeroes) or lost
        u64 keep = in.dsize;
        if (in.size > in.dsize) {
            keep = in.dsize + r.below(in.size - in.dsize + 1);
            if (r.chance(1, 4)) memset(R->data[e.ino] + in.dsize, 0, keep - in.dsize);
        }
        if (in.size < in.dsize) keep = r.chance(1, 2) ? in.size : in.dsize;
        memcpy(R->data[e.ino], R->durable[e.ino], std::min<u64>(in.dsize, keep));
        in.size = keep;
    }
}
int open_fds() { int n = 0; for (auto& f : fds) n += f.used; return n; }
Stats stats() { return R->st; }
void set_healthy(const std::string& p) { SIM_QUIET; std::string n = norm(p.c_str()); snprintf(healthy, sizeof healthy, "%s", n.c_str()); Entry* e = find(n); healthy_ino = e ? e->ino : -1; }
void set_tty(int fd, bool on) { tty[fd] = on; }
void set_fault_stdout(bool on) { fault_stdout = on; }
void set_bufsize(size_t n) { bufsize = n ? n : 4096; }

}  // namespace vfs

void set_env(const char* n, const char* v) {
    SIM_QUIET;
    using namespace vfs;
    for (int i = 0; i < nenv; i++) if (!strcmp(envs[i][0], n)) {
        if (v) { snprintf(envs[i][1], 96, "%s", v); return; }
        envs[i][0][0] = 0; return;
    }
    if (v && nenv < 16) { snprintf(envs[nenv][0], 96, "%s", n); snprintf(envs[nenv][1], 96, "%s", v); nenv++; }
}

void vfs_setup(void* region, size_t size) {
    if (size && size < sizeof(vfs::Region)) { fprintf(stderr, "vfs region too small\n"); exit(2); }
    if (!region) {
        region = mmap(0, sizeof(vfs::Region), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (region == MAP_FAILED) { perror("mmap"); exit(2); }
    }
    vfs::R = (vfs::Region*)region;
}
void vfs_reset() {
    using namespace vfs;
    for (auto& n : R->ino) { u64 h = n.hwm; memset(&n, 0, sizeof n); n.hwm = h; }
    for (auto& e : R->ent) e.used = false;
    R->capacity = 0;
    memset(R->persist, 0, R->persist_used);
    R->persist_used = 0;
    R->out_len[1] = R->out_len[2] = 0;
    R->ro_on = false;
    memset(&R->st, 0, sizeof R->st);
    mkdirs("/");
    mkdirs("/work");
    mkdirs("/var/log");
}
void vfs_child_init() {
    memset(vfs::fds, 0, sizeof vfs::fds);
    vfs::tty[1] = vfs::tty[2] = vfs::fault_stdout = false;
    vfs::bufsize = 4096;
    vfs::healthy[0] = 0; vfs::healthy_ino = -1;
    vfs::nenv = 0;
}
void* vfs_persistent_region(size_t* n) {
    *n = vfs::PERSIST;
    vfs::R->persist_used = vfs::PERSIST;
    return vfs::R->persist;
}
}  // namespace sim
