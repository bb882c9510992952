#include "simfs.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <algorithm>

namespace simfs {
Config cfg; Stats st;
const char *opname[] = {"open", "read", "write", "close", "truncate", "mkdir", "mmap", "unlink", "seek", "stat", "opendir", "?"};
static bool g_on = false;       // inside a run
static bool g_armed = false;
static bool g_sticky = false;
static int g_pause = 0;
static std::map<int, OpenFile> *files;
struct Range { uintptr_t lo, hi; };
static std::vector<Range> *foreign;  // code of libraries that must not be re-entered (HDF5, Silo)
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    const char *n = i->dlpi_name ? i->dlpi_name : "";
    if (strstr(n, "hdf5") || strstr(n, "silo")) {
        Range r{~(uintptr_t)0, 0};
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            r.lo = std::min(r.lo, a); r.hi = std::max(r.hi, b);
        }
        foreign->push_back(r);
    }
    return 0;
}
void reset_run() {
    files = new std::map<int, OpenFile>;
    foreign = new std::vector<Range>;
    dl_iterate_phdr(phdr_cb, nullptr);
    cfg = Config(); st = Stats(); g_on = true; g_armed = false; g_sticky = false; g_pause = 0;
}
void enable(bool b) { g_on = b; }
void arm() { st = Stats(); g_armed = true; g_sticky = false; }
void disarm() { g_armed = false; g_sticky = false; }
bool armed() { return g_armed; }
std::map<int, OpenFile> open_files() { return *files; }
int open_count() { return (int)files->size(); }
static bool active() { return g_on && !g_pause; }
static bool ours(const char *p) { return p && p[0] != '/'; }
static bool tracked(int fd) { return active() && files->count(fd); }
Pause::Pause() { g_pause++; }
Pause::~Pause() { g_pause--; }

bool in_foreign(void *ra) {
    uintptr_t a = (uintptr_t)ra;
    if (foreign) for (auto &r : *foreign) if (a >= r.lo && a < r.hi) return true;
    return false;
}
static void maybe_yield(void *ra, const char *w) {
    if (!cfg.yields || !sim::in_task()) return;
    if (in_foreign(ra)) return;
    sim::yield(w);
}
// Is this op hit by the hard fault? Sets errno.
static bool faulted(Op op, const char *path) {
    if (!g_armed) return false;
    st.ops++;
    if (cfg.crash_at >= 0 && st.ops - 1 == cfg.crash_at && (op != OP_WRITE || cfg.crash_torn < 0)) { syscall(SYS_exit_group, 77); }
    int r = sim::my_rank();
    if (cfg.rank != -2 && r != cfg.rank) return false;
    if (!(cfg.mask >> op & 1)) return false;
    long k = st.counted++;
    if (g_sticky || (cfg.at >= 0 && k == cfg.at)) {
        if (!st.fired) { st.fired = true; st.fired_op = op; st.fired_path = path; st.fired_rank = r; }
        if (cfg.sticky) g_sticky = true;
        st.paths.push_back(path);
        sim::count((std::string("fault.") + opname[op] + "." + (cfg.err == ENOSPC ? "ENOSPC" : cfg.err == EIO ? "EIO" : cfg.err == EMFILE ? "EMFILE" : cfg.err == EACCES ? "EACCES" : "ERR")).c_str());
        sim::logf("FAULT %s %s errno=%d", opname[op], path, cfg.err);
        errno = cfg.err;
        return true;
    }
    return false;
}
static bool benign_eintr() {
    if (!g_armed || !cfg.eintr) return false;
    if (!sim::chance(cfg.eintr, 256)) return false;
    sim::count("fault.eintr"); errno = EINTR; return true;
}
static size_t benign_short(size_t n) {
    if (!g_armed || !cfg.shortio || n < 2) return n;
    if (!sim::chance(cfg.shortio, 256)) return n;
    sim::count("fault.shortio");
    return 1 + sim::choose((uint32_t)std::min<size_t>(n - 1, 1 << 20));
}
static void on_open(int fd, const char *p, bool wr) {
    int r = sim::my_rank();
    if (cfg.exclusive && wr)
        for (auto &f : *files) if (f.second.path == p && f.second.rank != r && f.second.wr)
            sim::fail("shared-writer", "file %s is opened for writing on rank %d while rank %d has it open for writing", p, r, f.second.rank);
    (*files)[fd] = OpenFile{p, wr, r};
    sim::logf("open %s %s rank=%d", p, wr ? "w" : "r", r);
}
template <class F> static F real(F &cache, const char *n) { if (!cache) cache = (F)dlsym(RTLD_NEXT, n); return cache; }
#define REAL(ret, name, ...) static ret (*name##_p)(__VA_ARGS__); 

// write n bytes at fd (offset<0: current position)
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, const char *path) {
    if (g_armed && cfg.crash_at >= 0 && cfg.crash_torn >= 0 && st.ops == cfg.crash_at) {
        size_t k = (size_t)((unsigned long long)n * cfg.crash_torn / 1000);
        long w = off < 0 ? syscall(SYS_write, fd, b, k) : syscall(SYS_pwrite64, fd, b, k, off); (void)w;
        syscall(SYS_exit_group, 77);
    }
    if (faulted(OP_WRITE, path)) {
        st.affected_write = true;
        if (cfg.partial && n > 1) {
            size_t k = 1 + sim::choose((uint32_t)std::min<size_t>(n - 1, 1 << 20));
            // a torn write: some bytes reach the disk, the call still fails
            if (off < 0) { ssize_t w = syscall(SYS_write, fd, b, k); (void)w; } else { ssize_t w = syscall(SYS_pwrite64, fd, b, k, off); (void)w; }
            sim::count("fault.torn_write");
        }
        errno = cfg.err; return -1;
    }
    if (benign_eintr()) return -1;
    n = benign_short(n);
    if (g_armed && cfg.quota >= 0) {
        if (cfg.quota == 0 && n) { st.fired = true; st.affected_write = true; if (st.fired_op == OP_N) { st.fired_op = OP_WRITE; st.fired_path = path; st.fired_rank = sim::my_rank(); } sim::count("fault.disk_full"); sim::logf("FAULT disk full %s", path); errno = ENOSPC; return -1; }
        n = (size_t)std::min<long long>((long long)n, cfg.quota);
        cfg.quota -= (long long)n;
    }
    if (g_armed) st.written += (long long)n;
    sim::logf("write %s %zu @%ld", path, n, (long)off);
    return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
}
// delayed write errors surface at close: the end of the file never reached the disk
static void lose_tail(const std::string &p) {
    if (!cfg.lossy_close) return;
    long long n = size(p);
    if (n <= 0) return;
    long long k = (long long)sim::choose((uint32_t)n);
    syscall(SYS_truncate, p.c_str(), k);
    sim::count("fault.lost_write"); sim::logf("lost the end of %s from %lld", p.c_str(), k);
}
static ssize_t do_read(int fd, void *b, size_t n, off_t off, const char *path) {
    if (faulted(OP_READ, path)) return -1;
    if (benign_eintr()) return -1;
    n = benign_short(n);
    sim::logf("read %s %zu @%ld", path, n, (long)off);
    return off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
}
} // namespace simfs
using namespace simfs;

extern "C" {
static int open_impl(const char *p, int fl, mode_t m, void *ra) {
    if (!active() || !ours(p)) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    maybe_yield(ra, "open");
    if (faulted(OP_OPEN, p)) return -1;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    if (fd >= 0) on_open(fd, p, (fl & O_ACCMODE) != O_RDONLY);
    return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_impl(p, fl, m, __builtin_return_address(0)); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_impl(p, fl | O_LARGEFILE, m, __builtin_return_address(0)); }
int creat(const char *p, mode_t m) { return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, m, __builtin_return_address(0)); }
int close(int fd) {
    if (!tracked(fd)) return (int)syscall(SYS_close, fd);
    std::string p = (*files)[fd].path; bool wr = (*files)[fd].wr;
    bool f = faulted(OP_CLOSE, p.c_str());
    files->erase(fd);
    sim::logf("close %s", p.c_str());
    int r = (int)syscall(SYS_close, fd);
    if (f && wr) lose_tail(p);
    if (f) { errno = cfg.err; return -1; }
    return r;
}
static FILE *fopen_impl(const char *p, const char *m, void *ra) {
    static FILE *(*rf)(const char *, const char *);
    real(rf, "fopen64");
    if (!active() || !ours(p)) return rf(p, m);
    maybe_yield(ra, "fopen");
    if (faulted(OP_OPEN, p)) return nullptr;
    FILE *f = rf(p, m);
    if (f) on_open(fileno(f), p, m[0] != 'r' || strchr(m, '+'));
    return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_impl(p, m, __builtin_return_address(0)); }
FILE *fopen64(const char *p, const char *m) { return fopen_impl(p, m, __builtin_return_address(0)); }
int fclose(FILE *f) {
    static int (*rc)(FILE *);
    real(rc, "fclose");
    int fd = f ? fileno(f) : -1;
    if (!f || !tracked(fd)) return rc(f);
    std::string p = (*files)[fd].path; bool wr = (*files)[fd].wr;
    maybe_yield(__builtin_return_address(0), "fclose");
    bool x = faulted(OP_CLOSE, p.c_str());
    files->erase(fd);
    sim::logf("close %s", p.c_str());
    int r = rc(f);
    if (x && wr) lose_tail(p);
    if (x) { errno = cfg.err; return EOF; }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!tracked(fd)) return syscall(SYS_write, fd, b, n);
    maybe_yield(__builtin_return_address(0), "write");
    return do_write(fd, b, n, -1, (*files)[fd].path.c_str());
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
    maybe_yield(__builtin_return_address(0), "writev");
    // flatten: a short write may then end anywhere
    std::string b;
    for (int i = 0; i < c; i++) b.append((const char *)v[i].iov_base, v[i].iov_len);
    return do_write(fd, b.data(), b.size(), -1, (*files)[fd].path.c_str());
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    return do_write(fd, b, n, o, (*files)[fd].path.c_str());
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
    if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
    maybe_yield(__builtin_return_address(0), "read");
    return do_read(fd, b, n, -1, (*files)[fd].path.c_str());
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, o);
    return do_read(fd, b, n, o, (*files)[fd].path.c_str());
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) {
    if (tracked(fd) && faulted(OP_TRUNC, (*files)[fd].path.c_str())) return -1;
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int mkdir(const char *p, mode_t m) {
    if (active() && ours(p)) {
        maybe_yield(__builtin_return_address(0), "mkdir");
        if (faulted(OP_MKDIR, p)) return -1;
        sim::logf("mkdir %s", p);
    }
    return (int)syscall(SYS_mkdir, p, m);
}
int unlink(const char *p) {
    if (active() && ours(p)) {
        maybe_yield(__builtin_return_address(0), "unlink");
        if (faulted(OP_UNLINK, p)) return -1;
        sim::logf("unlink %s", p);
    }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) {
    if (active() && ours(p)) {
        maybe_yield(__builtin_return_address(0), "remove");
        if (faulted(OP_UNLINK, p)) return -1;
        sim::logf("remove %s", p);
    }
    int r = (int)syscall(SYS_unlink, p);
    if (r != 0 && errno == EISDIR) r = (int)syscall(SYS_rmdir, p);
    return r;
}
void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) {
    if (fd >= 0 && tracked(fd) && faulted(OP_MMAP, (*files)[fd].path.c_str())) return MAP_FAILED;
    return (void *)syscall(SYS_mmap, a, l, pr, fl, fd, o);
}
void *mmap64(void *a, size_t l, int pr, int fl, int fd, off64_t o) { return mmap(a, l, pr, fl, fd, o); }
DIR *opendir(const char *p) {
    static DIR *(*ro)(const char *);
    real(ro, "opendir");
    if (active() && ours(p)) { maybe_yield(__builtin_return_address(0), "opendir"); if (faulted(OP_OPENDIR, p)) return nullptr; }
    return ro(p);
}
// stat on a path is a scheduling point, never a fault (a failing stat means "absent")
int stat(const char *p, struct stat *s) {
    if (active() && ours(p)) maybe_yield(__builtin_return_address(0), "stat");
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}
// time
int nanosleep(const struct timespec *t, struct timespec *rem) {
    // (inside the HDF5 library, which holds its lock, nobody else may run)
    if (g_on && in_foreign(__builtin_return_address(0))) { sim::advance((int64_t)t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
    if (g_on) { if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; } sim::sleep_ns((int64_t)t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
    return (int)syscall(SYS_nanosleep, t, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (g_on) {
        int64_t d = (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec;
        if (fl & TIMER_ABSTIME) { struct timespec n; clock_gettime(c, &n); d -= (int64_t)n.tv_sec * 1000000000ll + n.tv_nsec; if (d < 0) d = 0; }
        if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
        sim::sleep_ns(d); return 0;
    }
    return (int)syscall(SYS_clock_nanosleep, c, fl, t, rem);
}
int usleep(useconds_t us) {
    struct timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (long)(us % 1000000) * 1000;
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) { struct timespec t; t.tv_sec = s; t.tv_nsec = 0; nanosleep(&t, nullptr); return 0; }
static const int64_t EPOCH = 1700000000ll * 1000000000ll;
int clock_gettime(clockid_t c, struct timespec *t) {
    if (g_on && !g_pause) { int64_t n = EPOCH + sim::now(); t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; return 0; }
    return (int)syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *t, void *) {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t *o) {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
// no shelling out from the code under test
int system(const char *cmd) { if (g_on) { sim::logf("system %s", cmd ? cmd : ""); return 0; } return -1; }
// per-process (=per rank) C random numbers
static uint32_t rnd_main = 1; static std::map<int, uint32_t> *rnds;
static uint32_t &rnd() { int r = sim::my_rank(); if (r < 0) return rnd_main; if (!rnds) rnds = new std::map<int, uint32_t>; auto it = rnds->find(r); if (it == rnds->end()) it = rnds->insert({r, 1}).first; return it->second; }
int rand(void) { uint32_t &x = rnd(); x = x * 1103515245u + 12345u; uint32_t h = x >> 16; x = x * 1103515245u + 12345u; return (int)(((h << 16) ^ (x >> 8)) & 0x7fffffff); }
void srand(unsigned s) { rnd() = s; }
long random(void) { return rand(); }
void srandom(unsigned s) { srand(s); }
}

namespace simfs {
bool exists(const std::string &p) { struct ::stat s; return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &s, 0) == 0; }
long long size(const std::string &p) { struct ::stat s; if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &s, 0)) return -1; return s.st_size; }
bool truncate_file(const std::string &p, long long n) { return syscall(SYS_truncate, p.c_str(), n) == 0; }
std::string slurp(const std::string &p) {
    std::string r; int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (fd < 0) return r;
    char b[65536]; long k; while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, k);
    syscall(SYS_close, fd); return r;
}
bool spew(const std::string &p, const std::string &d) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return false;
    size_t o = 0; while (o < d.size()) { long k = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (k <= 0) break; o += k; }
    syscall(SYS_close, fd); return o == d.size();
}
bool copy_file(const std::string &a, const std::string &b) { return exists(a) && spew(b, slurp(a)); }
int real_mkdir(const std::string &p) { return (int)syscall(SYS_mkdir, p.c_str(), 0755); }
static void walk(const std::string &d, const std::string &pre, std::vector<std::string> &out) {
    Pause pz;
    DIR *dd = ::opendir(d.c_str()); if (!dd) return;
    while (struct dirent *e = readdir(dd)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        if (e->d_type == DT_DIR) walk(d + "/" + n, pre + n + "/", out); else out.push_back(pre + n);
    }
    closedir(dd);
}
std::vector<std::string> list(const std::string &d) { std::vector<std::string> r; walk(d, "", r); std::sort(r.begin(), r.end()); return r; }
}
