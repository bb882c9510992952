// Counts the HDF5 and Silo identifiers conduit holds: every call that hands one out and every call that gives one
// back is wrapped (ld --wrap, so only conduit's own calls are seen, not those inside the libraries).
#include "h5track.hpp"
#include "sim.hpp"
#include "simfs.hpp"
#include "hdf5.h"
#include <silo.h>
#include <map>
#include <string>
#include <cstdarg>
namespace {
std::map<long long, int> held; std::map<const void *, int> files; bool broken = false;
std::map<long long, const char *> by;
hid_t took(hid_t id, const char *f) { if (id >= 0) { held[(long long)id]++; by[(long long)id] = f; } return id; }
herr_t gave(hid_t id, herr_t r) { auto it = held.find((long long)id); if (it != held.end() && --it->second == 0) held.erase(it); if (r < 0) broken = true; return r; }
}
static void h5files_clear();
namespace h5track {
int open_ids() { int k = 0; for (auto &x : held) k += x.second; return k; }
int open_silo() { int k = 0; for (auto &x : files) k += x.second; return k; }
const char *example() { return held.empty() ? "" : by[held.begin()->first]; }
bool close_failed() { return broken; }
void reset() { held.clear(); by.clear(); files.clear(); h5files_clear(); broken = false; }
}
#define OPENER(name, params, args) extern "C" hid_t __real_##name params; extern "C" hid_t __wrap_##name params { return took(__real_##name args, #name); }
#define CLOSER(name) extern "C" herr_t __real_##name(hid_t); extern "C" herr_t __wrap_##name(hid_t id) { return gave(id, __real_##name(id)); }
extern "C" hid_t __real_H5Fopen(const char *, unsigned, hid_t); extern "C" hid_t __real_H5Fcreate(const char *, unsigned, hid_t, hid_t); extern "C" herr_t __real_H5Fclose(hid_t);
// Opening and closing a file are scheduling points, and two simulated processes may not write one file at a time (inside this one process the library would let them)
struct H5File { std::string path; bool wr; int rank; };
static std::map<long long, H5File> h5files;
static void h5files_clear() { h5files.clear(); }
static void point(const char *w) { if (simfs::cfg.yields && sim::in_task()) sim::yield(w); }
static void before(const char *p, bool wr) {
    point("hdf5 open"); int r = sim::my_rank();
    if (simfs::cfg.exclusive) for (auto &f : h5files) if (f.second.path == p && f.second.rank != r && f.second.wr && wr)
        sim::fail("shared-writer", "HDF5 file %s is opened for writing on rank %d while rank %d has it open for writing", p, r, f.second.rank);
}
static hid_t after(hid_t id, const char *p, bool wr, const char *f) { if (id >= 0) h5files[(long long)id] = H5File{p, wr, sim::my_rank()}; took(id, f); point("hdf5 opened"); return id; }
extern "C" hid_t __wrap_H5Fopen(const char *a, unsigned b, hid_t c) { bool wr = b & H5F_ACC_RDWR; before(a, wr); return after(__real_H5Fopen(a, b, c), a, wr, "H5Fopen"); }
extern "C" hid_t __wrap_H5Fcreate(const char *a, unsigned b, hid_t c, hid_t d) { before(a, true); return after(__real_H5Fcreate(a, b, c, d), a, true, "H5Fcreate"); }
extern "C" herr_t __wrap_H5Fclose(hid_t id) { point("hdf5 close"); herr_t r = __real_H5Fclose(id); h5files.erase((long long)id); return gave(id, r); }
OPENER(H5Freopen, (hid_t a), (a))
OPENER(H5Iget_file_id, (hid_t a), (a))
OPENER(H5Gopen2, (hid_t a, const char *b, hid_t c), (a, b, c))
OPENER(H5Gopen1, (hid_t a, const char *b), (a, b))
OPENER(H5Gcreate2, (hid_t a, const char *b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
OPENER(H5Gcreate1, (hid_t a, const char *b, size_t c), (a, b, c))
OPENER(H5Gget_create_plist, (hid_t a), (a))
OPENER(H5Dopen2, (hid_t a, const char *b, hid_t c), (a, b, c))
OPENER(H5Dopen1, (hid_t a, const char *b), (a, b))
OPENER(H5Dcreate2, (hid_t a, const char *b, hid_t c, hid_t d, hid_t e, hid_t f, hid_t g), (a, b, c, d, e, f, g))
OPENER(H5Dcreate1, (hid_t a, const char *b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
OPENER(H5Dget_space, (hid_t a), (a))
OPENER(H5Dget_type, (hid_t a), (a))
OPENER(H5Dget_create_plist, (hid_t a), (a))
OPENER(H5Oopen, (hid_t a, const char *b, hid_t c), (a, b, c))
OPENER(H5Oopen_by_idx, (hid_t a, const char *b, H5_index_t c, H5_iter_order_t d, hsize_t e, hid_t f), (a, b, c, d, e, f))
OPENER(H5Screate, (H5S_class_t a), (a))
OPENER(H5Screate_simple, (int a, const hsize_t *b, const hsize_t *c), (a, b, c))
OPENER(H5Scopy, (hid_t a), (a))
OPENER(H5Tcopy, (hid_t a), (a))
OPENER(H5Tcreate, (H5T_class_t a, size_t b), (a, b))
OPENER(H5Pcreate, (hid_t a), (a))
OPENER(H5Pcopy, (hid_t a), (a))
OPENER(H5Acreate2, (hid_t a, const char *b, hid_t c, hid_t d, hid_t e, hid_t f), (a, b, c, d, e, f))
OPENER(H5Acreate1, (hid_t a, const char *b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
OPENER(H5Aopen, (hid_t a, const char *b, hid_t c), (a, b, c))
CLOSER(H5Gclose) CLOSER(H5Dclose) CLOSER(H5Oclose) CLOSER(H5Sclose) CLOSER(H5Tclose) CLOSER(H5Pclose) CLOSER(H5Aclose)
extern "C" int __real_H5Idec_ref(hid_t);
extern "C" int __wrap_H5Idec_ref(hid_t id) { int r = __real_H5Idec_ref(id); gave(id, r < 0 ? -1 : 0); return r; }
extern "C" DBfile *__real_DBOpenReal(const char *, int, int);
extern "C" DBfile *__wrap_DBOpenReal(const char *a, int b, int c) { DBfile *f = __real_DBOpenReal(a, b, c); if (f) files[f]++; else broken = true; return f; }
extern "C" DBfile *__real_DBCreateReal(const char *, int, int, const char *, int);
extern "C" DBfile *__wrap_DBCreateReal(const char *a, int b, int c, const char *d, int e) { DBfile *f = __real_DBCreateReal(a, b, c, d, e); if (f) files[f]++; else broken = true; return f; }
extern "C" int __real_DBClose(DBfile *);
extern "C" int __wrap_DBClose(DBfile *f) { auto it = files.find(f); if (it != files.end() && --it->second == 0) files.erase(it); int r = __real_DBClose(f); if (r < 0) broken = true; return r; }
