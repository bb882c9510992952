// Simulated operating system faults below libc's file calls. Files really live
// in the run's scratch directory; every call on them passes through here.
#ifndef VERIF_SIMFS_HPP
#define VERIF_SIMFS_HPP
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cstdint>
namespace simfs {
enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_TRUNC, OP_MKDIR, OP_MMAP, OP_UNLINK, OP_SEEK, OP_STAT, OP_OPENDIR, OP_N };
struct Config {
    // benign: must be masked by the library
    int eintr = 0, shortio = 0;          // probability of 256 per read/write
    // one hard fault: the `at`-th op whose bit is in `mask` (on rank `rank`, or any)
    unsigned mask = 0; long at = -1; int err = 5 /*EIO*/; int rank = -2; bool sticky = false; bool partial = false;
    long long quota = -1;                // bytes that can still be written before ENOSPC (-1: no limit)
    bool yields = false;                 // file calls are scheduling points
    bool exclusive = false;              // a file open for writing on two ranks is a violation
    bool lossy_close = false;            // a failing close of a written file has lost the end of the file
    int crash_torn = -1;                 // per mille of the write in flight that reaches the file when the process dies
    long crash_at = -1;                  // the process vanishes at this op
};
extern Config cfg;
struct Stats { long long written = 0; long ops = 0; long counted = 0; bool fired = false; bool affected_write = false; int fired_rank = -2; Op fired_op = OP_N; std::string fired_path; std::vector<std::string> paths; };
extern Stats st;
void arm();                 // start counting ops from 0, faults active
void disarm();              // faults off (also clears sticky errors), counting stops
bool armed();
struct OpenFile { std::string path; bool wr; int rank; };
std::map<int, OpenFile> open_files();     // tracked descriptors
int open_count();
bool in_foreign(void *code);              // address inside the HDF5 or Silo libraries
void reset_run();
extern const char *opname[];
// raw helpers for the harness: never faulted, never logged
bool exists(const std::string &p);
long long size(const std::string &p);
bool truncate_file(const std::string &p, long long n);
std::string slurp(const std::string &p);
bool spew(const std::string &p, const std::string &d);
std::vector<std::string> list(const std::string &dir);    // recursive, files only
bool copy_file(const std::string &a, const std::string &b);
int real_mkdir(const std::string &p);
struct Pause { bool was; Pause(); ~Pause(); };            // passes calls straight through in scope
}
#endif
