// C15-C20: saving and loading over the simulated operating system.
#include "sim.hpp"
#include "simfs.hpp"
#include "gen.hpp"
#include "h5track.hpp"
#include "heap.hpp"
#include "conduit.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_hdf5.hpp"
#include "conduit_relay_io_silo.hpp"
#include <mpi.h>
#include "conduit_relay_mpi_io.hpp"
#include "hdf5.h"
#include <cerrno>
#include <cmath>
#include <cstring>
#include <functional>
#include <list>
#include <malloc.h>
#include <map>
#include <memory>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace conduit;
namespace rio = conduit::relay::io;
namespace rmio = conduit::relay::mpi::io;
using std::string; using std::vector;

namespace {
struct Proto { const char *name, *ext; bool exact; };
const vector<Proto> protos = {
    {"conduit_bin", "conduit_bin", true}, {"conduit_base64_json", "conduit_base64_json", true}, {"conduit_json", "conduit_json", true},
    {"json", "json", false}, {"yaml", "yaml", false}, {"hdf5", "hdf5", true}, {"conduit_silo", "silo", true}};
bool is(const Proto &p, const char *n) { return !strcmp(p.name, n); }
bool basic(const Proto &p) { return !is(p, "hdf5") && !is(p, "conduit_silo"); }
// the trees a protocol can represent
gen::Opt opts_for(const Proto &p) {
    gen::Opt o;
    gen::loose_empty = true; gen::moderate = !p.exact;
    o.big = true;
    if (is(p, "conduit_bin") || is(p, "conduit_base64_json") || is(p, "hdf5")) o.swapped = true;
    if (!p.exact) { o.list_of_objects = true; }
    if (is(p, "yaml")) { o.weird_names = false; o.empty_strings = false; o.root_leaf = false; }
    if (is(p, "hdf5")) o.root_leaf = false;
    return o;
}
// the Silo library reads uninitialised memory by itself (DBClose crashes under MALLOC_PERTURB_ in a plain program)
void prep(const Proto &p) { if (is(p, "conduit_silo")) mallopt(M_PERTURB, 0); }
string canon_for(const Proto &p, const Node &n) { return p.exact ? gen::canon(n) : gen::canon_text(n); }
void benign() { simfs::cfg = simfs::Config(); simfs::cfg.eintr = sim::chance(1, 2) ? (int)sim::choose(120) : 0; simfs::cfg.shortio = sim::chance(1, 2) ? (int)sim::choose(200) : 0; }
} // namespace

namespace {
void rand_for(const Proto &p, Node &n) {
    gen::Opt o = opts_for(p);
    gen::rand_node(n, o); gen::log(n);
    // an empty YAML document has no root
    if (is(p, "yaml") && n.number_of_children() == 0) n["k"] = 1;
    // Silo refuses (with an error) to store a tree without any bytes
    if (is(p, "conduit_silo") && n.total_bytes_compact() == 0) { n.reset(); n["k"] = 1; }
}
}

namespace {
string path_for(const Proto &p) { return string("f.") + p.ext + (is(p, "conduit_silo") ? ":obj" : ""); }
string file_of(const string &path) { return path.substr(0, path.find(':')); }
// ---- ways to save and to load a whole node
Node h5opts() {
    Node o;
    if (sim::chance(1, 2)) return o;
    Node &h = o["hdf5"];
    if (sim::chance(1, 2)) { h["compact_storage/enabled"] = sim::chance(1, 2) ? "true" : "false"; h["compact_storage/threshold"] = (int)sim::choose(200); }
    if (sim::chance(2, 3)) { h["chunking/enabled"] = "true"; h["chunking/threshold"] = 1 + (int)sim::choose(400); h["chunking/chunk_size"] = 8 + (int)sim::choose(300); h["chunking/compression/method"] = sim::chance(1, 2) ? "gzip" : "none"; h["chunking/compression/level"] = (int)sim::choose(6); }
    else h["chunking/enabled"] = "false";
    if (sim::chance(1, 4)) h["libver"] = sim::pick(vector<string>{"default", "latest", "v108", "none"});
    return o;
}
struct IO { Proto p; string path; int route; Node opts; };
IO draw_io(bool merged_ok = true) {
    IO io; io.p = sim::pick(protos); prep(io.p); io.path = path_for(io.p); io.route = sim::pick(merged_ok ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : vector<int>{0, 1, 2, 3, 5, 6});
    if (is(io.p, "hdf5")) { io.opts = h5opts(); if (io.opts.has_path("hdf5/libver") && io.opts["hdf5/libver"].as_string() == "none") io.opts["hdf5"].remove("libver"); }
    sim::sample("%s route %d%s ", io.p.name, io.route, io.opts.dtype().is_empty() ? "" : " +options");
    return io;
}
void do_save(const IO &io, const Node &n) {
    switch (io.route) {
    case 0: if (basic(io.p)) { n.save(io.path, io.p.name); return; } // fall through
    case 1: rio::save(n, io.path, io.p.name, io.opts); return;
    case 2: rio::save(n, io.path, string(), io.opts); return;
    case 5: rmio::save(n, io.path, io.p.name, io.opts, MPI_COMM_SELF); return;
    case 6: rmio::save(n, io.path, string(), io.opts, MPI_COMM_SELF); return;
    case 7: if (io.opts.dtype().is_empty()) rmio::save(n, io.path, MPI_COMM_SELF); else rmio::save(n, io.path, io.p.name, io.opts, MPI_COMM_SELF); return;
    default: if (!is(io.p, "conduit_silo")) { rio::IOHandle h; Node o(io.opts); o["mode"] = "wt"; h.open(io.path, io.p.name, o); h.write(n); h.close(); } else rio::save(n, io.path);
    }
}
void do_load(const IO &io, Node &n) {
    switch (io.route) {
    case 0: if (basic(io.p)) { n.load(io.path, io.p.name); return; } // fall through
    case 1: rio::load(io.path, io.p.name, n); return;
    case 2: rio::load(io.path, n); return;
    case 5: rmio::load(io.path, n, MPI_COMM_SELF); return;
    case 6: rmio::load(io.path, string(), 0, 0, n, MPI_COMM_SELF); return;
    case 7: n.reset(); rmio::load_merged(io.path, io.p.name, n, MPI_COMM_SELF); return;
    case 3: if (!is(io.p, "conduit_silo")) { rio::IOHandle h; Node o; o["mode"] = "r"; n.reset(); h.open(io.path, io.p.name, o); h.read(n); h.close(); } else rio::load(io.path, n); return;
    default: n.reset(); rio::load_merged(io.path, io.p.name, n);
    }
}
int h5_open() { return (int)H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL); }
struct State { H5E_auto2_t f; void *d; conduit::utils::conduit_error_handler e; conduit::utils::conduit_warning_handler w; conduit::utils::conduit_info_handler i; string h5o; };
State state() { State s; H5Eget_auto2(H5E_DEFAULT, &s.f, &s.d); s.e = conduit::utils::error_handler(); s.w = conduit::utils::warning_handler(); s.i = conduit::utils::info_handler(); Node o; rio::hdf5_options(o); s.h5o = o.to_json(); return s; }
void check_state(const State &a, const char *when) {
    State b = state();
    if (a.f != b.f || a.d != b.d) sim::fail("hdf5-error-reporting", "HDF5 error reporting was not restored %s", when);
    if (a.e != b.e || a.w != b.w || a.i != b.i) sim::fail("handlers", "conduit message handlers were not restored %s", when);
    if (a.h5o != b.h5o) sim::fail("hdf5-options", "HDF5 options given to one call are still in force %s", when);
}
void check_leaks(const char *when) {
    auto f = simfs::open_files();
    if (!f.empty()) sim::fail("leak-fd", "%s: file %s is still open (%zu descriptors)", when, f.begin()->second.path.c_str(), f.size());
    if (h5track::open_ids() > 0) sim::fail("leak-hdf5", "%s: %d HDF5 identifiers are still open (from %s)", when, h5track::open_ids(), h5track::example());
    if (h5track::open_silo() > 0) sim::fail("leak-silo", "%s: %d Silo files are still open", when, h5track::open_silo());
    int k = h5_open();
    if (k > 0) sim::fail("leak-hdf5", "%s: %d HDF5 identifiers are still open", when, k);
}
// run an I/O call; true if it reported an error
bool throws(const std::function<void()> &f, string *msg = nullptr) {
    try { f(); return false; }
    catch (const conduit::Error &e) { if (msg) *msg = e.message(); return true; }
    catch (const std::exception &e) { if (msg) *msg = string("std: ") + e.what(); return true; }
}
vector<std::pair<string, string>> snapshot() { vector<std::pair<string, string>> r; for (auto &f : simfs::list(".")) r.push_back({f, simfs::slurp(f)}); return r; }
void restore(const vector<std::pair<string, string>> &s) { for (auto &f : simfs::list(".")) ::syscall(SYS_unlink, f.c_str()); for (auto &f : s) simfs::spew(f.first, f.second); }
} // namespace

namespace {
bool native(const Node &n) {
    for (index_t i = 0; i < n.number_of_children(); i++) if (!native(n.child(i))) return false;
    return n.number_of_children() || !n.dtype().is_number() || n.dtype().endianness_matches_machine();
}
}
SCENARIO(C15, save_load, 4) {
    IO io = draw_io();
    State st0 = state();
    Node n; rand_for(io.p, n);
    string want = canon_for(io.p, n);
    if (sim::chance(1, 2)) { Node old; rand_for(io.p, old); do_save(io, old); sim::sample("over old file "); }
    benign(); simfs::arm();
    do_save(io, n);
    IO io2 = io; io2.route = (int)sim::choose(8);
    Node m; if (sim::chance(1, 3)) rand_for(io.p, m);
    do_load(io2, m);
    simfs::disarm();
    string got = canon_for(io.p, m);
    if (got != want) sim::fail((string("reload:") + io.p.name).c_str(), "%s: %s", io.p.name, gen::diff(want, got).c_str());
    if (is(io.p, "hdf5") && !native(m)) sim::fail("reload:hdf5", "a leaf loaded from HDF5 is not in the machine's byte order");
    if (canon_for(io.p, n) != want) sim::fail("saved-node-changed", "saving changed the node");
    check_state(st0, "after saving and loading");
    check_leaks("after saving and loading");
}
// raw binary with a separate schema, schema files
SCENARIO(C15, raw_schema, 1) {
    gen::Opt o; gen::loose_empty = true; o.swapped = true; o.big = true;
    Node n; gen::rand_node(n, o); gen::log(n); string want = gen::canon(n);
    benign(); simfs::arm();
    Schema s; n.schema().compact_to(s);
    n.serialize("raw.bin"); s.save("raw.schema");
    Schema s2; s2.load("raw.schema");
    Node m; m.load("raw.bin", s2);
    simfs::disarm();
    if (gen::canon(m) != want) sim::fail("reload:raw", "%s", gen::diff(want, gen::canon(m)).c_str());
    std::vector<uint8> v; n.serialize(v);
    Node k; k.set_external(s, v.empty() ? nullptr : v.data());
    if (gen::canon(k) != want) sim::fail("reload:serialize", "%s", gen::diff(want, gen::canon(k)).c_str());
    check_leaks("after raw save and load");
}

// ------------------------------------------------------------------ C16: faults
namespace {
const vector<int> errs = {EIO, ENOSPC, EACCES, EMFILE};
// draws one hard fault among `ops` (the ops the call makes without faults)
// The Silo library itself ignores failing writes and closes and stays broken after a failed DBOpen
// (seen in DBWrite/DBClose/DBOpen return values), so for Silo only failing opens are injected while saving
// and recovery in the same process is not claimed.
bool g_silo = false, g_dirs = false;
void draw_fault(bool saving) {
    simfs::cfg = simfs::Config();
    simfs::cfg.lossy_close = true;
    if (saving && g_silo) { simfs::cfg.mask = 1u << simfs::OP_OPEN; simfs::cfg.err = sim::pick(errs); simfs::cfg.sticky = sim::chance(1, 2); return; }
    if (saving && sim::chance(1, 4)) { simfs::cfg.quota = 0; return; }   // value set by the caller
    static const vector<unsigned> ms = {1u << simfs::OP_OPEN, 1u << simfs::OP_READ, 1u << simfs::OP_WRITE, 1u << simfs::OP_CLOSE, 1u << simfs::OP_TRUNC, 0x7fu};
    static const vector<unsigned> ml = {1u << simfs::OP_OPEN, 1u << simfs::OP_READ, 1u << simfs::OP_READ, 1u << simfs::OP_CLOSE, 0x7fu};
    simfs::cfg.mask = sim::pick(saving ? ms : ml);
    if (g_dirs && sim::chance(1, 3)) simfs::cfg.mask = sim::pick(vector<unsigned>{1u << simfs::OP_OPENDIR, 1u << simfs::OP_MKDIR});
    simfs::cfg.err = sim::pick(errs);
    simfs::cfg.sticky = sim::chance(1, 2);
    simfs::cfg.partial = sim::chance(1, 2);
}
// counts what `f` does, then runs it again from the same files with one fault
struct Faulted { bool fired = false, threw = false; string msg; };
Faulted with_fault(bool saving, const std::function<void()> &dry, const std::function<void()> &f) {
    auto snap = snapshot();
    draw_fault(saving);
    simfs::Config want = simfs::cfg;
    bool quota = want.mask == 0;
    simfs::cfg.at = -1; simfs::cfg.quota = -1;
    simfs::arm(); dry(); simfs::disarm();
    long n = simfs::st.counted; long long bytes = simfs::st.written;
    restore(snap);
    Faulted r;
    if (quota ? bytes == 0 : n == 0) { f(); return r; }
    if (quota) want.quota = bytes <= 1 ? 0 : (long long)sim::choose((uint32_t)std::min<long long>(bytes, 1 << 30));
    else want.at = (long)sim::choose((uint32_t)n);
    simfs::cfg = want; simfs::arm();
    r.threw = throws(f, &r.msg);
    simfs::disarm(); simfs::cfg = simfs::Config();
    r.fired = simfs::st.fired;
    sim::count(r.fired ? (r.threw ? "probe.reported" : "probe.masked") : "probe.not_reached");
    sim::logf("fault %s -> %s", r.fired ? simfs::opname[simfs::st.fired_op] : "none", r.threw ? "error" : "success");
    return r;
}
}
SCENARIO(C16, save_fault, 3) {
    IO io = draw_io(false); g_silo = is(io.p, "conduit_silo");
    Node n; rand_for(io.p, n); string want = canon_for(io.p, n);
    if (sim::chance(1, 2)) { Node old; rand_for(io.p, old); do_save(io, old); }
    Faulted r = with_fault(true, [&] { do_save(io, n); }, [&] { do_save(io, n); });
    if (!r.fired && r.threw) sim::fail("spurious", "saving failed without a fault: %s", r.msg.c_str());
    IO io2 = io; io2.route = sim::pick(vector<int>{0, 1, 2, 3, 5, 6, 7});
    if (!r.threw) {
        Node m; string e;
        bool t = throws([&] { do_load(io2, m); }, &e);
        if (t) sim::fail((string("silent-save:") + io.p.name).c_str(), "%s save reported success although %s failed; loading: %s", io.p.name, simfs::opname[simfs::st.fired_op], e.c_str());
        string got = canon_for(io.p, m);
        if (got != want) sim::fail((string("silent-save:") + io.p.name).c_str(), "%s save reported success although %s failed; %s", io.p.name, simfs::opname[simfs::st.fired_op], gen::diff(want, got).c_str());
    }
    if (canon_for(io.p, n) != want) sim::fail("saved-node-changed", "a failing save changed the node");
    if (g_silo) return;
    // once the fault is gone the same save works
    Node m; string e;
    if (throws([&] { do_save(io, n); do_load(io2, m); }, &e)) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a failed save (%s) the same save or load fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    if (canon_for(io.p, m) != want) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a failed save the same save and load give: %s", gen::diff(want, canon_for(io.p, m)).c_str());
}
SCENARIO(C16, load_fault, 3) {
    IO io = draw_io(); g_silo = is(io.p, "conduit_silo");
    Node n; rand_for(io.p, n); string want = canon_for(io.p, n);
    { IO s = io; s.route = 1; do_save(s, n); }
    Node m; if (sim::chance(1, 3)) rand_for(io.p, m);
    Faulted r = with_fault(false, [&] { Node d; do_load(io, d); }, [&] { do_load(io, m); });
    if (!r.fired && r.threw) sim::fail("spurious", "loading failed without a fault: %s", r.msg.c_str());
    if (!r.threw && canon_for(io.p, m) != want) sim::fail((string("silent-load:") + io.p.name).c_str(), "%s load reported success although %s failed; %s", io.p.name, simfs::opname[simfs::st.fired_op], gen::diff(want, canon_for(io.p, m)).c_str());
    if (g_silo) return;
    Node k; string e;
    if (throws([&] { do_load(io, k); }, &e)) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a failed load (%s) the same load fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    if (canon_for(io.p, k) != want) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a failed load the same load gives: %s", gen::diff(want, canon_for(io.p, k)).c_str());
    do_load(io, m);
    if (canon_for(io.p, m) != want) sim::fail((string("no-recovery:") + io.p.name).c_str(), "loading into the node of the failed load gives: %s", gen::diff(want, canon_for(io.p, m)).c_str());
}
SCENARIO(C16, torn_file, 2) {
    IO io = draw_io(false);
    bool yaml = is(io.p, "yaml"); if (yaml) io.p = protos[0], io.path = path_for(io.p), io.opts.reset();
    Node n; rand_for(io.p, n);
    // a lone JSON scalar has no end marker
    if (is(io.p, "json") && n.number_of_children() == 0) { Node t(n); n.reset(); n["k"] = t; }
    string want = canon_for(io.p, n);
    do_save(io, n);
    auto files = simfs::list(".");
    string f = sim::pick(files);
    long long sz = simfs::size(f);
    if (sz <= 0) return;
    long long cut = sim::chance(1, 2) ? (long long)sim::choose((uint32_t)sz) : std::max(0ll, sz - 1 - (long long)sim::choose(16));
    simfs::truncate_file(f, cut);
    sim::count("fault.truncated_file"); sim::logf("FAULT %s cut from %lld to %lld", f.c_str(), sz, cut);
    Node m; string e;
    IO io2 = io; io2.route = sim::pick(vector<int>{0, 1, 2, 3, 5, 6, 7});
    bool t = throws([&] { do_load(io2, m); }, &e);
    sim::count(t ? "probe.reported" : "probe.masked");
    if (!t && canon_for(io.p, m) != want) sim::fail((string("torn:") + io.p.name).c_str(), "%s cut from %lld to %lld bytes loads as different data: %s", f.c_str(), sz, cut, gen::diff(want, canon_for(io.p, m)).c_str());
    if (is(io.p, "conduit_silo")) return;
    Node k; e.clear();
    if (throws([&] { do_save(io, n); do_load(io2, k); }, &e)) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after loading a torn file, saving and loading fails: %s", e.c_str());
    if (canon_for(io.p, k) != want) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after loading a torn file: %s", gen::diff(want, canon_for(io.p, k)).c_str());
}
// the saving process dies at any file operation (only what reached the files survives); no older file was there
SCENARIO(C16, killed_writer, 2) {
    IO io = draw_io(false);
    if (is(io.p, "yaml")) io.p = protos[0], io.path = path_for(io.p), io.opts.reset();
    if (io.route == 3) io.route = 1;   // opening a handle writes an empty file first, which is a state of its own
    Node n; rand_for(io.p, n);
    if (is(io.p, "json") && n.number_of_children() == 0) { Node t(n); n.reset(); n["k"] = t; }
    string want = canon_for(io.p, n);
    auto snap = snapshot();
    simfs::cfg = simfs::Config(); simfs::arm(); do_save(io, n); simfs::disarm();
    long ops = simfs::st.ops; if (ops == 0) return;
    restore(snap);
    long k = (long)sim::choose((uint32_t)ops); bool torn = sim::chance(1, 2); uint32_t keep = sim::choose(1000);
    pid_t pid = fork();
    if (pid == 0) {
        simfs::cfg = simfs::Config(); simfs::cfg.crash_at = k; simfs::cfg.crash_torn = torn ? (int)keep : -1; simfs::arm();
        try { do_save(io, n); } catch (...) { }
        ::syscall(SYS_exit_group, 0);
    }
    int stt = 0; waitpid(pid, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 77) sim::harness_error("writer did not die as planned: %x", stt);
    sim::count("fault.killed_writer"); sim::logf("writer killed at op %ld of %ld", k, ops);
    Node m; string e; IO io2 = io; io2.route = sim::pick(vector<int>{0, 1, 2, 3, 5, 6, 7});
    bool t = throws([&] { do_load(io2, m); }, &e);
    sim::count(t ? "probe.reported" : "probe.masked");
    if (!t && canon_for(io.p, m) != want) sim::fail((string("killed:") + io.p.name).c_str(), "the file of a writer killed at operation %ld of %ld loads as different data: %s", k, ops, gen::diff(want, canon_for(io.p, m)).c_str());
    if (is(io.p, "conduit_silo")) return;
    Node q; e.clear();
    if (throws([&] { do_save(io, n); do_load(io2, q); }, &e)) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a killed writer, saving and loading fails: %s", e.c_str());
    if (canon_for(io.p, q) != want) sim::fail((string("no-recovery:") + io.p.name).c_str(), "after a killed writer: %s", gen::diff(want, canon_for(io.p, q)).c_str());
}

// ------------------------------------------------------------------ C17: handle histories
namespace {
string rpath() {
    static const vector<string> names = {"a", "b", "c", "d0"};
    string s = sim::pick(names); int d = (int)sim::choose(3);
    for (int i = 0; i < d; i++) s += "/" + sim::pick(names);
    return s;
}
// true if writing src over dst only adds paths or replaces leaves by leaves of the same type and length
bool h5_compatible(const Node &dst, const Node &src) {
    if (dst.dtype().is_object() && src.dtype().is_object()) {
        for (index_t i = 0; i < src.number_of_children(); i++) {
            string nm = src.schema().child_name(i);
            if (dst.has_child(nm) && !h5_compatible(dst.child(nm), src.child(i))) return false;
        }
        return true;
    }
    if (dst.dtype().is_list() && src.dtype().is_list()) {
        for (index_t i = 0; i < src.number_of_children(); i++) if (i < dst.number_of_children() && !h5_compatible(dst.child(i), src.child(i))) return false;
        return true;
    }
    return dst.dtype().id() == src.dtype().id() && !dst.dtype().is_object() && !dst.dtype().is_list() && dst.dtype().number_of_elements() == src.dtype().number_of_elements();
}
bool h5_path_ok(const Node &root, const string &path, const Node &src) {
    Node w; w[path].set(src); return h5_compatible(root, w);
}
// HDF5 groups hold lists and objects alike: writing one kind over the other is not specified
bool kind_clash(const Node &dst, const Node &src) {
    bool dc = dst.dtype().is_object() || dst.dtype().is_list(), sc = src.dtype().is_object() || src.dtype().is_list();
    if (!dc || !sc) return false;
    if (dst.dtype().is_object() != src.dtype().is_object()) return true;
    for (index_t i = 0; i < src.number_of_children(); i++) {
        if (src.dtype().is_object()) { string nm = src.schema().child_name(i); if (dst.has_child(nm) && kind_clash(dst.child(nm), src.child(i))) return true; }
        else if (i < dst.number_of_children() && kind_clash(dst.child(i), src.child(i))) return true;
    }
    return false;
}
// the types numbers have after a round trip through JSON text (later writes merge into those)
void jsonify(Node &n) {
    if (n.number_of_children()) { for (index_t i = 0; i < n.number_of_children(); i++) jsonify(n.child(i)); return; }
    Node t;
    if (n.dtype().is_integer()) n.to_int64_array(t); else if (n.dtype().is_floating_point()) n.to_float64_array(t); else return;
    n.set(t);
}
struct Mode { const char *s; bool r, w, t; };
const vector<Mode> modes = {{"", true, true, false}, {"rw", true, true, false}, {"r", true, false, false}, {"w", false, true, false}, {"rwa", true, true, false}, {"rwt", true, true, true}, {"wa", false, true, false}, {"wt", false, true, true}};
gen::Opt handle_opts(const Proto &p) {
    gen::Opt o = opts_for(p);
    o.max_depth = 2; o.empties = false; o.zero_len = false; o.weird_names = false; o.swapped = false; o.empty_strings = false; o.big = sim::chance(1, 8);
    return o;
}
// something to write at a path (leaf or tree)
void payload(const Proto &p, Node &n, const Node *like) {
    gen::Opt o = handle_opts(p);
    if (like && sim::chance(1, 2)) { gen::like(*like, n, true); if (is(p, "json") || is(p, "yaml")) { } return; }
    o.root_leaf = true;
    if (sim::chance(1, 2)) gen::rand_leaf(n, o); else gen::rand_node(n, o);
}
}
SCENARIO(C17, history, 3) {
    Proto p = sim::pick(vector<Proto>{protos[0], protos[1], protos[2], protos[3], protos[5], protos[5], protos[5]}); prep(p);
    bool h5 = is(p, "hdf5");
    string path = string("h.") + p.ext;
    gen::loose_empty = true; gen::moderate = !p.exact;
    State st0 = state();
    Node model, file; bool exists = false;           // model: what an open handle shows; file: what is persisted
    std::unique_ptr<rio::IOHandle> h(new rio::IOHandle); bool open = false; Mode mode = modes[0];
    sim::sample("%s handle history ", p.name);
    int nops = 2 + (int)sim::choose(14);
    benign(); simfs::arm();
    auto C = [&](const Node &n) { return canon_for(p, n); };
    auto persist = [&](const char *how) {
        // what a fresh reader sees
        Node m; rio::load(path, p.name, m);
        if (C(m) != C(file)) sim::fail((string("not-persisted:") + p.name).c_str(), "after %s, %s holds: %s", how, path.c_str(), gen::diff(C(file), C(m)).c_str());
    };
    long long wr0 = 0;
    auto closed = [&](const char *how) { if (open && !mode.w && simfs::st.written != wr0) sim::fail("mode", "%lld bytes were written through a read-only handle by %s", simfs::st.written - wr0, how); if (open) { if (mode.w) { file.reset(); file.set(model); exists = true; } open = false; } if (exists) persist(how); };
    for (int op = 0; op < nops; op++) {
        int k = (int)sim::choose(9); string e;
        if (!open && sim::chance(2, 3)) k = 0;
        if (k == 0) { // open
            Mode m = sim::pick(modes); Node o; if (m.s[0]) o["mode"] = m.s;
            bool pexp = sim::chance(1, 2);
            sim::logf("open %s", m.s);
            bool mustfail = !m.w && !exists;
            if (open && mode.w) { file.reset(); file.set(model); exists = true; mustfail = false; }
            open = false;
            bool t = throws([&] { if (pexp) h->open(path, p.name, o); else h->open(path, o); }, &e);
            if (t != mustfail) sim::fail("open", "opening %s with mode '%s' %s: %s", path.c_str(), m.s, t ? "failed" : "did not fail", e.c_str());
            if (t) { if (h->is_open()) sim::fail("open", "a handle that failed to open says it is open"); continue; }
            if (!h->is_open()) sim::fail("open", "an opened handle says it is not open");
            open = true; mode = m; exists = true; wr0 = simfs::st.written;
            model.reset();
            if (!m.t) model.set(file); else file.reset();
            if (is(p, "json")) jsonify(model);
        } else if (k == 1) { // close
            sim::logf("close");
            h->close();
            if (h->is_open()) sim::fail("close", "a closed handle says it is open");
            closed("close");
        } else if (k == 2 && sim::chance(1, 3)) { // destroy
            sim::logf("destroy");
            h.reset(new rio::IOHandle);
            closed("destroying the handle");
        } else if (k == 2 || k == 3) { // write tree or path
            Node n; bool sub = sim::chance(2, 3); string q = rpath();
            const Node *like = nullptr; if (open && sub && model.has_path(q)) like = &model.fetch_existing(q); else if (open && !sub && model.number_of_children()) like = &model;
            payload(p, n, like);
            if (!sub && (n.number_of_children() == 0 || n.dtype().is_list())) { Node t(n); n.reset(); n["b"] = t; }
            if (h5 && open) { Node w; if (sub) w[q].set(n); else w.set(n); if (kind_clash(model, w)) continue; }
            sim::logf("write %s", sub ? q.c_str() : "(root)");
            string before = C(n);
            bool t = throws([&] { if (sub) h->write(n, q); else h->write(n); }, &e);
            if (C(n) != before) sim::fail("write", "writing changed the written node");
            bool allowed = open && mode.w;
            if (!allowed) { if (!t) sim::fail("mode", "writing to a %s handle did not fail", open ? "read-only" : "closed"); continue; }
            bool compat = !h5 || (sub ? h5_path_ok(model, q, n) : h5_compatible(model, n));
            if (t && compat) sim::fail((string("write:") + p.name).c_str(), "writing %s failed: %s", q.c_str(), e.c_str());
            if (!t) { sim::count("probe.written"); if (sub) model[q].update(n); else model.update(n); }
        } else if (k == 4 || k == 5) { // read
            Node n; bool sub = sim::chance(2, 3); string q = rpath(); if (!is(p, "json") && sim::chance(1, 3)) payload(p, n, nullptr);
            if (!is(p, "json") && open && sub && model.has_path(q) && sim::chance(1, 3)) { n.reset(); gen::like(model.fetch_existing(q), n, true); }    // read in place
            Node want; n.compact_to(want); bool have = open && model.has_path(q);
            sim::logf("read %s", sub ? q.c_str() : "(root)");
            bool t = throws([&] { if (sub) h->read(q, n); else h->read(n); }, &e);
            bool allowed = open && mode.r;
            if (!allowed) { if (!t) sim::fail("mode", "reading from a %s handle did not fail", open ? "write-only" : "closed"); continue; }
            if (t) { if (!sub || have) sim::fail((string("read:") + p.name).c_str(), "reading %s failed: %s", q.c_str(), e.c_str()); continue; }
            if (h5 && !want.dtype().is_object() && (!sub || have) && (sub ? model[q] : model).number_of_children() == 0) continue;   // an HDF5 file always has a root group
            if (!sub) want.update(model); else if (have) want.update(model[q]);
            if (C(n) != C(want)) sim::fail((string("read:") + p.name).c_str(), "reading %s gives: %s", sub ? q.c_str() : "the root", gen::diff(C(want), C(n)).c_str());
            sim::count("probe.read");
        } else if (k == 6) { // remove
            string q = rpath();
            if (open && model.number_of_children() && sim::chance(1, 2)) q = model.child_names()[sim::choose((uint32_t)model.number_of_children())];
            sim::logf("remove %s", q.c_str());
            bool have = open && model.has_path(q);
            bool t = throws([&] { h->remove(q); }, &e);
            bool allowed = open && mode.w;
            if (!allowed) { if (!t) sim::fail("mode", "removing through a %s handle did not fail", open ? "read-only" : "closed"); continue; }
            if (t && have) sim::fail((string("remove:") + p.name).c_str(), "removing %s failed: %s", q.c_str(), e.c_str());
            if (have) { model.remove(q); sim::count("probe.removed"); }
        } else if (k == 7) { // has_path
            string q = rpath(); bool have = open && model.has_path(q), got = false;
            bool t = throws([&] { got = h->has_path(q); }, &e);
            bool allowed = open && mode.r;
            if (!allowed) { if (!t) sim::fail("mode", "has_path on a %s handle did not fail", open ? "write-only" : "closed"); continue; }
            if (t || got != have) sim::fail((string("has_path:") + p.name).c_str(), "has_path(%s) is %s%s", q.c_str(), got ? "true" : "false", e.c_str());
        } else { // list
            string q = rpath(); bool sub = sim::chance(1, 2); vector<string> got, want; if (sim::chance(1, 2)) got.push_back("old");
            bool t = throws([&] { if (sub) h->list_child_names(q, got); else h->list_child_names(got); }, &e);
            bool allowed = open && mode.r;
            if (!allowed) { if (!t) sim::fail("mode", "listing a %s handle did not fail", open ? "write-only" : "closed"); continue; }
            const Node *at = sub ? (model.has_path(q) ? &model[q] : nullptr) : &model;
            if (at && at->dtype().is_list()) continue;      // names of list elements are not specified
            if (at) want = at->child_names();
            if (t) sim::fail((string("list:") + p.name).c_str(), "listing %s failed: %s", sub ? q.c_str() : "the root", e.c_str());
            if (got != want) sim::fail((string("list:") + p.name).c_str(), "listing %s gives %zu names instead of %zu", sub ? q.c_str() : "the root", got.size(), want.size());
        }
    }
    h->close(); closed("the last close");
    simfs::disarm();
    check_state(st0, "after a handle history"); check_leaks("after a handle history");
}

// one fault somewhere in a handle's life: what was closed without an error is in the file
SCENARIO(C17, faulty_history, 1) {
    Proto p = sim::pick(vector<Proto>{protos[0], protos[1], protos[2], protos[3], protos[5], protos[5]}); prep(p);
    bool h5 = is(p, "hdf5");
    string path = string("h.") + p.ext; g_silo = false;
    gen::loose_empty = true; gen::moderate = !p.exact;
    struct Step { int k; string q; Node n; };
    vector<Step> steps; int ns = 2 + (int)sim::choose(6);
    Node plan;
    for (int i = 0; i < ns; i++) {
        Step s; s.k = (int)sim::choose(4); s.q = rpath();
        if (s.k >= 1) { payload(p, s.n, nullptr); Node w; w[s.q].set(s.n); if (h5 && !h5_compatible(plan, w)) continue; if (!h5 && kind_clash(plan, w)) continue; plan.update(w); gen::log(s.n); }
        steps.push_back(s);
    }
    bool pre = sim::chance(1, 2);
    sim::sample("%s faulty handle history ", p.name);
    string where;
    Node model, closed;
    auto go = [&] {
        model.reset(); closed.reset();
        rio::IOHandle h; Node o; o["mode"] = pre ? "rw" : "rwt";
        where = "open"; h.open(path, p.name, o);
        for (auto &s : steps) {
            if (s.k == 0) { where = "close"; h.close(); closed.reset(); closed.set(model); where = "open"; Node o2; o2["mode"] = "rw"; h.open(path, p.name, o2); if (is(p, "json")) jsonify(model); }
            else { where = "write"; h.write(s.n, s.q); model[s.q].update(s.n); }
        }
        where = "close"; h.close(); closed.reset(); closed.set(model); where = "end";
    };
    Faulted r = with_fault(true, go, go);
    if (!r.fired && r.threw) sim::fail("spurious", "%s failed without a fault: %s", where.c_str(), r.msg.c_str());
    if (!r.threw) {
        Node m; string e;
        if (throws([&] { rio::load(path, p.name, m); }, &e)) sim::fail((string("silent:") + p.name).c_str(), "all handle calls succeeded although %s failed, but loading says: %s", simfs::opname[simfs::st.fired_op], e.c_str());
        if (canon_for(p, m) != canon_for(p, closed)) sim::fail((string("silent:") + p.name).c_str(), "all handle calls succeeded although %s failed, but %s", simfs::opname[simfs::st.fired_op], gen::diff(canon_for(p, closed), canon_for(p, m)).c_str());
    }
    Node m; string e; pre = false;
    if (throws([&] { go(); rio::load(path, p.name, m); }, &e)) sim::fail((string("no-recovery:") + p.name).c_str(), "after a failed handle history (%s) the same history fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    if (canon_for(p, m) != canon_for(p, closed)) sim::fail((string("no-recovery:") + p.name).c_str(), "after a failed handle history: %s", gen::diff(canon_for(p, closed), canon_for(p, m)).c_str());
}

// ------------------------------------------------------------------ C18: merging and partial writes
namespace {
typedef std::map<string, bool> Ext;      // HDF5 leaves that can grow
bool container(const Node &n) { return n.dtype().is_object() || n.dtype().is_list(); }
string child_path(const string &base, const Node &parent, index_t i) {
    string nm = parent.dtype().is_object() ? parent.schema().child_name(i) : std::to_string(i);
    return base.empty() ? nm : base + "/" + nm;
}
// would HDF5 accept src over dst (same kinds, types; lengths equal unless the leaf can grow)
bool mergeable(const Node &dst, const Node &src, const string &at, const Ext &ext) {
    if (at.empty() && dst.dtype().is_empty()) return true;
    if (container(dst) != container(src)) return false;
    if (container(dst)) {
        for (index_t i = 0; i < src.number_of_children(); i++) {
            const Node *d = nullptr;
            if (src.dtype().is_object()) { string nm = src.schema().child_name(i); if (dst.has_child(nm)) d = &dst.child(nm); }
            else if (i < dst.number_of_children()) d = &dst.child(i);
            if (d && !mergeable(*d, src.child(i), child_path(at, src, i), ext)) return false;
        }
        return true;
    }
    if (dst.dtype().id() != src.dtype().id()) return false;
    return dst.dtype().number_of_elements() == src.dtype().number_of_elements() || ext.count(at);
}
// new leaves of src become growable when chunked
void note_ext(const Node &before, const Node &src, const string &at, const string &rel, bool chunk, long thr, bool compact, long cthr, Ext &ext) {
    if (container(src)) { for (index_t i = 0; i < src.number_of_children(); i++) note_ext(before, src.child(i), child_path(at, src, i), child_path(rel, src, i), chunk, thr, compact, cthr, ext); return; }
    if (src.dtype().is_empty() || ext.count(at)) return;
    string q = at; const Node *b = &before; bool have = true;
    size_t p = 0;
    while (p < q.size() && have) { size_t e = q.find('/', p); string c = q.substr(p, e == string::npos ? e : e - p); p = e == string::npos ? q.size() : e + 1;
        if (b->dtype().is_object() && b->has_child(c)) b = &b->child(c);
        else if (b->dtype().is_list() && atol(c.c_str()) < b->number_of_children()) b = &b->child(atol(c.c_str()));
        else have = false; }
    if (have) return;
    long by = src.dtype().bytes_compact();
    if (compact && by <= cthr) return;
    if (chunk && by > thr) ext[at] = true;
}
void leaf_paths(const Node &n, const string &at, vector<string> &r) {
    if (n.dtype().is_object()) for (index_t i = 0; i < n.number_of_children(); i++) leaf_paths(n.child(i), child_path(at, n, i), r);
    else if (n.dtype().is_number() && n.dtype().number_of_elements() > 0 && !at.empty()) r.push_back(at);
}
void h5o_values(const Node &o, bool &chunk, long &thr, bool &compact, long &cthr) {
    Node d; rio::hdf5_options(d);
    const Node *h = o.has_child("hdf5") ? &o["hdf5"] : nullptr;
    auto get = [&](const char *k) -> const Node & { return h && h->has_path(k) ? h->fetch_existing(k) : d.fetch_existing(k); };
    chunk = get("chunking/enabled").as_string() == "true"; thr = get("chunking/threshold").to_long();
    compact = get("compact_storage/enabled").as_string() == "true"; cthr = get("compact_storage/threshold").to_long();
}
void drop_ext(Ext &e, const string &q) { for (auto it = e.begin(); it != e.end();) if (it->first == q || it->first.compare(0, q.size() + 1, q + "/") == 0) it = e.erase(it); else ++it; }
// the array a partial write leaves behind
void partial(const Node *old, const Node &src, long off, long str, Node &res) {
    long es = src.dtype().element_bytes(), n = src.dtype().number_of_elements();
    long on = old ? old->dtype().number_of_elements() : 0, len = std::max(on, off + (n - 1) * str + 1);
    Node s, o; src.compact_to(s); if (old) old->compact_to(o);
    res.set(DataType(src.dtype().id(), len)); char *d = (char *)res.data_ptr(); memset(d, 0, len * es);
    if (old) memcpy(d, o.data_ptr(), on * es);
    for (long i = 0; i < n; i++) memcpy(d + (off + i * str) * es, (const char *)s.data_ptr() + i * es, es);
}
}
SCENARIO(C18, merge_history, 4) {
    Proto p = sim::pick(vector<Proto>{protos[0], protos[1], protos[2], protos[3], protos[6], protos[5], protos[5], protos[5], protos[5]}); prep(p);
    bool h5 = is(p, "hdf5"), silo = is(p, "conduit_silo");
    string path = path_for(p), file = string("f.") + p.ext;
    gen::loose_empty = true; gen::moderate = !p.exact;
    State st0 = state();
    Node model; Ext ext; bool exists = false;
    sim::sample("%s merge history ", p.name);
    benign(); simfs::arm();
    auto C = [&](const Node &n) { return canon_for(p, n); };
    auto check = [&](const char *how) {
        Node m; string e;
        if (throws([&] { rio::load(path, p.name, m); }, &e)) sim::fail((string("unreadable:") + p.name).c_str(), "after %s the file cannot be read: %s", how, e.c_str());
        if (C(m) != C(model)) sim::fail((string("content:") + p.name).c_str(), "after %s the file holds: %s", how, gen::diff(C(model), C(m)).c_str());
    };
    int nops = 2 + (int)sim::choose(10);
    for (int op = 0; op < nops; op++) {
        int k = (int)sim::choose(10); string e, how;
        Node o; if (h5) { o = h5opts(); if (o.has_path("hdf5/libver")) o["hdf5"].remove("libver"); }
        bool chunk, compact; long thr, cthr; h5o_values(o, chunk, thr, compact, cthr);
        string q = rpath();
        if (is(p, "json")) jsonify(model);
        if (h5 && k >= 6 && sim::chance(3, 4)) { vector<string> l; leaf_paths(model, "", l); if (!l.empty()) q = sim::pick(l); }
        if (k == 0) { // replace the whole file
            Node n; gen::Opt go = handle_opts(p); go.root_leaf = false; gen::rand_node(n, go); if (n.number_of_children() == 0 || n.dtype().is_list() || n.total_bytes_compact() == 0) { n.reset(); n["b"] = 3; }
            sim::logf("save"); gen::log(n);
            rio::save(n, path, p.name, o); model.reset(); model.set(n); ext.clear(); exists = true;
            if (h5) { Node none; note_ext(none, n, "", "", chunk, thr, compact, cthr, ext); }
            check("save");
        } else if (k == 1 && !h5 && !silo && exists) { // replace a sub-path of a basic file
            Node n; payload(p, n, nullptr); gen::log(n);
            sim::logf("save :%s", q.c_str());
            rio::save(n, file + ":" + q, p.name); model[q] = n; check("saving a sub-path");
        } else if (k <= 5) { // merge
            bool sub = !silo && sim::chance(2, 3); Node n; const Node *like = nullptr;
            if (sub && model.has_path(q)) like = &model.fetch_existing(q); else if (!sub && model.number_of_children()) like = &model;
            payload(p, n, like);
            if (!sub && (n.number_of_children() == 0 || n.dtype().is_list())) { Node t(n); n.reset(); n["b"] = t; }
            if (!sub && silo && n.total_bytes_compact() == 0) continue;
            Node w; if (sub) w[q].set(n); else w.set(n);
            if (h5 && kind_clash(model, w)) continue;
            gen::log(n);
            bool ok = !h5 || mergeable(model, w, "", ext);
            int route = (int)sim::choose(h5 ? 5 : 3); if (!h5 && route == 2) { if (sub || !exists) continue; route = 4; }
            string full = sub ? file + ":" + q : path;
            how = "merging " + (sub ? q : string("the root")); sim::logf("%s route %d", how.c_str(), route);
            bool t = throws([&] {
                switch (route) {
                case 0: rio::save_merged(n, full, p.name, o); break;
                case 1: rio::save_merged(n, full, o); break;
                case 2: rio::hdf5_append(n, full); break;
                case 3: rio::hdf5_write(n, file, sub ? q : string("/"), true); break;
                default: conduit::relay::mpi::io::save_merged(n, full, p.name, MPI_COMM_SELF);
                } }, &e);
            if (route >= 2) { Node none; h5o_values(none, chunk, thr, compact, cthr); }
            if (t && ok) sim::fail((string("refused:") + p.name).c_str(), "%s failed: %s", how.c_str(), e.c_str());
            if (!t && !ok) sim::fail((string("accepted:") + p.name).c_str(), "%s with incompatible content was not refused", how.c_str());
            if (!t) { if (h5) note_ext(model, w, "", "", chunk, thr, compact, cthr, ext); if (sub) model[q].update(n); else model.update(n); exists = true; sim::count("probe.merged"); }
            else { sim::count("probe.refused"); if (!exists) { model.reset(); exists = true; } }
            check(t ? ("refusing: " + how).c_str() : how.c_str());
        } else if (k <= 7 && h5) { // partial write
            Node n; gen::Opt go = handle_opts(p); const Node *old = model.has_path(q) ? &model.fetch_existing(q) : nullptr;
            if (old && !sim::chance(1, 8) && !old->dtype().is_number()) continue;
            do { n.reset(); gen::rand_leaf(n, go); } while (!n.dtype().is_number() && sim::chance(7, 8));
            if (!n.dtype().is_number() || n.dtype().number_of_elements() == 0) continue;
            if (old && old->dtype().is_number() && sim::chance(7, 8)) { Node t; n.to_data_type(old->dtype().id(), t); n.set(t); }
            long off = (long)sim::choose(12), str = 1 + (long)sim::choose(4);
            Node po(o); if (off || sim::chance(1, 2)) po["offset"] = (int)off; if (str > 1 || sim::chance(1, 2)) po["stride"] = (int)str;
            bool has_off = po.has_child("offset"), has_str = po.has_child("stride");
            // parents on the way must be objects
            Node w; w[q].set(n); bool parents = true;
            { Node w2; w2[q].reset(); const Node *b = &model, *s = &w2; while (s->number_of_children()) { if (b->dtype().is_list() || (!b->dtype().is_object() && !(b == &model && b->dtype().is_empty()))) { parents = false; break; } string nm = s->schema().child_name(0); if (!b->has_child(nm)) break; b = &b->child(nm); s = &s->child(0); } }
            if (!parents && !old) continue;
            gen::log(n);
            bool opt = has_off || has_str, grow = old && ext.count(q);
            bool ok = true, convert = false;
            if (old) {
                if (container(*old) || old->dtype().id() != n.dtype().id()) ok = false;
                else if (!opt && !grow && old->dtype().number_of_elements() != n.dtype().number_of_elements()) ok = false;
                else if (!grow && (off || str > 1 || (opt && old->dtype().number_of_elements() != n.dtype().number_of_elements()))) { convert = true; if (!chunk) ok = false; }
            } else { if (has_off && !chunk) ok = false; if (!has_off && str > 1) { long by = n.dtype().bytes_compact(); bool g = !(compact && by <= cthr) && chunk && by > thr; if (!g) { convert = true; if (!chunk) ok = false; } } }
            if (!old && !ok) continue;      // a new growable leaf without chunking: what is left behind is not specified
            how = "partial write of " + q; sim::logf("%s off %ld stride %ld %s", how.c_str(), off, str, ok ? "" : "(must fail)");
            int route = (int)sim::choose(3);
            bool t = throws([&] { if (route == 2) { rio::IOHandle hd; hd.open(file, p.name, po); hd.write(n, q, po); hd.close(); } else if (route) rio::save_merged(n, file + ":" + q, p.name, po); else rio::save_merged(n, file + ":" + q, po); }, &e);
            if (t && ok) sim::fail("partial-refused", "%s failed: %s", how.c_str(), e.c_str());
            if (!t && !ok) sim::fail("partial-accepted", "%s with incompatible content was not refused", how.c_str());
            if (!t) {
                Node r; partial(old, n, off, str, r);
                bool g = grow || convert || has_off || (!old && !(compact && n.dtype().bytes_compact() <= cthr) && chunk && n.dtype().bytes_compact() > thr);
                if (old && convert) { Node root(model); root.remove(q); string parent = q.find('/') == string::npos ? "" : q.substr(0, q.rfind('/')); model.reset(); model.set(root); if (!parent.empty() && !model.has_path(parent)) model[parent].set(DataType::object()); }
                model[q].set(r); if (g && !(old && !convert && !grow)) ext[q] = true; exists = true; sim::count("probe.partial");
            } else sim::count("probe.refused");
            check(how.c_str());
        } else if (k == 8 && exists) { // read a sub-path, or part of a leaf
            if (silo || !model.has_path(q)) continue;
            const Node &at = model.fetch_existing(q); Node m;
            if (h5 && at.dtype().is_number() && at.dtype().number_of_elements() > 0 && sim::chance(2, 3)) {
                long len = at.dtype().number_of_elements(), off = (long)sim::choose((uint32_t)len), str = 1 + (long)sim::choose(3);
                long maxn = (len - off + str - 1) / str, cnt = sim::chance(1, 2) ? maxn : 1 + (long)sim::choose((uint32_t)maxn);
                Node ro; ro["offset"] = (int)off; ro["stride"] = (int)str; if (cnt != maxn || sim::chance(1, 2)) ro["size"] = (int)cnt;
                sim::logf("read %s off %ld stride %ld size %ld", q.c_str(), off, str, cnt);
                if (sim::chance(1, 3)) gen::typed_leaf(m, at.dtype().id(), (int)cnt, true);
                switch (sim::choose(3)) {
                case 0: rio::load(file + ":" + q, p.name, ro, m); break;
                case 1: rio::hdf5_read(file + ":" + q, ro, m); break;
                default: { rio::IOHandle hd; Node mo; mo["mode"] = "r"; hd.open(file, p.name, mo); hd.read(q, m, ro); hd.close(); }
                }
                Node c, want; at.compact_to(c); want.set(DataType(at.dtype().id(), cnt)); long es = c.dtype().element_bytes();
                for (long i = 0; i < cnt; i++) memcpy((char *)want.data_ptr() + i * es, (char *)c.data_ptr() + (off + i * str) * es, es);
                if (gen::canon(m) != gen::canon(want)) sim::fail("partial-read", "reading %ld of %s from %ld by %ld: %s", cnt, q.c_str(), off, str, gen::diff(gen::canon(want), gen::canon(m)).c_str());
                sim::count("probe.partial_read");
            } else {
                sim::logf("read %s", q.c_str());
                rio::load(file + ":" + q, p.name, m);
                if (C(m) != C(at)) sim::fail((string("sub-read:") + p.name).c_str(), "reading %s gives: %s", q.c_str(), gen::diff(C(at), C(m)).c_str());
            }
        } else if (exists && !is(p, "json")) { // load_merged
            Node m; payload(p, m, nullptr); if (h5 && !container(m)) { Node t(m); m.reset(); m["z"] = t; }
            if (m.dtype().is_list() || kind_clash(m, model)) continue;
            Node want(m); want.update(model);
            sim::logf("load_merged");
            rio::load_merged(path, p.name, m);
            if (C(m) != C(want)) sim::fail((string("load_merged:") + p.name).c_str(), "load_merged gives: %s", gen::diff(C(want), C(m)).c_str());
        }
    }
    simfs::disarm();
    check_state(st0, "after a merge history"); check_leaks("after a merge history");
}

// one fault in a merge: success means old and new content are both there, a merge that could not read the old file keeps it
SCENARIO(C18, merge_fault, 2) {
    Proto p = sim::pick(vector<Proto>{protos[0], protos[1], protos[2], protos[3], protos[5], protos[5], protos[5], protos[6]}); prep(p);
    bool h5 = is(p, "hdf5"); g_silo = is(p, "conduit_silo");
    string path = path_for(p), file = string("f.") + p.ext;
    gen::loose_empty = true; gen::moderate = !p.exact;
    Node o; if (h5) { o = h5opts(); if (o.has_path("hdf5/libver")) o["hdf5"].remove("libver"); }
    Node model; gen::Opt go = handle_opts(p); go.root_leaf = false; gen::rand_node(model, go);
    if (model.number_of_children() == 0 || model.dtype().is_list() || model.total_bytes_compact() == 0) { model.reset(); model["b"] = 3; }
    if (is(p, "json")) jsonify(model);
    gen::log(model);
    State st0 = state();
    rio::save(model, path, p.name, o);
    bool sub = !g_silo && sim::chance(2, 3); string q = rpath(); Node n; const Node *like = nullptr;
    if (sub && model.has_path(q)) like = &model.fetch_existing(q); else if (!sub) like = &model;
    payload(p, n, like);
    if (!sub && (n.number_of_children() == 0 || n.dtype().is_list())) { Node t(n); n.reset(); n["b"] = t; }
    Node w; if (sub) w[q].set(n); else w.set(n);
    if (kind_clash(model, w) || (h5 && !h5_compatible(model, w))) return;
    gen::log(n);
    Node want(model); want.update(w);
    int route = (int)sim::choose(h5 ? 3 : 2); string full = sub ? file + ":" + q : path;
    sim::sample("%s faulty merge ", p.name);
    auto go2 = [&] { switch (route) { case 0: rio::save_merged(n, full, p.name, o); break; case 1: rio::save_merged(n, full, o); break; default: rio::hdf5_append(n, full); } };
    auto C = [&](const Node &x) { return canon_for(p, x); };
    Faulted r = with_fault(true, go2, go2);
    if (!r.fired && r.threw) sim::fail("spurious", "merging failed without a fault: %s", r.msg.c_str());
    Node m; string e;
    if (!r.threw) {
        if (throws([&] { rio::load(path, p.name, m); }, &e)) sim::fail((string("silent-merge:") + p.name).c_str(), "%s merge reported success although %s failed; loading: %s", p.name, simfs::opname[simfs::st.fired_op], e.c_str());
        if (C(m) != C(want)) sim::fail((string("silent-merge:") + p.name).c_str(), "%s merge reported success although %s failed; %s", p.name, simfs::opname[simfs::st.fired_op], gen::diff(C(want), C(m)).c_str());
        return;
    }
    if (!h5 && !g_silo && r.fired && simfs::st.fired_op == simfs::OP_READ) {
        if (throws([&] { rio::load(path, p.name, m); }, &e)) sim::fail((string("destroyed:") + p.name).c_str(), "a merge that failed while reading the old file destroyed it: %s", e.c_str());
        if (C(m) != C(model)) sim::fail((string("destroyed:") + p.name).c_str(), "a merge that failed while reading the old file changed it: %s", gen::diff(C(model), C(m)).c_str());
        sim::count("probe.kept");
    }
    if (g_silo) return;
    check_state(st0, "after a failed merge");
    // once the fault is gone the same merge works on the old file
    Node k;
    if (throws([&] { rio::save(model, path, p.name, o); go2(); rio::load(path, p.name, k); }, &e)) sim::fail((string("no-recovery:") + p.name).c_str(), "after a failed merge (%s) the same merge fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    if (C(k) != C(want)) sim::fail((string("no-recovery:") + p.name).c_str(), "after a failed merge the same merge gives: %s", gen::diff(C(want), C(k)).c_str());
}
SCENARIO(C18, partial_fault, 1) {
    Proto p = protos[5]; gen::loose_empty = true; gen::moderate = false; g_silo = false;
    Node o; o["hdf5/chunking/enabled"] = "true"; o["hdf5/chunking/threshold"] = 1 + (int)sim::choose(60); o["hdf5/chunking/chunk_size"] = 8 + (int)sim::choose(100); o["hdf5/chunking/compression/method"] = sim::chance(1, 2) ? "gzip" : "none"; o["hdf5/compact_storage/enabled"] = sim::chance(1, 2) ? "true" : "false"; o["hdf5/compact_storage/threshold"] = 1 + (int)sim::choose(60);
    bool chunk, compact; long thr, cthr; h5o_values(o, chunk, thr, compact, cthr);
    Node model; gen::Opt go = handle_opts(p); go.root_leaf = false; gen::rand_node(model, go);
    if (!model.dtype().is_object() || sim::chance(1, 2)) { model.reset(); for (int i = 0; i < 3; i++) { Node t; go.root_leaf = true; gen::rand_leaf(t, go); model[string(1, (char)('a' + i))].set(t); } }
    vector<string> l; leaf_paths(model, "", l); if (l.empty()) return;
    gen::log(model);
    State st0 = state();
    rio::save(model, "f.hdf5", "hdf5", o);
    Ext ext; Node none; note_ext(none, model, "", "", chunk, thr, compact, cthr, ext);
    string q = sim::pick(l); Node n; gen::like(model[q], n, true);
    long off = (long)sim::choose(20), str = 1 + (long)sim::choose(3), len = model[q].dtype().number_of_elements();
    if (off == 0 && str == 1 && n.dtype().number_of_elements() != len) return;
    Node po(o); po["offset"] = (int)off; po["stride"] = (int)str; gen::log(n);
    Node r0; { Node old(model[q]); partial(&old, n, off, str, r0); }
    Node want(model);
    if (!ext.count(q) && (off || str > 1)) { size_t s = q.rfind('/'); Node &par = s == string::npos ? want : want[q.substr(0, s)]; par.remove(s == string::npos ? q : q.substr(s + 1)); par[s == string::npos ? q : q.substr(s + 1)].set(r0); }
    else want[q].set(r0);
    sim::sample("hdf5 faulty partial write ");
    auto go2 = [&] { rio::save_merged(n, "f.hdf5:" + q, "hdf5", po); };
    Faulted r = with_fault(true, go2, go2);
    if (!r.fired && r.threw) sim::fail("spurious", "a partial write failed without a fault: %s", r.msg.c_str());
    Node m; string e;
    if (!r.threw) {
        if (throws([&] { rio::load("f.hdf5", m); }, &e)) sim::fail("silent-partial", "a partial write reported success although %s failed; loading: %s", simfs::opname[simfs::st.fired_op], e.c_str());
        if (gen::canon(m) != gen::canon(want)) sim::fail("silent-partial", "a partial write reported success although %s failed; %s", simfs::opname[simfs::st.fired_op], gen::diff(gen::canon(want), gen::canon(m)).c_str());
        check_leaks("after a partial write");
        return;
    }
    check_state(st0, "after a failed partial write");
    Node k;
    if (throws([&] { rio::save(model, "f.hdf5", "hdf5", o); go2(); rio::load("f.hdf5", k); }, &e)) sim::fail("no-recovery:partial", "after a failed partial write (%s) the same write fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    if (gen::canon(k) != gen::canon(want)) sim::fail("no-recovery:partial", "after a failed partial write the same write gives: %s", gen::diff(gen::canon(want), gen::canon(k)).c_str());
}

// ------------------------------------------------------------------ C19: nothing stays open, nothing stays changed
namespace {
herr_t my_h5_error(hid_t, void *) { return 0; }
void my_info(const string &, const string &, int) {}
void my_warning(const string &, const string &, int) {}
// what conduit itself holds must be given back; what a library keeps after its own close failed is its matter
void check_given_back(const char *when, int ids = 0, bool silo_fault = false) {
    if (h5track::open_ids() > ids) sim::fail("leak-hdf5", "%s: %d HDF5 identifiers are still held (from %s)", when, h5track::open_ids() - ids, h5track::example());
    if (h5track::open_silo() > 0) sim::fail("leak-silo", "%s: %d Silo files are still held", when, h5track::open_silo());
    if (ids || silo_fault || h5track::close_failed()) return;
    auto f = simfs::open_files();
    if (!f.empty()) sim::fail("leak-fd", "%s: file %s is still open (%zu descriptors)", when, f.begin()->second.path.c_str(), f.size());
    int k = h5_open();
    if (k > 0) { Node r; rio::hdf5_identifier_report(r); sim::fail("leak-hdf5", "%s: %d HDF5 identifiers are still open: %s", when, k, r.to_json().c_str()); }
}
}
SCENARIO(C19, calls, 4) {
    // what the application had set up
    int err_cookie = 0;
    if (sim::chance(1, 2)) H5Eset_auto2(H5E_DEFAULT, my_h5_error, &err_cookie); 
    if (sim::chance(1, 2)) { conduit::utils::set_info_handler(my_info); conduit::utils::set_warning_handler(my_warning); }
    if (sim::chance(1, 2)) { Node o; o["chunking/threshold"] = 40; o["compact_storage/threshold"] = 8; rio::hdf5_set_options(o); }
    State st0 = state(); h5track::reset();
    gen::loose_empty = true; gen::moderate = true;
    struct Handle { std::unique_ptr<rio::IOHandle> h; bool h5 = false; int base = 0; };
    vector<string> files; for (auto &p : protos) files.push_back(string("f.") + p.ext);
    int ncalls = 2 + (int)sim::choose(8);
    bool silo_bad = false, leaves_open = false;
    for (int c = 0; c < ncalls; c++) {
        Proto p = sim::chance(1, 2) ? protos[5] : sim::pick(protos); if (is(p, "conduit_silo")) { if (silo_bad) continue; prep(p); }
        bool h5 = is(p, "hdf5"), silo = is(p, "conduit_silo");
        string file = string("f.") + p.ext, path = path_for(p);
        Node n; gen::Opt o = opts_for(p); o.max_depth = 2; o.big = sim::chance(1, 8); if (sim::chance(1, 4)) gen::rand_leaf(n, o); else gen::rand_node(n, o);
        Node m; if (sim::chance(1, 3)) gen::rand_node(m, o);
        string q = rpath(); Node op = h5 ? h5opts() : Node();
        if (sim::chance(1, 6)) file = "missing." + string(p.ext), path = file;
        if (h5 && sim::chance(1, 8)) { file = sim::pick(files); path = file; }     // a file of some other protocol
        if (h5 && sim::chance(1, 8)) op["hdf5/chunking/chunk_size"] = (int)sim::choose(4);
        // kinds of calls
        int k = (int)sim::choose(h5 ? 16 : 7);
        string what; 
        bool fault = sim::chance(2, 3) && !(silo && k != 1 && k != 3);
        simfs::cfg = simfs::Config(); 
        if (fault) {
            simfs::cfg.lossy_close = true; simfs::cfg.err = sim::pick(errs); simfs::cfg.sticky = sim::chance(1, 2); simfs::cfg.partial = sim::chance(1, 2);
            simfs::cfg.mask = sim::pick(vector<unsigned>{1u << simfs::OP_OPEN, 1u << simfs::OP_READ, 1u << simfs::OP_WRITE, 1u << simfs::OP_CLOSE, 1u << simfs::OP_TRUNC, 0x7fu});
            simfs::cfg.at = (long)(sim::chance(1, 2) ? sim::choose(4) : sim::choose(40));
        }
        std::function<void()> f; 
        hid_t uid = -1;            // a file the application itself opened
        if (h5 && k >= 9 && sim::chance(1, 2)) { simfs::Pause z; string x; if (throws([&] { uid = sim::chance(1, 3) ? rio::hdf5_open_file_for_read(file) : rio::hdf5_open_file_for_read_write(file); }, &x)) uid = -1; }
        switch (k) {
        case 0: what = "save"; f = [&] { rio::save(n, path, p.name, op); }; break;
        case 1: what = "load"; f = [&] { rio::load(path, p.name, m); }; break;
        case 2: what = "save_merged"; f = [&] { rio::save_merged(n, silo ? path : file + ":" + q, p.name, op); }; break;
        case 3: what = "load_merged"; f = [&] { rio::load_merged(path, p.name, m); }; break;
        case 4: case 5: case 6: what = "an abandoned handle"; f = [&] {
                rio::IOHandle h; Node ho(op); ho["mode"] = sim::pick(vector<string>{"rw", "r", "rwt", "w", "rwa"});
                h.open(file, p.name, ho);
                int ns = (int)sim::choose(5);
                for (int i = 0; i < ns; i++) { Node x; string qq = rpath();
                    try { switch (sim::choose(6)) { case 0: case 1: h.write(n, qq); break; case 2: h.read(x); break; case 3: h.read(qq, x); break; case 4: { vector<string> l; h.list_child_names(l); break; } default: h.remove(qq); } }
                    catch (const conduit::Error &) { } }
                if (sim::chance(1, 3)) h.close();
            }; break;
        case 7: what = "a partial write";
            if (sim::chance(2, 3)) { // over a leaf of the same type
                simfs::Pause z; string x; Node a; index_t ty = sim::pick(gen::number_types); gen::typed_leaf(a, ty, 1 + (int)sim::choose(8), false); q = "pw" + std::to_string(sim::choose(2)); n.reset(); gen::typed_leaf(n, ty, 1 + (int)sim::choose(8), true);
                throws([&] { Node fo; fo["hdf5/chunking/enabled"] = "false"; rio::hdf5_append(a, file, q, fo); }, &x);
            }
            f = [&] { op["offset"] = (int)sim::choose(9); if (sim::chance(1, 2)) op["stride"] = 1 + (int)sim::choose(3); rio::save_merged(n, file + ":" + q, "hdf5", op); }; break;
        case 8: what = "a partial read"; f = [&] { Node ro; ro["offset"] = (int)sim::choose(9); if (sim::chance(1, 2)) ro["stride"] = 1 + (int)sim::choose(3); if (sim::chance(1, 2)) ro["size"] = 1 + (int)sim::choose(5); rio::load(file + ":" + q, "hdf5", ro, m); }; break;
        case 9: what = "hdf5_read_info"; f = [&] { if (uid >= 0) rio::hdf5_read_info(uid, sim::chance(1, 2) ? q : string("/"), m); else rio::hdf5_read_info(file, sim::chance(1, 2) ? q : string("/"), m); }; break;
        case 10: what = "hdf5_group_list_child_names"; f = [&] { vector<string> l; if (uid >= 0) rio::hdf5_group_list_child_names(uid, q, l); }; break;
        case 11: what = "hdf5_has_path"; f = [&] { if (uid >= 0) rio::hdf5_has_path(uid, q); }; break;
        case 12: what = "hdf5_remove_path"; f = [&] { if (uid >= 0) rio::hdf5_remove_path(uid, q); }; break;
        case 13: what = "hdf5_write"; f = [&] { if (uid >= 0) { if (sim::chance(1, 2)) rio::hdf5_write(n, uid, q); else rio::hdf5_write(n, uid, q, op); } else rio::hdf5_append(n, file, q, op); }; break;
        case 14: what = "hdf5_read"; f = [&] { if (uid >= 0) rio::hdf5_read(uid, q, m); else rio::hdf5_read(file, q, m); }; break;
        default: what = "is_hdf5_file"; f = [&] { rio::is_hdf5_file(file); };
        }
        sim::logf("call %s %s", what.c_str(), file.c_str());
        int base = uid >= 0 ? 1 : 0; string e;
        simfs::arm(); bool t = throws(f, &e); simfs::disarm(); simfs::cfg = simfs::Config();
        if (simfs::st.fired) { sim::count("probe.fault"); if (silo) silo_bad = true; }
        sim::count(t ? "probe.failed_call" : "probe.good_call");
        string when = string("after ") + what + (t ? " that failed" : "") + " (" + p.name + ")";
        check_state(st0, when.c_str());
        check_given_back(when.c_str(), base, silo_bad);
        if (uid >= 0) { string x; throws([&] { rio::hdf5_close_file(uid); }, &x); check_given_back("after hdf5_close_file"); }
        if (h5track::close_failed() || silo_bad) { leaves_open = true; break; }    // the library's own state is not ours to judge
    }
    (void)leaves_open;
}
// failing over and over does not use up memory or descriptors (protocols conduit implements itself)
SCENARIO(C19, repeated_failure, 1) {
    Proto p = sim::pick(vector<Proto>{protos[0], protos[1], protos[2], protos[3], protos[4]}); IO io; io.p = p; io.path = path_for(p); io.route = (int)sim::choose(4);
    gen::loose_empty = true; gen::moderate = true;
    Node n; rand_for(p, n); do_save(io, n);
    bool saving = sim::chance(1, 2); Node m;
    simfs::Config c; c.err = sim::pick(errs); c.sticky = sim::chance(1, 2); c.lossy_close = true;
    c.mask = sim::pick(vector<unsigned>{1u << simfs::OP_OPEN, saving ? 1u << simfs::OP_WRITE : 1u << simfs::OP_READ, 1u << simfs::OP_CLOSE}); c.at = (long)sim::choose(3);
    int refuse = saving ? 0 : (int)sim::choose(3); string file = io.path;
    if (refuse == 1) { string d = simfs::slurp(io.path); simfs::spew(io.path, d.substr(0, d.size() / 2)); c.mask = 0; c.at = -1; }
    if (refuse == 2) { io.path = "missing." + string(p.ext); c.mask = 0; c.at = -1; }
    sim::sample("%s repeated failure ", p.name);
    const int N = 24; int failed = 0; bool steady = true; size_t grown = 0;
    auto used = [] { return (size_t)heap::bytes(); };
    for (int w = 0; w < 6 && steady; w++) {
        size_t u0 = used();
        for (int i = 0; i < N; i++) {
            simfs::cfg = c; simfs::arm();
            try { if (saving) do_save(io, n); else { m.reset(); do_load(io, m); } } catch (const std::exception &) { failed++; }
            simfs::disarm(); simfs::cfg = simfs::Config();
            auto f = simfs::open_files(); if (!f.empty()) sim::fail("leak-fd", "after a failed %s %s is still open", saving ? "save" : "load", f.begin()->second.path.c_str());
        }
        m.reset();
        size_t u1 = used(); grown = u1 > u0 ? u1 - u0 : 0;
        if (w && grown < (size_t)N * 16) steady = false;    // the simulator's own buffers grow now and then, a leak never ends
    }
    if (failed) sim::count("probe.repeated");
    if (steady) sim::fail("leak-memory", "every %d calls (%d of %d failed) leak about %zu bytes", N, failed, 6 * N, grown);
}

// ------------------------------------------------------------------ C24: tables as CSV text
namespace {
struct Col { string name; vector<string> comps; };                       // no components: a plain column
struct Tab { bool named = true; vector<Col> cols; vector<vector<double>> v; index_t rows = 0; };   // v: one vector per text column
struct Tabs { int kind; vector<string> names; vector<Tab> t; };          // 0 one table, 1 by name, 2 a list
bool g_f64 = false;
double csv_value(int type) {
    switch (type) {
    case 0: case 1: return (double)(int)sim::choose(100);                                 // any integer type
    case 2: return (double)(int)sim::choose(20000) - 10000;
    case 3: return g_f64 ? (double)((1ll << 52) - (long long)sim::choose(1000000)) * (sim::chance(1, 2) ? 1 : -1) : (double)((1 << 24) - (int)sim::choose(1000));
    default: if (sim::chance(1, 20)) return sim::pick(vector<double>{HUGE_VAL, -HUGE_VAL, NAN, -0.0});
        return ((int)sim::choose(16000) - 8000) / 8.0;                               // six digits hold it
    }
}
std::list<vector<double>> g_bufs;   // column memory
void csv_fill(Node &n, int type, const vector<double> &v) {
    index_t k = (index_t)v.size(), pad = sim::chance(1, 3) ? 1 + sim::choose(2) : 0;
    auto put = [&](auto z, DataType d) { typedef decltype(z) T; d.set_number_of_elements(k); d.set_stride((index_t)sizeof(T) * (1 + pad)); d.set_offset((index_t)sizeof(T) * pad); g_bufs.emplace_back((size_t)(k + 1) * (1 + pad) * 2); n.set_external(d, g_bufs.back().data()); for (index_t i = 0; i < k; i++) *(T *)n.element_ptr(i) = (T)v[i]; };
    switch (type) {
    case 0: sim::chance(1, 2) ? put(int8(0), DataType::int8()) : put(uint8(0), DataType::uint8()); break;
    case 1: sim::chance(1, 2) ? put(uint16(0), DataType::uint16()) : put(uint32(0), DataType::uint32()); break;
    case 2: sim::chance(1, 2) ? put(int16(0), DataType::int16()) : put(int32(0), DataType::int32()); break;
    case 3: put(int64(0), DataType::int64()); break;
    case 4: put(float32(0), DataType::float32()); break;
    default: put(float64(0), DataType::float64());
    }
}
void csv_table(Tab &t, Node &n) {
    t.named = sim::chance(3, 4); t.rows = sim::chance(1, 8) ? 0 : 1 + sim::choose(7);
    int nc = 1 + (int)sim::choose(4);
    Node &vals = n["values"];
    for (int c = 0; c < nc; c++) {
        Col col; if (t.named) col.name = string(sim::pick(vector<string>{"", "p ", "1", "x_"})) + (char)('a' + c);
        if (sim::chance(1, 3)) { int k = 1 + (int)sim::choose(3); for (int i = 0; i < k; i++) col.comps.push_back(string(1, (char)('u' + i))); }
        Node &cn = t.named ? vals[col.name] : vals.append();
        for (size_t i = 0; i < std::max<size_t>(1, col.comps.size()); i++) {
            int type = (int)sim::choose(6); vector<double> v; for (index_t r = 0; r < t.rows; r++) v.push_back(csv_value(type));
            csv_fill(col.comps.empty() ? cn : cn[col.comps[i]], type, v); t.v.push_back(v);
        }
        t.cols.push_back(col);
    }
}
void csv_tables(Tabs &ts, Node &n) {
    g_bufs.clear(); ts.kind = (int)sim::choose(3); g_f64 = sim::chance(1, 2);
    if (ts.kind == 0) { ts.t.resize(1); csv_table(ts.t[0], n); }
    else {
        int k = 1 + (int)sim::choose(ts.kind == 2 ? 12 : 4); ts.t.resize(k);
        for (int i = 0; i < k; i++) { if (ts.kind == 1) { ts.names.push_back(string("t") + (char)('a' + i)); csv_table(ts.t[i], n[ts.names[i]]); } else csv_table(ts.t[i], n.append()); }
    }
    sim::sample("csv %s, %zu tables%s ", ts.kind == 0 ? "single" : ts.kind == 1 ? "named" : "list", ts.t.size(), g_f64 ? " float64" : "");
}
string csv_diff(const Tab &t, const Node &n) {
    if (n.number_of_children() != 1 || !n.has_child("values")) return "no values";
    const Node &v = n["values"];
    if (v.number_of_children() != (index_t)t.cols.size()) return "columns: " + std::to_string(v.number_of_children()) + " for " + std::to_string(t.cols.size());
    size_t k = 0;
    for (size_t c = 0; c < t.cols.size(); c++) {
        const Node &cn = v.child(c); const Col &col = t.cols[c];
        if (t.named && cn.name() != col.name) return "column name '" + cn.name() + "' for '" + col.name + "'";
        bool plain = col.comps.empty() || (col.comps.size() == 1 && cn.number_of_children() == 0);   // one component is written as a plain column
        if (cn.number_of_children() != (index_t)col.comps.size() && !plain) return "column '" + col.name + "' has " + std::to_string(cn.number_of_children()) + " components for " + std::to_string(col.comps.size());
        for (size_t i = 0; i < std::max<size_t>(1, col.comps.size()); i++, k++) {
            const Node &x = plain ? cn : cn.child(i);
            if (!plain && x.name() != col.comps[i]) return "component name '" + x.name() + "'";
            if (g_f64 ? !x.dtype().is_float64() : !x.dtype().is_float32()) return "type " + x.dtype().name();
            if (x.dtype().number_of_elements() != t.rows) return "rows: " + std::to_string(x.dtype().number_of_elements()) + " for " + std::to_string(t.rows);
            for (index_t r = 0; r < t.rows; r++) {
                double g = g_f64 ? x.as_float64_array()[r] : (double)x.as_float32_array()[r];
                if (g != t.v[k][r] && !(g != g && t.v[k][r] != t.v[k][r])) return "column '" + col.name + "' row " + std::to_string(r) + ": " + std::to_string(g) + " for " + std::to_string(t.v[k][r]);
            }
        }
    }
    return "";
}
string csv_diff(const Tabs &ts, const Node &n) {
    if (ts.kind == 0) return csv_diff(ts.t[0], n);
    if (n.number_of_children() != (index_t)ts.t.size()) return "tables: " + std::to_string(n.number_of_children()) + " for " + std::to_string(ts.t.size());
    if (ts.kind == 2 && !n.dtype().is_list()) return "not a list";
    for (size_t i = 0; i < ts.t.size(); i++) {
        if (ts.kind == 1 && !n.has_child(ts.names[i])) return "no table " + ts.names[i];
        string d = csv_diff(ts.t[i], ts.kind == 1 ? n[ts.names[i]] : n.child(i));
        if (!d.empty()) return "table " + std::to_string(i) + ": " + d;
    }
    return "";
}
Node csv_opts() { Node o; if (g_f64 || sim::chance(1, 2)) o["use_float64"] = g_f64 ? 1 : 0; return o; }
string csv_path = "t.csv";
void csv_draw(int &route, int &lroute) { route = (int)sim::choose(3); lroute = (int)sim::choose(3); csv_path = "t.csv"; g_dirs = true; if (sim::chance(1, 4)) { csv_path = "t"; route = 1 + (int)sim::choose(2); lroute = 1; } }
void csv_save(int route, const Node &n) { Node o; if (route == 0) rio::save(n, csv_path); else if (route == 1) rio::save(n, csv_path, "csv", o); else rio::save(n, csv_path, "csv"); }
void csv_load(int route, Node &n) { Node o = csv_opts(); if (route == 0) rio::load(csv_path, o, n); else if (route == 1) rio::load(csv_path, "csv", o, n); else rio::load(csv_path, string(), o, n); }
} // namespace
SCENARIO(C24, tables, 3) {
    Tabs ts; Node n; csv_tables(ts, n);
    string before = gen::canon(n);
    int route, lroute; csv_draw(route, lroute);
    if (ts.kind && sim::chance(1, 3)) { simfs::real_mkdir(csv_path); simfs::spew(csv_path + sim::pick(vector<string>{"/readme.txt", "/x", "/note.csv.bak"}), "not, a table\n"); }
    Node m; if (sim::chance(1, 3)) m["old/values/z"] = 1;
    benign(); simfs::arm();
    string e;
    if (throws([&] { csv_save(route, n); }, &e)) sim::fail("save", "saving failed: %s", e.c_str());
    if (throws([&] { csv_load(lroute, m); }, &e)) sim::fail("load", "loading what was saved failed: %s", e.c_str());
    simfs::disarm();
    string d = csv_diff(ts, m);
    if (!d.empty()) sim::fail("reload", "%s", d.c_str());
    if (gen::canon(n) != before) sim::fail("saved-node-changed", "saving changed the tables");
    check_leaks("after saving and loading tables");
}
SCENARIO(C24, tables_fault, 3) {
    Tabs ts; Node n; csv_tables(ts, n);
    int route, lroute; csv_draw(route, lroute);
    bool saving = sim::chance(1, 2);
    string e, d;
    if (!saving) csv_save(route, n);
    Node m;
    Faulted r = saving ? with_fault(true, [&] { csv_save(route, n); }, [&] { csv_save(route, n); }) : with_fault(false, [&] { Node k; csv_load(lroute, k); }, [&] { csv_load(lroute, m); });
    if (!r.fired && r.threw) sim::fail("spurious", "failed without a fault: %s", r.msg.c_str());
    if (!r.threw) {
        if (saving && throws([&] { csv_load(lroute, m); }, &e)) sim::fail("silent-save", "saving reported success although %s failed; loading: %s", simfs::opname[simfs::st.fired_op], e.c_str());
        d = csv_diff(ts, m);
        if (!d.empty()) sim::fail(saving ? "silent-save" : "silent-load", "%s reported success although %s failed; %s", saving ? "saving" : "loading", simfs::opname[simfs::st.fired_op], d.c_str());
    }
    Node k;
    if (throws([&] { csv_save(route, n); csv_load(lroute, k); }, &e)) sim::fail("no-recovery", "after a failure (%s) saving or loading fails: %s", r.msg.substr(0, 200).c_str(), e.c_str());
    d = csv_diff(ts, k); if (!d.empty()) sim::fail("no-recovery", "after a failure: %s", d.c_str());
    check_leaks("after a failed table operation");
}
// text from elsewhere: with or without a header, and with damaged rows
SCENARIO(C24, text, 3) {
    g_f64 = sim::chance(1, 2); csv_path = "t.csv";
    bool header = sim::chance(2, 3); index_t nc = 1 + sim::choose(4), rows = (header ? 0 : 1) + sim::choose(6);
    Tab t; t.named = header; t.rows = rows; t.v.resize(nc);
    vector<vector<string>> cells;
    for (index_t c = 0; c < nc; c++) { Col col; if (header) col.name = string(1, (char)('a' + c)); t.cols.push_back(col); }
    for (index_t r = 0; r < rows; r++) {
        cells.push_back({});
        for (index_t c = 0; c < nc; c++) { double x = csv_value(2 + 2 * (int)sim::choose(2)); t.v[c].push_back(x); char b[64]; snprintf(b, sizeof b, "%g", x); cells.back().push_back(b); }
    }
    bool bad = false; string what;
    if (rows && sim::chance(2, 3)) {
        // without a header the first row tells how many columns there are
        index_t r = header ? sim::choose((uint32_t)rows) : sim::choose((uint32_t)rows - (rows > 1 ? 1 : 0)) + (rows > 1 ? 1 : 0);
        auto &row = cells[r];
        if (header || rows > 1) {
            bad = true;
            switch (sim::choose(4)) {
            case 0: row.push_back("7"); what = "one entry too many"; break;
            case 1: row.push_back("7"); row.push_back("8"); row.push_back("9"); what = "three entries too many"; break;
            case 2: if (nc > 1) { row.pop_back(); what = "one entry too few"; } else { row = {""}; what = "no entry"; } break;
            default: row[sim::choose((uint32_t)nc)] = sim::pick(vector<string>{"zz", "", "-", " "}); what = "an entry that is no number";
            }
            sim::count("fault.damaged_row");
        }
    }
    string s, sep = sim::pick(vector<string>{",", ", "});
    if (header) { for (index_t c = 0; c < nc; c++) s += (c ? sep : "") + t.cols[c].name; s += "\n"; }
    for (size_t r = 0; r < cells.size(); r++) { for (size_t c = 0; c < cells[r].size(); c++) s += (c ? sep : "") + cells[r][c]; if (r + 1 < cells.size() || (bad && cells[r].back().empty()) || sim::chance(3, 4)) s += "\n"; }
    // cut anywhere behind the first line: the rows that are left, as far as they are whole, or an error
    size_t first = s.find('\n'); bool unsure = false;
    if (!bad && first != string::npos && first + 2 < s.size() && sim::chance(1, 3)) {
        s.resize(first + 1 + sim::choose((uint32_t)(s.size() - first - 1))); sim::count("fault.truncated_file"); what = "a cut";
        size_t full = (size_t)std::count(s.begin(), s.end(), '\n') - (header ? 1 : 0), tail = s.rfind('\n') + 1;
        t.rows = (index_t)full; for (auto &v : t.v) v.resize(full);
        if (tail < s.size()) {
            vector<string> en; size_t a = tail; for (;;) { size_t b = s.find(',', a); en.push_back(s.substr(a, b == string::npos ? b : b - a)); if (b == string::npos) break; a = b + 1; }
            if ((index_t)en.size() != nc) bad = true;
            vector<double> xs; for (auto &x : en) { char *end; double d = strtod(x.c_str(), &end); if (end == x.c_str()) bad = true; else if (*end) unsure = true; xs.push_back(d); }
            if (!bad && !unsure) { t.rows++; for (index_t c = 0; c < nc; c++) t.v[c].push_back(g_f64 ? xs[c] : (double)(float)xs[c]); }
        }
    }
    simfs::spew(csv_path, s); sim::sample("text %s%s ", header ? "with header" : "without header", bad ? (", " + what).c_str() : "");
    Node m; string e; benign(); simfs::arm();
    bool th = throws([&] { csv_load((int)sim::choose(3), m); }, &e);
    simfs::disarm();
    if (e.compare(0, 5, "std: ") == 0) sim::fail("std-exception", "%s: %s", what.c_str(), e.c_str());
    if (unsure) return;
    if (!bad && th) sim::fail("text-load", "a good file was not read: %s", e.c_str());
    if (bad && !th) sim::fail("text-accepted", "a file with %s was read without an error", what.c_str());
    if (!th) { string d = csv_diff(t, m); if (!d.empty()) sim::fail("text-read", "%s", d.c_str()); }
    check_leaks("after reading text");
}
