// C20: nodes mapped onto files.
#include "sim.hpp"
#include "simfs.hpp"
#include "gen.hpp"
#include "heap.hpp"
#include "conduit.hpp"
#include <cerrno>
#include <cstring>
#include <functional>
#include <malloc.h>
#include <memory>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace conduit;
using std::string; using std::vector;

namespace {
size_t heap_used() { return (size_t)heap::bytes(); }
void leaves(Node &n, vector<Node *> &r) {
    if (n.dtype().is_object() || n.dtype().is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) leaves(n.child(i), r); return; }
    if (n.dtype().number_of_elements() > 0 && !n.dtype().is_empty()) r.push_back(&n);
}
void typed_set(Node &a, Node &v) {
    index_t n = v.dtype().number_of_elements();
    switch (v.dtype().id()) {
    case DataType::INT8_ID: a.set(v.as_int8_ptr(), n); break; case DataType::INT16_ID: a.set(v.as_int16_ptr(), n); break;
    case DataType::INT32_ID: a.set(v.as_int32_ptr(), n); break; case DataType::INT64_ID: a.set(v.as_int64_ptr(), n); break;
    case DataType::UINT8_ID: a.set(v.as_uint8_ptr(), n); break; case DataType::UINT16_ID: a.set(v.as_uint16_ptr(), n); break;
    case DataType::UINT32_ID: a.set(v.as_uint32_ptr(), n); break; case DataType::UINT64_ID: a.set(v.as_uint64_ptr(), n); break;
    case DataType::FLOAT32_ID: a.set(v.as_float32_ptr(), n); break; case DataType::FLOAT64_ID: a.set(v.as_float64_ptr(), n); break;
    default: a.update(v);
    }
}
// overwrite some elements of a leaf in place through the node's own setters; the same on the model leaf
void poke(Node &a, Node &m) {
    Node v0, v; gen::like(a, v0, false); v0.compact_to(v);
    if (v.dtype().number_of_elements() != a.dtype().number_of_elements() || v.dtype().id() != a.dtype().id()) return;
    bool native = a.dtype().endianness_matches_machine() && v.dtype().endianness_matches_machine();
    switch (native ? sim::choose(3) : 2) {
    case 0: typed_set(a, v); typed_set(m, v); break;                      // same type and length: in place
    case 1: a.update(v); m.update(v); break;
    default: { long es = a.dtype().element_bytes(), i = (long)sim::choose((uint32_t)a.dtype().number_of_elements()); if (a.dtype().is_string()) return; memcpy(a.element_ptr(i), v.element_ptr(i), es); memcpy(m.element_ptr(i), v.element_ptr(i), es); }
    }
}
bool throws(const std::function<void()> &f, string *msg) { try { f(); return false; } catch (const conduit::Error &e) { *msg = e.message(); return true; } catch (const std::exception &e) { *msg = string("std: ") + e.what(); return true; } }
void no_open(const char *when) { auto f = simfs::open_files(); if (!f.empty()) sim::fail("leak-fd", "%s: %s is still open (%zu descriptors)", when, f.begin()->second.path.c_str(), f.size()); }
int maps_of(const char *name) { string m = simfs::slurp("/proc/self/maps"); int k = 0; size_t p = 0; while ((p = m.find(name, p)) != string::npos) { k++; p += strlen(name); } return k; }
gen::Opt mopt() { gen::Opt o; gen::loose_empty = true; gen::moderate = false; o.swapped = true; o.big = sim::chance(1, 4); return o; }
}
// several mappings of the same files, edited and dropped in any order
SCENARIO(C20, mappings, 3) {
    const int NF = 2;
    Node model[NF]; string name[NF]; string tail[NF]; vector<long> bytes(NF);
    gen::Opt o = mopt();
    for (int i = 0; i < NF; i++) {
        name[i] = string("m") + (char)('0' + i) + ".conduit_bin";
        Node n; gen::rand_node(n, o); if (n.total_bytes_compact() == 0) { n.reset(); n["k"].set(DataType::int32(3)); }
        n.compact_to(model[i]); gen::log(model[i]); model[i].save(name[i], "conduit_bin"); bytes[i] = model[i].total_bytes_compact();
        if (sim::chance(1, 3)) { tail[i] = string(1 + sim::choose(5000), (char)(7 + i)); simfs::spew(name[i], simfs::slurp(name[i]) + tail[i]); }  // bytes after the data must stay
    }
    struct Map { std::unique_ptr<Node> n; int f = -1; };
    vector<Map> maps(1 + sim::choose(4));
    auto check = [&](Node &n, int f, const char *what) { string w = gen::canon(model[f]), g = gen::canon(n); if (w != g) sim::fail("content", "%s of %s: %s", what, name[f].c_str(), gen::diff(w, g).c_str()); };
    sim::sample("mapping history ");
    simfs::cfg = simfs::Config(); simfs::arm();
    int nops = 3 + (int)sim::choose(14);
    for (int i = 0; i < nops; i++) {
        Map &m = maps[sim::choose((uint32_t)maps.size())]; int f = (int)sim::choose(NF);
        switch (sim::choose(7)) {
        case 0: case 1: { // map (maybe over an existing mapping of another or the same file)
            if (!m.n) m.n.reset(new Node); 
            if (m.f < 0 && sim::chance(1, 3)) gen::rand_node(*m.n, o);
            bool sch = sim::chance(1, 3);
            sim::logf("map %d%s", f, sch ? " by schema" : "");
            if (sch) { Schema s; model[f].schema().compact_to(s); m.n->mmap(name[f], s); } else m.n->mmap(name[f]);
            m.f = f; check(*m.n, f, "a new mapping"); sim::count("probe.mapped"); break; }
        case 2: case 3: { // edit in place
            if (m.f < 0) break;
            vector<Node *> a, b; leaves(*m.n, a); leaves(model[m.f], b); if (a.empty() || a.size() != b.size()) break;
            size_t k = sim::choose((uint32_t)a.size()); sim::logf("edit %d", m.f); poke(*a[k], *b[k]); sim::count("probe.edited");
            check(*m.n, m.f, "an edited mapping"); break; }
        case 4: if (m.n) { sim::logf("drop %d", m.f); if (sim::chance(1, 2)) m.n->reset(); else m.n.reset(); m.f = -1; } break;
        case 5: { // move or swap mappings
            Map &q = maps[sim::choose((uint32_t)maps.size())]; if (&q == &m || !m.n) break;
            if (!q.n) q.n.reset(new Node);
            if (sim::chance(1, 2)) { sim::logf("swap"); q.n->swap(*m.n); std::swap(q.f, m.f); }
            else { sim::logf("move"); q.n->move(*m.n); q.f = m.f; m.f = -1; }
            break; }
        default: { // another process' view
            Node n; sim::logf("load %d", f); n.load(name[f], "conduit_bin"); check(n, f, "a load"); }
        }
        for (auto &x : maps) if (x.n && x.f >= 0) check(*x.n, x.f, "a mapping");
    }
    while (!maps.empty()) { size_t k = sim::choose((uint32_t)maps.size()); maps.erase(maps.begin() + k); }
    for (int i = 0; i < NF; i++) {
        Node n; n.load(name[i], "conduit_bin"); check(n, i, "the final load");
        string d = simfs::slurp(name[i]);
        if ((long)d.size() != bytes[i] + (long)tail[i].size() || d.compare(d.size() - tail[i].size(), string::npos, tail[i]) != 0) sim::fail("bytes", "bytes of %s after the mapped data changed", name[i].c_str());
    }
    simfs::disarm();
    no_open("after all mappings are gone");
    if (maps_of(".conduit_bin")) sim::fail("leak-map", "a mapping is still in place after its node is gone");
}
// one step of mapping fails
SCENARIO(C20, map_fault, 2) {
    gen::Opt o = mopt(); Node n, model; gen::rand_node(n, o); if (n.total_bytes_compact() == 0) { n.reset(); n["k"].set(DataType::int32(3)); }
    n.compact_to(model); gen::log(model); model.save("m.conduit_bin", "conduit_bin");
    string want = gen::canon(model);
    std::unique_ptr<Node> m(new Node); if (sim::chance(1, 2)) gen::rand_node(*m, o); bool premapped = false;
    if (sim::chance(1, 3)) { model.save("p.conduit_bin", "conduit_bin"); m->mmap("p.conduit_bin"); premapped = true; }
    int kind = (int)sim::choose(5); string e; bool t;
    bool sch = sim::chance(1, 3); Schema s; model.schema().compact_to(s);
    auto go = [&](Node &x) { if (sch) x.mmap("m.conduit_bin", s); else x.mmap("m.conduit_bin"); };
    simfs::cfg = simfs::Config();
    long long sz = simfs::size("m.conduit_bin"); string data = simfs::slurp("m.conduit_bin");
    if (kind == 3) { simfs::truncate_file("m.conduit_bin", (long long)sim::choose((uint32_t)sz)); sim::count("fault.truncated_file"); }
    if (kind == 4) { ::syscall(SYS_unlink, "m.conduit_bin"); sim::count("fault.missing_file"); }
    simfs::cfg.err = sim::pick(vector<int>{EIO, EACCES, EMFILE, ENOMEM});
    if (kind == 0) { simfs::cfg.mask = 1u << simfs::OP_MMAP; simfs::cfg.at = 0; }
    if (kind == 1) { simfs::cfg.mask = 1u << simfs::OP_OPEN; simfs::cfg.at = sch ? 0 : (long)sim::choose(2); }
    if (kind == 2) { simfs::cfg.mask = 1u << simfs::OP_READ; simfs::cfg.at = 0; if (sch) return; }
    simfs::cfg.sticky = sim::chance(1, 2);
    sim::sample("failing mapping ");
    simfs::arm(); t = throws([&] { go(*m); }, &e); bool fired = kind >= 3 || simfs::st.fired;
    simfs::disarm(); simfs::cfg = simfs::Config();
    if (fired && !t) sim::fail("silent-map", "mapping reported success although %s", kind == 3 ? "the file is too short" : kind == 4 ? "the file does not exist" : "a step failed");
    if (t) sim::count("probe.reported");
    if (kind == 4 && simfs::exists("m.conduit_bin")) sim::fail("created", "a failed mapping created the file");
    if (kind == 3) { simfs::truncate_file("m.conduit_bin", 0); }
    if (kind >= 3) simfs::spew("m.conduit_bin", data);
    // the node stays usable: inspect, map again, destroy
    string d = m->to_json(); (void)d;
    if (!t) { no_open("x"); }
    { auto f = simfs::open_files(); for (auto &x : f) if (x.second.path.find("m.conduit_bin") != string::npos) sim::fail("leak-fd", "after a failed mapping %s is still open", x.second.path.c_str()); }
    switch (sim::choose(3)) {
    case 0: go(*m); if (gen::canon(*m) != want) sim::fail("no-recovery", "mapping again gives: %s", gen::diff(want, gen::canon(*m)).c_str()); break;
    case 1: m->reset(); m->set(model); if (gen::canon(*m) != want) sim::fail("no-recovery", "a node whose mapping failed cannot be set"); break;
    default: break;
    }
    m.reset();
    (void)premapped;
    no_open("after a failed mapping");
    if (maps_of(".conduit_bin")) sim::fail("leak-map", "a mapping is still in place after its node is gone");
    // repeated failures do not use up memory
    if (kind == 0 || (kind == 1 && sch)) {
        Node k; size_t used = 0;
        const int N = 48;
        for (int i = 0; i < 6 + N; i++) { simfs::cfg.mask = 1u << (kind == 0 ? simfs::OP_MMAP : simfs::OP_OPEN); simfs::cfg.at = 0; simfs::cfg.sticky = true; simfs::arm(); { string e2; throws([&] { k.mmap("m.conduit_bin", s); }, &e2); } simfs::disarm(); if (i == 5) used = heap_used(); }
        if (heap_used() > used + N * 24) sim::fail("leak-memory", "failed mappings leak %zu bytes in %d calls", heap_used() - used, N);
    }
}
// closing the mapped file fails
SCENARIO(C20, unmap_fault, 1) {
    gen::Opt o = mopt(); Node n, model; gen::rand_node(n, o); if (n.total_bytes_compact() == 0) { n.reset(); n["k"].set(DataType::int32(3)); }
    n.compact_to(model); gen::log(model); model.save("m.conduit_bin", "conduit_bin");
    std::unique_ptr<Node> m(new Node); simfs::cfg = simfs::Config(); simfs::arm(); m->mmap("m.conduit_bin");
    vector<Node *> a, b; leaves(*m, a); leaves(model, b);
    for (size_t k = 0; k < a.size() && k < b.size(); k++) if (sim::chance(1, 2)) poke(*a[k], *b[k]);
    simfs::disarm(); simfs::cfg.mask = 1u << simfs::OP_CLOSE; simfs::cfg.at = 0; simfs::cfg.err = EIO; simfs::arm();
    string e; bool t = false;
    sim::sample("failing close of a mapping ");
    if (sim::chance(1, 2)) m.reset(); else { t = throws([&] { m->reset(); }, &e); m.reset(); }
    simfs::disarm(); simfs::cfg = simfs::Config(); (void)t;
    Node k; k.load("m.conduit_bin", "conduit_bin");
    if (gen::canon(k) != gen::canon(model)) sim::fail("content", "values set through a mapping are not in the file: %s", gen::diff(gen::canon(model), gen::canon(k)).c_str());
    no_open("after a mapping whose close failed");
}
// data beyond 2 and 4 GiB (sparse file)
SCENARIO(C20, huge, 1) {
    if (!sim::chance(1, 8)) return;
    static const vector<long long> szs = {(1ll << 31) + 64, (1ll << 32) + 4096, (1ll << 31) - 8, (3ll << 30)};
    long long sz = sim::pick(szs) & ~7ll;
    simfs::spew("h.bin", string(8, 1)); if (!simfs::truncate_file("h.bin", sz)) return;
    { int fd = (int)::syscall(SYS_openat, AT_FDCWD, "h.bin", O_WRONLY, 0); int64 v = 4711; ::syscall(SYS_pwrite64, fd, &v, 8, sz - 8); ::syscall(SYS_close, fd); }
    Schema s; s["a"].set(DataType::int64(sz / 8 - 1)); s["b"].set(DataType::int64(1, sz - 8));
    sim::sample("huge mapping ");
    { Node n; n.mmap("h.bin", s);
      if (n["b"].as_int64() != 4711) sim::fail("content", "the last value of a %lld byte mapping is wrong", sz);
      n["b"] = (int64)4712; ((int64 *)n["a"].data_ptr())[sz / 8 - 2] = 5; }
    int64 v[2] = {0, 0}; int fd = (int)::syscall(SYS_openat, AT_FDCWD, "h.bin", O_RDONLY, 0); ::syscall(SYS_pread64, fd, v, 16, sz - 16); ::syscall(SYS_close, fd);
    if (v[0] != 5 || v[1] != 4712) sim::fail("content", "values set through a %lld byte mapping are not in the file", sz);
    if (maps_of("h.bin")) sim::fail("leak-map", "a part of the mapping is still in place after its node is gone");
    sim::count("probe.huge");
}
