// C13, C14: saving and loading of distributed meshes in files, on simulated ranks over simulated MPI and file calls.
#include "mesh.hpp"
#include "simfs.hpp"
#include "h5track.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include "conduit_relay_io.hpp"
#include "conduit_relay_io_blueprint.hpp"
#include "conduit_relay_mpi_io_blueprint.hpp"
#include <cerrno>
#include <unistd.h>
#include <memory>
using namespace conduit;
using std::string; using std::vector;
namespace pio = conduit::relay::mpi::io::blueprint;
namespace sio = conduit::relay::io::blueprint;
namespace {
void quiet(const string &, const string &, int) {}
struct Job { int cycle = 42;                       // one mesh to be saved
    mesh::Spec s; mesh::Placement p; vector<string> before; string root; Node opts; string name = "mesh"; vector<string> want; int total = 0;
};
struct Where { string path, proto; bool text; };
// those whose root files can be told from their content
const vector<string> protocols{"hdf5", "json", "yaml"};
Where draw_where() {
    Where w; w.proto = sim::chance(1, 2) ? "hdf5" : sim::pick(protocols); w.text = w.proto == "json" || w.proto == "yaml";
    int d = (int)sim::choose(4); string dir = d == 0 ? "" : d == 1 ? "sub/" : d == 2 ? "./sub/" : "sub/x.y/";
    if (d) simfs::real_mkdir("sub");
    if (d == 3) simfs::real_mkdir("sub/x.y");
    w.path = dir + (sim::chance(1, 4) ? "out.v1" : "out");
    sim::sample("%s %s ", w.proto.c_str(), w.path.c_str());
    return w;
}
string canon(const Where &w, const Node &n) { return w.text ? gen::canon_text(n) : gen::canon(n); }
// content of a domain with the id the save gives it
string content(const Where &w, const Node &dom, int id) {
    Node n; n.set(dom); Node st; if (n.has_child("state")) st = n["state"]; n["state"].reset();
    n["state/domain_id"] = id; if (st.has_child("cycle")) n["state/cycle"] = st["cycle"]; if (st.has_child("time")) n["state/time"] = st["time"];
    // order of the top-level groups and of entries is that of the index
    Node o; std::map<string, const Node *> top; for (index_t i = 0; i < n.number_of_children(); i++) top[n.child(i).name()] = &n.child(i);
    for (auto &kv : top) { if (kv.first == "state") { std::map<string, const Node *> e; for (index_t i = 0; i < kv.second->number_of_children(); i++) e[kv.second->child(i).name()] = &kv.second->child(i); for (auto &x : e) if (x.first == "domain_id") o["state/domain_id"] = (int64)x.second->to_int64(); else o["state"][x.first].set(*x.second); continue; }
        std::map<string, const Node *> e; for (index_t i = 0; i < kv.second->number_of_children(); i++) e[kv.second->child(i).name()] = &kv.second->child(i);
        for (auto &x : e) o[kv.first][x.first].set(*x.second); }
    return canon(w, o);
}
Job draw_job(const mesh::World &w, const Where &wh, int maxdom = 6, const Job *base = nullptr, int cycle = 42) {
    Job j; mesh::Opt o; o.maxn2 = 4; o.maxn3 = 2; o.maxdom = maxdom; o.uniform_kind = sim::chance(1, 2); o.gaps = sim::chance(1, 3); o.adjset = sim::chance(1, 3);
    if (!base && sim::chance(1, 8)) { o.maxdom = 16; o.maxn2 = 7; }
    if (base) { j.s = base->s; j.s.topo = "t2"; j.s.kinds.assign(j.s.ndom(), j.s.kind); }        // as many domains, other content
    else j.s = mesh::draw(o);
    if (sim::chance(1, 4)) for (int d = 0; d < j.s.ndom(); d++) if (sim::chance(1, 2)) j.s.nofields.insert(d);
    j.p = mesh::place(j.s, w.n);
    // parts of the mesh that only some domains have
    if (!base && sim::chance(1, 4)) for (int r = 0; r < w.n; r++) for (const Node *c : mesh::domains(*j.p.local[r])) if (sim::chance(1, 2)) { Node &d = *const_cast<Node *>(c); if (d.has_child("adjsets")) { d.remove("adjsets"); sim::count("probe.adjset_on_some"); } }
    int st = (int)sim::choose(4);     // how the id is stored: as built, int32, none, none at all
    int k = 0;
    for (int r = 0; r < w.n; r++) {
        Node &m = *j.p.local[r]; for (const Node *c : mesh::domains(m)) { Node &d = *const_cast<Node *>(c); if (st == 1) { int v = d["state/domain_id"].to_int(); d["state"].remove("domain_id"); d["state/domain_id"] = v; } else if (st == 2) d["state"].remove("domain_id"); else if (st == 3 && !j.s.cycle) d.remove("state"); }
        if (cycle != 42) for (const Node *c : mesh::domains(m)) if (c->has_path("state/cycle")) (*const_cast<Node *>(c))["state/cycle"] = cycle;
        for (const Node *c : mesh::domains(m)) j.want.push_back(content(wh, *c, k++));
        j.before.push_back(gen::canon(m));
    }
    j.total = k; j.cycle = cycle;
    // options
    if (sim::chance(2, 3)) j.opts["file_style"] = sim::pick(vector<string>{"default", "root_only", "multi_file"});
    bool cyc = j.s.cycle;
    if (sim::chance(1, 2)) { string x = sim::pick(vector<string>{"default", "none", "cycle"}); if (x == "cycle" && !cyc) x = "none"; j.opts["suffix"] = x; if (x == "none") cyc = false; }
    if (sim::chance(1, 3)) { j.name = "other"; j.opts["mesh_name"] = j.name; }
    if (sim::chance(2, 3)) { int nf = (int)sim::choose(j.total + 4) - 1; if (sim::chance(1, 2)) j.opts["number_of_files"] = nf; else j.opts["number_of_files"] = (int64)nf; }
    char cb[32]; snprintf(cb, sizeof cb, ".cycle_%06d", cycle);
    j.root = wh.path + (cyc ? cb : "") + ".root";
    sim::sample("opts%s ", j.opts.dtype().is_empty() ? "-" : j.opts.to_json("json", 0, 0, "", "").c_str()); gen::log(j.opts);
    return j;
}
void same_input(const Job &j, int r) { if (gen::canon(*j.p.local[r]) != j.before[r]) sim::fail("input-changed", "saving changed the caller's mesh on rank %d: %s", r, gen::diff(j.before[r], gen::canon(*j.p.local[r])).c_str()); }
// got: domain name -> content, over all ranks
void add(const Where &wh, const Node &m, std::map<string, string> &got, int r) {
    if (m.dtype().is_empty()) return;
    for (index_t i = 0; i < m.number_of_children(); i++) {
        const Node &d = m.child(i); if (!d.has_path("state/domain_id")) sim::fail("content", "rank %d: reloaded domain %s has no id", r, d.name().c_str());
        if (!got.insert({d.name(), content(wh, d, d["state/domain_id"].to_int())}).second) sim::fail("twice", "domain %s was loaded twice", d.name().c_str());
    }
}
void check(const Job &j, const std::map<string, string> &got, const char *how) {
    if ((int)got.size() != j.total) sim::fail("count", "%s: %zu domains were loaded, %d were saved", how, got.size(), j.total);
    for (int i = 0; i < j.total; i++) {
        char b[32]; snprintf(b, sizeof b, "domain_%06d", i); auto it = got.find(b);
        if (it == got.end()) sim::fail("missing", "%s: %s was not loaded", how, b);
        if (it->second != j.want[i]) sim::fail("content", "%s: %s differs from what was saved: %s", how, b, gen::diff(j.want[i], it->second).c_str());
    }
}
void load_one(const Job &j, bool named, int form, Node &m, MPI_Comm c) {
    Node o; if (named) o["mesh_name"] = j.name;
    if (form == 0) { if (named) pio::load_mesh(j.root, o, m, c); else pio::load_mesh(j.root, m, c); }
    else { m.reset(); if (named) pio::read_mesh(j.root, o, m, c); else pio::read_mesh(j.root, m, c); }
}
void load_serial(const Where &wh, const Job &j, bool named) {
    Node m, o; if (named) o["mesh_name"] = j.name;
    try { if (named) sio::load_mesh(j.root, o, m); else sio::load_mesh(j.root, m); } catch (const Error &e) { sim::fail("load-error", "serial load of %s failed: %s", j.root.c_str(), e.message().c_str()); }
    std::map<string, string> got; add(wh, m, got, -1); check(j, got, "serial load");
}
void load_parallel(const Where &wh, const Job &j, bool named, const mesh::World &w) {
    std::map<string, string> got; int form = (int)sim::choose(2); vector<std::unique_ptr<Node>> ms; for (int i = 0; i < w.n; i++) ms.emplace_back(new Node);
    mesh::run(w, [&](int r) { try { load_one(j, named, form, *ms[r], w.comm); } catch (const Error &e) { sim::fail("load-error", "load of %s failed on rank %d: %s", j.root.c_str(), r, e.message().c_str()); } });
    for (int r = 0; r < w.n; r++) add(wh, *ms[r], got, r);
    check(j, got, "parallel load");
}
void quiet_logs() { conduit::utils::set_info_handler(quiet); conduit::utils::set_warning_handler(quiet); }
} // namespace

SCENARIO(C13, save_load, 6) {
    mesh::World w = mesh::draw_world(5); Where wh = draw_where();
    int saves = sim::chance(1, 3) ? 2 : 1; vector<Job> js; for (int i = 0; i < saves; i++) js.push_back(draw_job(w, wh));
    bool named = sim::chance(1, 3), straight = sim::chance(1, 2); int form = (int)sim::choose(2);
    simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(3, 4); simfs::cfg.exclusive = true; simfs::arm();
    sim::draw_schedule_config(w.total);
    vector<std::unique_ptr<Node>> ms; for (int i = 0; i < w.n; i++) ms.emplace_back(new Node);
    Job &last = js.back();
    mesh::run(w, [&](int r) {
        quiet_logs();
        try { for (auto &j : js) {
            if (j.opts.dtype().is_empty()) { if (wh.proto == "hdf5" && sim::chance(1, 2)) pio::save_mesh(*j.p.local[r], wh.path, w.comm); else pio::save_mesh(*j.p.local[r], wh.path, wh.proto, w.comm); }
            else pio::save_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm);
            same_input(j, r);
        } } catch (const Error &e) { sim::fail("save-error", "save failed on rank %d: %s", r, e.message().c_str()); }
        // a load by the same ranks may follow at once
        if (straight) try { load_one(last, named, form, *ms[r], w.comm); } catch (const Error &e) { sim::fail("load-error", "load of %s right after the save failed on rank %d: %s", last.root.c_str(), r, e.message().c_str()); }
    });
    quiet_logs();
    if (straight) { std::map<string, string> got; for (int r = 0; r < w.n; r++) add(wh, *ms[r], got, r); check(last, got, "load right after the save"); sim::count("probe.load_straight"); }
    load_serial(wh, last, named);
    mesh::World w2 = mesh::draw_world(6); load_parallel(wh, last, named, w2);
    sim::count(last.total > 1 ? "probe.multi_domain" : "probe.single_domain");
}

// several cycles of a mesh side by side, written by the same or other ranks
SCENARIO(C13, cycles, 2) {
    mesh::World w = mesh::draw_world(4); Where wh = draw_where(); vector<Job> js; int k = sim::range(2, 3), c0 = (int)sim::choose(40);
    for (int i = 0; i < k; i++) js.push_back(draw_job(w, wh, 4, nullptr, i == 0 ? c0 : sim::chance(1, 8) ? js[i - 1].cycle : c0 + i));
    simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(3, 4); simfs::cfg.exclusive = true; simfs::arm();
    sim::draw_schedule_config(w.total);
    mesh::run(w, [&](int r) {
        quiet_logs();
        try { for (auto &j : js) { pio::save_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm); same_input(j, r); } }
        catch (const Error &e) { sim::fail("save-error", "save failed on rank %d: %s", r, e.message().c_str()); }
    });
    quiet_logs();
    // a save is there until one of the same name follows
    for (int i = 0; i < k; i++) { bool over = false; for (int x = i + 1; x < k; x++) over |= js[x].root == js[i].root; if (!over) { load_serial(wh, js[i], sim::chance(1, 2)); mesh::World w2 = mesh::draw_world(4); load_parallel(wh, js[i], sim::chance(1, 2), w2); if (i + 1 < k) sim::count("probe.earlier_cycle"); } }
}

// several meshes in one set of files
SCENARIO(C13, write_more, 2) {
    mesh::World w = mesh::draw_world(4); Where wh = draw_where();
    int k = sim::range(2, 3); vector<Job> js;
    for (int i = 0; i < k; i++) {
        Job j = draw_job(w, wh, 4, i ? &js[0] : nullptr); static const char *nm[] = {"mesh", "other", "third"}; j.name = nm[i]; j.opts["mesh_name"] = j.name;
        // one set of files: the same style for all
        if (i) { j.opts = js[0].opts; j.opts["mesh_name"] = j.name; } else j.opts["suffix"] = "none";
        j.root = wh.path + ".root";
        js.push_back(j);
    }
    int form = (int)sim::choose(2); bool first_saves = sim::chance(1, 2);
    simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(3, 4); simfs::cfg.exclusive = true; simfs::arm();
    sim::draw_schedule_config(w.total);
    mesh::run(w, [&](int r) {
        quiet_logs();
        try { for (int i = 0; i < k; i++) { Job &j = js[i]; if (i == 0 && first_saves) pio::save_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm); else pio::write_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm); same_input(j, r); } }
        catch (const Error &e) { sim::fail("save-error", "write failed on rank %d: %s", r, e.message().c_str()); }
    });
    (void)form; quiet_logs();
    for (auto &j : js) { load_serial(wh, j, true); mesh::World w2 = mesh::draw_world(4); load_parallel(wh, j, true, w2); }
}

// nothing to save: skipped on all ranks alike
SCENARIO(C13, no_data, 1) {
    mesh::World w = mesh::draw_world(4); Where wh = draw_where(); vector<int> st; for (int i = 0; i < w.n; i++) st.push_back((int)sim::choose(3)); Node o; if (sim::chance(1, 2)) o["file_style"] = sim::pick(vector<string>{"root_only", "multi_file"});
    sim::draw_schedule_config(w.total); vector<int> threw(w.n, 0);
    mesh::run(w, [&](int r) { quiet_logs(); Node n; if (st[r] == 0) n.set(DataType::object()); else if (st[r] == 1) n.set(DataType::list());
        try { pio::save_mesh(n, wh.path, wh.proto, o, w.comm); } catch (const Error &e) { sim::fail("save-error", "saving no domains failed on rank %d: %s", r, e.message().c_str()); } });
}

// ------------------------------------------------------------------ C14
namespace {
void draw_fault(bool saving, const mesh::World &w) {
    bool yields = simfs::cfg.yields; simfs::cfg = simfs::Config(); simfs::cfg.yields = yields; simfs::cfg.exclusive = true; simfs::cfg.lossy_close = true;
    static const vector<int> errs{EIO, ENOSPC, EACCES, EMFILE};
    if (saving && sim::chance(1, 5)) { simfs::cfg.quota = sim::chance(1, 2) ? (long long)sim::choose(2000) : (long long)sim::choose(60000); sim::sample("quota "); return; }
    static const vector<unsigned> ms = {1u << simfs::OP_OPEN, 1u << simfs::OP_WRITE, 1u << simfs::OP_CLOSE, 1u << simfs::OP_TRUNC, 1u << simfs::OP_READ, 1u << simfs::OP_MKDIR, 0x7fu};
    static const vector<unsigned> ml = {1u << simfs::OP_OPEN, 1u << simfs::OP_READ, 1u << simfs::OP_READ, 1u << simfs::OP_CLOSE, 0x7fu};
    simfs::cfg.mask = sim::pick(saving ? ms : ml); simfs::cfg.err = sim::pick(errs); simfs::cfg.sticky = sim::chance(1, 3); simfs::cfg.partial = sim::chance(1, 2);
    simfs::cfg.at = (long)(sim::chance(1, 2) ? sim::choose(4) : sim::choose(40));
    if (sim::chance(2, 3)) simfs::cfg.rank = w.group[sim::choose(w.n)];
    sim::sample("fault mask=%x at=%ld rank=%d%s ", simfs::cfg.mask, simfs::cfg.at, simfs::cfg.rank, simfs::cfg.sticky ? " sticky" : "");
}
void save_again(const Where &wh, const Job &j, const mesh::World &w, const char *after) {
    mesh::run(w, [&](int r) { quiet_logs(); try { pio::save_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm); } catch (const Error &e) { sim::fail("save-error", "%s, a new save failed on rank %d: %s", after, r, e.message().c_str()); } });
    quiet_logs(); load_serial(wh, j, true);
}
}
SCENARIO(C14, save, 3) {
    mesh::World w = mesh::draw_world(5); Where wh = draw_where(); Job j = draw_job(w, wh); bool over = sim::chance(1, 3);
    if (sim::chance(1, 4)) j.opts["file_style"] = "root_only";
    sim::draw_schedule_config(w.total); quiet_logs(); simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(1, 2);
    if (over) save_again(wh, j, w, "before the fault");
    draw_fault(true, w); simfs::arm(); vector<string> err(w.n); vector<int> ok(w.n, 0);
    mesh::run(w, [&](int r) {
        quiet_logs();
        try { pio::save_mesh(*j.p.local[r], wh.path, wh.proto, j.opts, w.comm); ok[r] = 1; } catch (const std::exception &e) { err[r] = e.what(); sim::trace_only("rank %d: %s", r, err[r].substr(0, 300).c_str()); }
        same_input(j, r);
    });
    bool fired = simfs::st.fired; int fr = simfs::st.fired_rank; string fp = simfs::st.fired_path; simfs::disarm(); simfs::cfg = simfs::Config(); quiet_logs();
    int good = 0; for (int x : ok) good += x;
    if (!fired && good < w.n) { for (int r = 0; r < w.n; r++) if (!ok[r]) sim::fail("save-error", "save failed without a fault on rank %d: %s", r, err[r].c_str()); }
    if (fired) sim::count(good == w.n ? "probe.fault_harmless" : good == 0 ? "probe.reported_everywhere" : "probe.reported_on_some");
    if (good == w.n) {
        // a save that succeeded everywhere is whole
        Node m, o; o["mesh_name"] = j.name;
        try { sio::load_mesh(j.root, o, m); } catch (const Error &e) { sim::fail("lost", "the save succeeded on all ranks (fault on %s), but loading fails: %s", fp.c_str(), e.message().c_str()); }
        std::map<string, string> got; add(wh, m, got, -1); check(j, got, "load after a save with a fault that succeeded on all ranks");
    } else if (fr >= 0) {
        int lr = -1; for (int i = 0; i < w.n; i++) if (w.group[i] == fr) lr = i;
        if (lr >= 0 && ok[lr] && simfs::st.affected_write) sim::fail("not-reported", "a write failed on rank %d, which reports success while others report an error", lr);
    }
    save_again(wh, j, w, "after the fault");
}
SCENARIO(C14, load, 2) {
    mesh::World w = mesh::draw_world(4); Where wh = draw_where(); Job j = draw_job(w, wh); bool named = sim::chance(1, 2);
    sim::draw_schedule_config(w.total); quiet_logs(); simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(1, 2);
    save_again(wh, j, w, "without a fault");
    mesh::World w2 = mesh::draw_world(5); vector<int> share(w2.n, 0); int form = (int)sim::choose(2);
    vector<std::unique_ptr<Node>> ms; for (int i = 0; i < w2.n; i++) ms.emplace_back(new Node);
    mesh::run(w2, [&](int r) { try { load_one(j, named, form, *ms[r], w2.comm); } catch (const Error &e) { sim::fail("load-error", "load without a fault failed on rank %d: %s", r, e.message().c_str()); } share[r] = (int)ms[r]->number_of_children(); });
    int missing = sim::chance(1, 4) ? 1 + (int)sim::choose(wh.proto == "hdf5" ? 2 : 3) : 0;        // or: a file that is gone or damaged (the HDF5 library itself does not survive garbage)
    vector<string> files = simfs::list("."); string victim; string saved;
    if (missing) { victim = files[sim::choose((uint32_t)files.size())]; saved = simfs::slurp(victim); if (missing == 1) ::unlink(victim.c_str()); else if (missing == 2) simfs::truncate_file(victim, (long long)sim::choose((uint32_t)saved.size() + 1)); else { string b = saved; if (b.size()) for (int i = 0; i < 8; i++) b[sim::choose((uint32_t)b.size())] ^= (char)(1 + sim::choose(255)); simfs::spew(victim, b); } sim::sample("damage %d %s ", missing, victim.c_str()); sim::count(missing == 1 ? "fault.file_gone" : missing == 2 ? "fault.file_cut" : "fault.file_garbled"); }
    else draw_fault(false, w2);
    simfs::arm(); vector<int> ok(w2.n, 0);
    mesh::run(w2, [&](int r) { quiet_logs(); try { load_one(j, named, form, *ms[r], w2.comm); ok[r] = 1; } catch (const std::exception &e) { sim::trace_only("rank %d: %s", r, e.what()); } });
    simfs::disarm(); simfs::cfg = simfs::Config(); quiet_logs();
    int good = 0; for (int x : ok) good += x;
    sim::count(good == w2.n ? "probe.load_ok" : good == 0 ? "probe.reported_everywhere" : "probe.reported_on_some");
    if (missing <= 1 || (missing == 2 && wh.proto != "yaml")) for (int r = 0; r < w2.n; r++) if (ok[r]) {
        std::map<string, string> got; add(wh, *ms[r], got, r);
        if ((int)got.size() != share[r]) sim::fail("lost", "a load with a fault succeeded on rank %d with %zu of %d domains", r, got.size(), share[r]);
        for (auto &kv : got) { int id = atoi(kv.first.c_str() + 7); if (id < 0 || id >= j.total || kv.second != j.want[id]) sim::fail("content", "a load with a fault succeeded on rank %d with a wrong %s: %s", r, kv.first.c_str(), id >= 0 && id < j.total ? gen::diff(j.want[id], kv.second).c_str() : ""); }
    }
    if (missing) { if (missing == 1 || missing == 2 || missing == 3) simfs::spew(victim, saved); }
    load_serial(wh, j, true); load_parallel(wh, j, true, w2);
}
// nothing to be found: every rank says so
SCENARIO(C14, bad_root, 1) {
    mesh::World w = mesh::draw_world(4); Where wh = draw_where(); Job j = draw_job(w, wh, 3);
    sim::draw_schedule_config(w.total); quiet_logs(); simfs::cfg = simfs::Config(); simfs::cfg.yields = sim::chance(1, 2);
    save_again(wh, j, w, "without a fault");
    int kind = (int)sim::choose(4); Job b = j; string saved = simfs::slurp(j.root); bool named = false;
    switch (kind) {
    case 0: b.root = sim::pick(vector<string>{"nowhere.root", "nowhere/x.root", "none.cycle_000042.root"}); break;
    case 1: b.name = sim::pick(vector<string>{"mush", "mesh2", "oth"}); named = true; break;
    case 2: simfs::spew(j.root, ""); break;
    default: if (wh.proto == "hdf5") simfs::spew(j.root, "some text\n"); else simfs::spew(j.root, wh.proto == "yaml" ? "a: 1\n" : "{\"a\": 1}\n");
    }
    mesh::World w2 = mesh::draw_world(5); int form = (int)sim::choose(2); vector<int> ok(w2.n, 0); vector<std::unique_ptr<Node>> ms; for (int i = 0; i < w2.n; i++) ms.emplace_back(new Node);
    mesh::run(w2, [&](int r) { quiet_logs(); try { load_one(b, named, form, *ms[r], w2.comm); ok[r] = 1; } catch (const Error &e) { sim::trace_only("rank %d: %s", r, e.what()); } });
    for (int r = 0; r < w2.n; r++) if (ok[r]) sim::fail("bad-root", "rank %d loads %s without an error", r, kind == 0 ? "a root file that is not there" : kind == 1 ? "a mesh that is not in the file" : "a root file without a mesh");
    sim::count("probe.bad_root");
    if (kind >= 2) simfs::spew(j.root, saved);
    load_serial(wh, j, true); load_parallel(wh, j, true, w2);
}
