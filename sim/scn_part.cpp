// C07: partitioning of distributed meshes and mapping fields back.
#include "mesh.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include <cmath>
#include <memory>
using namespace conduit;
using std::string; using std::vector;
namespace bm = conduit::blueprint::mpi::mesh;
namespace {
struct Sel { int dom; vector<int> elems; Node n; };     // elements of one selection
typedef std::pair<long, long> DE;                       // domain index, local element

struct Setup {
    mesh::World w; mesh::Spec s; mesh::Placement p; mesh::Atlas A;
    vector<Node *> opts;                // per rank
    std::set<DE> want;                  // selected elements
    bool field_sel = false, vids = false; std::map<DE, long> part; vector<int> dest; bool have_dest = false;
    int nsel = 0, target = 0; bool mapping = true, limit = false, noids = false; std::set<string> only;
    long total() const { return (long)want.size(); }
};
bool structured_kind(int k) { return k == mesh::UNIFORM || k == mesh::RECTILINEAR || k == mesh::STRUCTURED; }

void quiet(const string &, const string &, int) {}
void draw_selections(Setup &q, bool whole_only, bool back) {
    mesh::Spec &s = q.s;
    int mode = whole_only ? 0 : (int)sim::choose(3);             // 0 no selections, 1 lists, 2 field
    Node sels; vector<int> sel_dom; bool per_rank = sim::chance(1, 2);
    if (mode == 0) {
        for (int d = 0; d < s.ndom(); d++) for (size_t e = 0; e < q.A.L[d].eg.size(); e++) q.want.insert({d, e});
        q.nsel = s.ndom(); sim::sample("whole ");
    } else if (mode == 1) {
        sim::sample("sel[");
        for (int d = 0; d < s.ndom(); d++) {
            if (sim::chance(1, 6)) continue;
            const mesh::Block &b = s.blocks[d]; int ne = (int)q.A.L[d].eg.size();
            vector<int> left; for (int e = 0; e < ne; e++) left.push_back(e);
            int parts = sim::range(1, 2);
            for (int k = 0; k < parts && !left.empty(); k++) {
                Node n; vector<int> take; int type = (int)sim::choose(3);
                if (type == 2 && !(structured_kind(s.kinds[d]) && k == 0)) type = (int)sim::choose(2);
                if (type == 0) {                     // explicit, any order
                    vector<int> p = sim::permutation((int)left.size()); int c = sim::chance(1, 3) ? (int)left.size() : sim::range(1, (int)left.size());
                    for (int i = 0; i < c; i++) take.push_back(left[p[i]]);
                    if (sim::chance(1, 2)) std::sort(take.begin(), take.end());
                    n["type"] = "explicit"; if (sim::chance(1, 2)) { vector<int64> v(take.begin(), take.end()); n["elements"].set(v); } else { vector<int32> v(take.begin(), take.end()); n["elements"].set(v); }
                    sim::sample("%d:explicit%zu ", s.ids[d], take.size());
                } else if (type == 1) {              // ranges of what is left
                    int nr = sim::range(1, 3); vector<int64> r; std::set<int> L(left.begin(), left.end());
                    for (int i = 0; i < nr && !L.empty(); i++) {
                        auto it = L.begin(); std::advance(it, sim::choose((uint32_t)L.size())); int a = *it, z = a; int len = sim::range(1, ne);
                        while (z + 1 < ne && z + 1 - a < len && L.count(z + 1)) z++;
                        for (int e = a; e <= z; e++) { L.erase(e); take.push_back(e); }
                        r.push_back(a); r.push_back(z);
                    }
                    n["type"] = "ranges"; if (sim::chance(1, 2)) n["ranges"].set(r); else { vector<int32> v(r.begin(), r.end()); n["ranges"].set(v); }
                    sim::sample("%d:ranges%zu ", s.ids[d], r.size() / 2);
                } else {                             // logical box, possibly beyond the mesh
                    int64 lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}, cl[3];
                    int m[3]; for (int a = 0; a < 3; a++) m[a] = a < s.dim ? b.hi[a] - b.lo[a] : 1;
                    for (int a = 0; a < 3; a++) { lo[a] = a < s.dim ? (int64)sim::choose((uint32_t)m[a]) : 0; hi[a] = lo[a] + (int64)sim::choose(4); cl[a] = std::min<int64>(hi[a], m[a] - 1); }
                    for (int64 kk = lo[2]; kk <= cl[2]; kk++) for (int64 j = lo[1]; j <= cl[1]; j++) for (int64 i = lo[0]; i <= cl[0]; i++) take.push_back((int)(i + m[0] * (j + m[1] * kk)));
                    n["type"] = "logical"; n["start"].set(lo, 3); n["end"].set(hi, 3);
                    sim::sample("%d:logical%zu ", s.ids[d], take.size());
                }
                n["domain_id"] = s.ids[d]; if (sim::chance(1, 2)) n["topology"] = s.topo;
                for (int e : take) { left.erase(std::find(left.begin(), left.end(), e)); q.want.insert({d, e}); }
                sels.append().set(n); sel_dom.push_back(d); q.nsel++;
            }
        }
        sim::sample("] ");
        if (sel_dom.empty()) sels.set(DataType::list());
    } else {
        q.field_sel = true; int nv = sim::range(1, 5); bool sparse = sim::chance(1, 3), blocky = sim::chance(1, 3);
        vector<int> vals; for (int i = 0; i < nv; i++) vals.push_back(sparse ? 3 * i + (int)sim::choose(3) : i);
        bool any = sim::chance(2, 3); std::set<int> chosen; for (int d = 0; d < s.ndom(); d++) if (any || sim::chance(1, 2)) chosen.insert(d);
        for (int r = 0; r < q.w.n; r++) for (size_t k = 0; k < q.p.doms[r].size(); k++) {
            int d = q.p.doms[r][k]; Node &m = *q.p.local[r]; Node &dom = m.has_child("coordsets") ? m : m.child(k);
            vector<int64> f; for (size_t e = 0; e < q.A.L[d].eg.size(); e++) { int v = vals[blocky ? d % nv : (int)sim::choose(nv)]; f.push_back(v); if (chosen.count(d)) { q.part[{d, e}] = v; q.want.insert({d, e}); } }
            Node &fn = dom["fields/part"]; fn["association"] = "element"; fn["topology"] = s.topo; if (sim::chance(1, 2)) fn["values"].set(f); else { vector<int32> v(f.begin(), f.end()); fn["values"].set(v); }
        }
        q.have_dest = sim::chance(1, 2); if (q.have_dest) { int n = sim::range(1, 4); for (int i = 0; i < n; i++) q.dest.push_back((int)sim::choose(q.w.n + 2)); }
        auto one = [&](int d) { Node n; n["type"] = "field"; n["field"] = "part"; if (sim::chance(1, 2)) n["topology"] = s.topo; if (d < 0) n["domain_id"] = "any"; else n["domain_id"] = s.ids[d]; if (q.have_dest) n["destination_ranks"].set(q.dest); sels.append().set(n); sel_dom.push_back(d); };
        if (any) one(-1); else for (int d : chosen) one(d);
        if (sel_dom.empty()) sels.set(DataType::list());
        std::set<long> v; for (auto &kv : q.part) v.insert(kv.second); q.nsel = (int)v.size();
        sim::sample("field%d%s%s ", nv, any ? " any" : "", q.have_dest ? " dest" : "");
    }
    // target
    if (sim::chance(2, 3)) {
        long hi = q.total() ? std::min<long>(q.total(), q.nsel + 4) : 3;
        q.target = sim::chance(1, 10) ? (int)q.total() + sim::range(1, 3) : sim::range(1, (int)hi);
        sim::sample("target=%d of %ld ", q.target, q.total());
    }
    q.mapping = back || !sim::chance(1, 5);
    bool map_opt = !q.mapping || sim::chance(1, 2), tol = sim::chance(1, 4);
    vector<string> names{"gid", "vgid", "evec", "vval", "sparse_0", "sparse_1", "part"};
    q.limit = !back && sim::chance(1, 4); if (q.limit) { for (auto &x : names) if (sim::chance(1, 2)) q.only.insert(x); if (q.only.empty()) q.limit = false; }
    int trank = (int)sim::choose(4 * q.w.n);       // the target may be given by one rank only, or others may give smaller ones
    for (int r = 0; r < q.w.n; r++) {
        Node *o = new Node; Node &op = *o; q.opts.push_back(o);
        if (mode) { op["selections"].set(DataType::list()); for (index_t i = 0; i < sels.number_of_children(); i++) if (!per_rank || sel_dom[i] < 0 || q.p.rank_of[sel_dom[i]] == r) op["selections"].append().set(sels.child(i)); }
        if (q.target && (trank >= q.w.n || trank == r)) { int t = trank < 3 * q.w.n || trank == 3 * q.w.n + r ? q.target : sim::range(1, q.target); if (r % 2) op["target"] = (int64)t; else op["target"] = t; }
        if (map_opt) op["mapping"] = q.mapping ? 1 : 0;
        if (tol) op["merge_tolerance"] = 1e-6;
        if (q.limit) for (auto &x : q.only) op["fields"].append() = x;
        gen::log(op);
    }
}
bool has_field(const Setup &q, const string &f, int d) {
    if (f == "part") return q.field_sel;
    if (!q.s.fields || q.s.nofields.count(d)) return false;
    if (f.compare(0, 7, "sparse_") == 0) { size_t i = (size_t)atoi(f.c_str() + 7); return i < q.s.sparse.size() && std::count(q.s.sparse[i].begin(), q.s.sparse[i].end(), d); }
    return true;
}
// checks one output domain; returns its elements
vector<DE> check_domain(Setup &q, const Node &dom, int rank, std::set<long> &ids) {
    const mesh::Spec &s = q.s;
    Node info; if (!blueprint::mesh::verify(dom, info)) sim::fail("invalid", "rank %d: an output domain is not a valid mesh: %s", rank, info.to_json().substr(0, 2000).c_str());
    if (!dom.has_path("state/domain_id")) sim::fail("domain-id", "rank %d: an output domain has no id", rank);
    long id = dom["state/domain_id"].to_int64(); if (!ids.insert(id).second) sim::fail("domain-id", "domain id %ld is used twice", id);
    mesh::Geo g = mesh::read(dom, s.topo);
    vector<long> vg; std::set<long> seenv; std::map<long, int> usedv;
    vector<DE> out; std::set<int> src;
    for (size_t v = 0; v < g.v.size(); v++) {
        auto it = q.A.vert.find(g.v[v]);
        if (it == q.A.vert.end()) sim::fail("vertices", "domain %ld vertex %zu at (%g, %g, %g) is no vertex of the input", id, v, g.v[v][0], g.v[v][1], g.v[v][2]);
        vg.push_back(it->second);
        if (!seenv.insert(it->second).second) sim::fail("vertices", "domain %ld has a vertex twice, at (%g, %g, %g)", id, g.v[v][0], g.v[v][1], g.v[v][2]);
    }
    for (size_t e = 0; e < g.e.size(); e++) {
        std::set<long> k; for (int v : g.e[e]) { k.insert(vg[v]); usedv[vg[v]]++; }
        auto it = q.A.elem.find(k);
        if (it == q.A.elem.end()) sim::fail("elements", "domain %ld element %zu is no element of the input", id, e);
        out.push_back({it->second[1], it->second[2]}); src.insert((int)it->second[1]);
    }
    if (usedv.size() != seenv.size()) sim::fail("vertices", "domain %ld has %zu vertices, its elements use %zu", id, seenv.size(), usedv.size());
    // fields
    const Node *F = dom.has_child("fields") ? &dom["fields"] : nullptr;
    for (string f : {"gid", "vgid", "evec", "vval", "sparse_0", "sparse_1", "part"}) {
        bool all = true, some = false; for (int d : src) { bool h = has_field(q, f, d); all &= h; some |= h; }
        if (q.limit && !q.only.count(f)) all = some = false;
        bool has = F && F->has_child(f);
        if (all && !has) sim::fail("field-lost", "domain %ld has no field %s although every source domain has it", id, f.c_str());
        if (!some && has) sim::fail("field-extra", "domain %ld has a field %s that was not asked for or does not exist in the sources", id, f.c_str());
        if (!has) continue;
        const Node &fn = (*F)[f]; bool el = f == "gid" || f == "evec" || f == "sparse_0" || f == "part";
        if (fn["association"].as_string() != (el ? "element" : "vertex") || fn["topology"].as_string() != s.topo) sim::fail("field", "field %s has association %s and topology %s", f.c_str(), fn["association"].as_string().c_str(), fn["topology"].as_string().c_str());
        vector<double> x, y; if (f == "evec") { x = mesh::numbers(fn["values/u"]); y = mesh::numbers(fn["values/v"]); } else x = mesh::numbers(fn["values"]);
        size_t n = el ? g.e.size() : g.v.size(); if (x.size() != n || (f == "evec" && y.size() != n)) sim::fail("field", "field %s of domain %ld has %zu values for %zu places", f.c_str(), id, x.size(), n);
        for (size_t i = 0; i < n; i++) {
            long key = el ? q.A.L[out[i].first].eg[out[i].second] : vg[i]; double w = f == "gid" || f == "vgid" ? (double)key : f == "evec" ? mesh::efield(key) : f == "vval" ? mesh::vfield(key) : f == "part" ? (double)q.part[out[i]] : f == "sparse_0" ? 1000.0 + key : 2000.0 + key;
            if (x[i] != w || (f == "evec" && y[i] != -w)) sim::fail("field", "field %s of domain %ld place %zu is %.17g, the source had %.17g", f.c_str(), id, i, x[i], w);
        }
    }
    bool allf = true; for (int d : src) allf &= q.s.fields && !q.s.nofields.count(d); if (q.field_sel) allf = true;
    if (q.mapping && allf) {
        if (!F || !F->has_child("original_element_ids") || !F->has_child("original_vertex_ids")) sim::fail("mapping", "domain %ld has no original ids", id);
        vector<long> ed = mesh::ints((*F)["original_element_ids/values/domains"]), ei = mesh::ints((*F)["original_element_ids/values/ids"]);
        if (ed.size() != g.e.size() || ei.size() != ed.size()) sim::fail("mapping", "domain %ld: %zu original element ids for %zu elements", id, ei.size(), g.e.size());
        for (size_t e = 0; e < g.e.size(); e++) if (ed[e] != s.ids[out[e].first] || ei[e] != out[e].second) sim::fail("mapping", "domain %ld element %zu claims to be element %ld of domain %ld, it is element %ld of domain %d", id, e, ei[e], ed[e], out[e].second, s.ids[out[e].first]);
        vector<long> vd = mesh::ints((*F)["original_vertex_ids/values/domains"]), vi = mesh::ints((*F)["original_vertex_ids/values/ids"]);
        if (vd.size() != g.v.size() || vi.size() != vd.size()) sim::fail("mapping", "domain %ld: %zu original vertex ids for %zu vertices", id, vi.size(), g.v.size());
        for (size_t v = 0; v < vd.size(); v++) { int d = (int)(std::find(s.ids.begin(), s.ids.end(), (int)vd[v]) - s.ids.begin()); if (d >= s.ndom() || vi[v] < 0 || vi[v] >= (long)q.A.L[d].vg.size() || q.A.L[d].vg[vi[v]] != vg[v]) sim::fail("mapping", "domain %ld vertex %zu claims to be vertex %ld of domain %ld, which is elsewhere", id, v, vi[v], vd[v]); }
    }
    return out;
}
void check_all(Setup &q, const vector<Node> &outs) {
    std::map<DE, int> count; std::set<long> ids; long ndom = 0;
    for (int r = 0; r < q.w.n; r++) for (auto *d : mesh::domains(outs[r])) {
        ndom++; auto es = check_domain(q, *d, r, ids); long id = (*d)["state/domain_id"].to_int64();
        if (es.empty()) sim::fail("empty-domain", "rank %d holds an output domain without elements", r);
        for (auto &e : es) count[e]++;
        if (q.field_sel && q.target <= q.nsel) for (auto &e : es) {
            if (q.part[e] != id) sim::fail("field-partition", "element %ld of domain %d has part %ld and went to domain %ld", e.second, q.s.ids[e.first], q.part[e], id);
            if (q.have_dest && q.dest[id % q.dest.size()] % q.w.n != r) sim::fail("field-partition", "domain %ld should be on rank %d and is on rank %d", id, q.dest[id % q.dest.size()] % q.w.n, r);
        }
    }
    for (auto &kv : count) {
        if (!q.want.count(kv.first)) sim::fail("extra-element", "element %ld of domain %d is in the output but was not selected", kv.first.second, q.s.ids[kv.first.first]);
        if (kv.second > 1) sim::fail("duplicate-element", "element %ld of domain %d is in the output %d times", kv.first.second, q.s.ids[kv.first.first], kv.second);
    }
    for (auto &e : q.want) if (!count.count(e)) sim::fail("lost-element", "selected element %ld of domain %d is not in the output", e.second, q.s.ids[e.first]);
    long wantn = !q.total() ? 0 : q.target ? std::min<long>(q.target, q.total()) : q.nsel;
    if (q.field_sel && q.target > q.nsel) { if (ndom < q.nsel || ndom > q.target) sim::fail("domain-count", "the result has %ld domains, expected %d to %d", ndom, q.nsel, q.target); }
    else if (q.field_sel) { if (ndom != q.nsel) sim::fail("domain-count", "the result has %ld domains, the field names %d", ndom, q.nsel); }
    else if (ndom != wantn) sim::fail("domain-count", "the result has %ld domains, expected %ld", ndom, wantn);
}
std::shared_ptr<Setup> draw_setup(bool whole_only, bool fields_always, bool adj, bool back = false) {
    utils::set_warning_handler(quiet); utils::set_info_handler(quiet);
    auto Q = std::make_shared<Setup>(); Setup &q = *Q;
    q.w = mesh::draw_world(4);
    mesh::Opt o; o.gaps = sim::chance(1, 2); o.adjset = adj; o.uniform_kind = sim::chance(3, 4); o.maxn2 = 5; o.maxn3 = 3; if (adj) o.kinds = {mesh::QUADHEX, mesh::TRITET};
    q.s = mesh::draw(o);
    if (!fields_always) { q.s.fields = !sim::chance(1, 8); if (q.s.ndom() > 1 && sim::chance(1, 6)) q.s.nofields.insert((int)sim::choose(q.s.ndom())); }
    q.p = mesh::place(q.s, q.w.n);
    if (!adj && sim::chance(1, 8)) {                       // domains without ids are numbered in rank order
        int n = 0; sim::sample("noids ");
        for (int r = 0; r < q.w.n; r++) for (size_t k = 0; k < q.p.doms[r].size(); k++) { Node &m = *q.p.local[r]; Node &dom = m.has_child("coordsets") ? m : m.child(k); if (dom.has_path("state/domain_id")) { dom["state"].remove("domain_id"); if (!dom["state"].number_of_children()) dom.remove("state"); } q.s.ids[q.p.doms[r][k]] = n++; }
    }
    q.A = mesh::atlas(q.s);
    q.vids = back && sim::chance(2, 3);
    if (q.vids) for (int r = 0; r < q.w.n; r++) for (size_t k = 0; k < q.p.doms[r].size(); k++) {
        Node &m = *q.p.local[r]; Node &dom = m.has_child("coordsets") ? m : m.child(k);
        Node &f = dom["fields/global_vertex_ids"]; f["association"] = "vertex"; f["topology"] = q.s.topo; vector<int64> v; for (long g : q.A.L[q.p.doms[r][k]].vg) v.push_back(g);
        f["values"].set(v);
    }
    draw_selections(q, whole_only, back);
    return Q;
}
} // namespace
SCENARIO(C07, partition, 3) {
    auto Q = draw_setup(false, false, false); Setup &q = *Q;
    vector<Node> outs(q.w.n); for (auto &n : outs) if (sim::chance(1, 3)) { n["old"] = 1; n["coordsets/x"] = 2; }
    vector<string> before(q.w.n); for (int r = 0; r < q.w.n; r++) before[r] = gen::canon(*q.p.local[r]);
    mesh::run(q.w, [&](int me) {
        bm::partition(*q.p.local[me], *q.opts[me], outs[me], q.w.comm);
        if (gen::canon(*q.p.local[me]) != before[me]) sim::fail("input-changed", "rank %d: partition changed its input", me);
    });
    check_all(q, outs);
}
namespace {
// values for the fields mapped back: any function of the element or the vertex
double eval_of(long dom, long e, int k) { return 5000.0 + 64.0 * dom + 4.0 * e + k; }
double vval_of(long vg, int k) { return 900.0 - 3.0 * vg + k; }
void put(Node &vals, const vector<double> &x, int type) {
    if (type == 0) vals.set(x); else if (type == 1) { vector<float> v(x.begin(), x.end()); vals.set(v); } else if (type == 2) { vector<int64> v(x.begin(), x.end()); vals.set(v); } else { vector<int32> v(x.begin(), x.end()); vals.set(v); }
}
}
SCENARIO(C07, map_back, 2) {
    auto Q = draw_setup(false, true, false, true); Setup &q = *Q; mesh::Spec &s = q.s;
    // what is mapped back
    struct F { string name; bool vertex; int comps, type, was; };   // was: 0 absent, 1 there, 2 there in external memory, 3 there with another type
    vector<F> fs; bool vert = q.vids && sim::chance(2, 3);
    int ne = sim::range(vert ? 0 : 1, 2); for (int i = 0; i < ne; i++) fs.push_back({"e" + std::to_string(i), false, (int)sim::choose(3), (int)sim::choose(4), (int)sim::choose(4)});
    if (vert) { int nv = sim::range(1, 2); for (int i = 0; i < nv; i++) fs.push_back({"v" + std::to_string(i), true, (int)sim::choose(3), (int)sim::choose(4), (int)sim::choose(4)}); }
    const char *cn[] = {"x", "y"};
    std::map<string, vector<double> *> store;                      // external memory
    auto oldv = [](int d, long i, int c) { return -100.0 - 50 * d - 2 * i - c; };
    vector<Node *> doms(s.ndom());
    for (int r = 0; r < q.w.n; r++) for (size_t k = 0; k < q.p.doms[r].size(); k++) { Node &m = *q.p.local[r]; doms[q.p.doms[r][k]] = m.has_child("coordsets") ? &m : &m.child(k); }
    for (int d = 0; d < s.ndom(); d++) for (auto &f : fs) {
        if (!f.was) continue;
        Node &fn = (*doms[d])["fields"][f.name]; fn["association"] = f.vertex ? "vertex" : "element"; fn["topology"] = s.topo;
        size_t n = f.vertex ? q.A.L[d].vg.size() : q.A.L[d].eg.size();
        for (int c = 0; c < std::max(1, f.comps); c++) {
            vector<double> x; for (size_t i = 0; i < n; i++) x.push_back(oldv(d, i, c));
            Node &v = f.comps ? fn["values"][cn[c]] : fn["values"];
            if (f.was == 2 && f.type == 0) { auto *m = new vector<double>(x); store[f.name + std::to_string(d) + "/" + std::to_string(c)] = m; v.set_external(*m); }
            else put(v, x, f.was == 3 ? (f.type + 2) % 4 : f.type);
        }
    }
    vector<string> before(s.ndom());
    auto rest = [&](int d) { Node n; n.set(*doms[d]); if (n.has_child("fields")) { for (auto &f : fs) if (n["fields"].has_child(f.name)) n["fields"].remove(f.name); if (!n["fields"].number_of_children()) n.remove("fields"); } return gen::canon(n); };
    for (int d = 0; d < s.ndom(); d++) before[d] = rest(d);
    vector<Node> outs(q.w.n), mopts(q.w.n);
    std::map<DE, int> got; std::map<int, std::set<long>> vmust, vany;
    auto fill_out = [&](int me) {                                 // new values on the partitioned mesh
        for (auto *cd : mesh::domains(outs[me])) {
            Node &dom = *const_cast<Node *>(cd); mesh::Geo g = mesh::read(dom, s.topo); vector<long> vg; vector<DE> es; std::set<int> src;
            for (auto &p : g.v) { auto it = q.A.vert.find(p); if (it == q.A.vert.end()) sim::fail("vertices", "an output vertex is no vertex of the input"); vg.push_back(it->second); }
            for (auto &e : g.e) { std::set<long> k; for (int v : e) k.insert(vg[v]); auto it = q.A.elem.find(k); if (it == q.A.elem.end()) sim::fail("elements", "an output element is no element of the input"); es.push_back({it->second[1], it->second[2]}); src.insert((int)it->second[1]); }
            for (auto &e : es) { got[e]++; for (int v : q.A.L[e.first].conn[e.second]) vmust[(int)e.first].insert(q.A.L[e.first].vg[v]); }
            for (int d : src) for (long v : vg) vany[d].insert(v);
            for (auto &f : fs) {
                if (dom["fields"].has_child(f.name)) dom["fields"].remove(f.name);
                Node &fn = dom["fields"][f.name]; fn["association"] = f.vertex ? "vertex" : "element"; fn["topology"] = s.topo;
                for (int c = 0; c < std::max(1, f.comps); c++) { vector<double> x; if (f.vertex) for (long v : vg) x.push_back(vval_of(v, c)); else for (auto &e : es) x.push_back(eval_of(e.first, e.second, c)); put(f.comps ? fn["values"][cn[c]] : fn["values"], x, f.type); }
            }
        }
    };
    for (auto &n : mopts) for (auto &f : fs) n["fields"].append() = f.name;
    mesh::run(q.w, [&](int me) {
        bm::partition(*q.p.local[me], *q.opts[me], outs[me], q.w.comm);
        fill_out(me);
        bm::partition_map_back(outs[me], mopts[me], *q.p.local[me], q.w.comm);
    });
    for (int d = 0; d < s.ndom(); d++) {
        if (rest(d) != before[d]) sim::fail("mapback-other", "mapping back changed something else of domain %d", s.ids[d]);
        bool touched = false; for (size_t e = 0; e < q.A.L[d].eg.size(); e++) touched |= got.count({d, (long)e}) > 0;
        for (auto &f : fs) {
            bool has = doms[d]->has_child("fields") && (*doms[d])["fields"].has_child(f.name);
            if (!has) { if (touched || f.was) sim::fail("mapback-lost", "domain %d has no field %s after mapping it back", s.ids[d], f.name.c_str()); continue; }
            const Node &fn = (*doms[d])["fields"][f.name]; size_t n = f.vertex ? q.A.L[d].vg.size() : q.A.L[d].eg.size();
            for (int c = 0; c < std::max(1, f.comps); c++) {
                vector<double> x = mesh::numbers(f.comps ? fn["values"][cn[c]] : fn["values"]);
                if (x.size() != n) sim::fail("mapback-size", "field %s of domain %d has %zu values for %zu places", f.name.c_str(), s.ids[d], x.size(), n);
                for (size_t i = 0; i < n; i++) {
                    double o = f.was ? oldv(d, i, c) : 0, w = f.vertex ? vval_of(q.A.L[d].vg[i], c) : eval_of(d, i, c);
                    bool must = f.vertex ? vmust[d].count(q.A.L[d].vg[i]) > 0 : got.count({d, (long)i}) > 0, may = must || (f.vertex && vany[d].count(q.A.L[d].vg[i]));
                    if (must ? x[i] != w : may ? x[i] != w && x[i] != o : x[i] != o) sim::fail("mapback", "field %s of domain %d place %zu is %.17g after mapping back, expected %.17g", f.name.c_str(), s.ids[d], i, x[i], must ? w : o);
                }
                auto it = store.find(f.name + std::to_string(d) + "/" + std::to_string(c));
                if (it != store.end()) for (size_t i = 0; i < n; i++) if ((*it->second)[i] != x[i]) sim::fail("mapback-memory", "field %s of domain %d was not mapped back into the application's memory", f.name.c_str(), s.ids[d]);
            }
        }
    }
    for (auto &kv : store) delete kv.second;
}
SCENARIO(C07, partition_adjset, 1) {
    auto Q = draw_setup(sim::chance(1, 2), false, true); Setup &q = *Q;
    bool off = sim::chance(1, 8), on = sim::chance(1, 2); for (auto *o : q.opts) if (off || on) (*o)["build_adjsets"] = off ? 0 : 1;
    vector<Node> outs(q.w.n);
    mesh::run(q.w, [&](int me) { bm::partition(*q.p.local[me], *q.opts[me], outs[me], q.w.comm); });
    check_all(q, outs);
    if (off) return;
    std::map<long, const Node *> doms; std::map<long, vector<long>> ent;
    for (int r = 0; r < q.w.n; r++) for (auto *d : mesh::domains(outs[r])) { long id = (*d)["state/domain_id"].to_int64(); doms[id] = d; mesh::Geo g = mesh::read(*d, q.s.topo); for (auto &p : g.v) ent[id].push_back(q.A.vert[p]); }
    mesh::check_adjset(doms, "adj", "vertex", q.s.topo, ent);
}
// a selection that cannot be used, on some ranks only: nobody hangs, and partitioning works afterwards
SCENARIO(C07, partition_bad, 1) {
    auto Q = draw_setup(false, false, sim::chance(1, 4)); Setup &q = *Q;
    vector<Node> outs(q.w.n), bad(q.w.n); int kind = (int)sim::choose(3), n = 0;
    for (int r = 0; r < q.w.n; r++) {
        bad[r].set(*q.opts[r]); if (!(sim::chance(1, 2) || (r == q.w.n - 1 && !n))) continue;
        n++; if (!bad[r].has_child("selections")) bad[r]["selections"].set(DataType::list());
        Node &b = bad[r]["selections"].append(); b["domain_id"] = "any";
        if (kind == 0) b["type"] = "no_such_selection"; else if (kind == 1) { b["type"] = "explicit"; b["domain_id"] = 0; } else { b["type"] = "field"; b["field"] = 3; }
    }
    sim::sample("bad=%d kind=%d ", n, kind);
    vector<int> threw(q.w.n);
    mesh::run(q.w, [&](int me) {
        Node tmp; try { bm::partition(*q.p.local[me], bad[me], tmp, q.w.comm); } catch (conduit::Error &) { threw[me] = 1; }
        bm::partition(*q.p.local[me], *q.opts[me], outs[me], q.w.comm);
    });
    for (int r = 1; r < q.w.n; r++) if (threw[r] != threw[0]) sim::fail("bad-selection", "a bad selection raised an error on rank %d but not on rank %d", threw[r] ? r : 0, threw[r] ? 0 : r);
    check_all(q, outs);
}
