// C11: graph partitioning of distributed meshes. ParMETIS sits behind a seam: it runs for real over the simulated MPI, or
// is replaced by a partitioner that answers with any valid assignment. Its inputs are checked either way.
#include "mesh.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include "conduit_blueprint_mpi_mesh_parmetis.hpp"
#include <dlfcn.h>
#include <parmetis.h>
using namespace conduit;
using std::string; using std::vector;
namespace bm = conduit::blueprint::mpi::mesh;
namespace sm = conduit::blueprint::mesh;
namespace {
struct Call { vector<long> eldist, eptr, eind, part; long nparts = 0, common = 0; int calls = 0; };
void *volatile keep_linked = (void *)&ParMETIS_V3_PartKway;      // the library stays a dependency
struct Spy { bool on = false; int mode = 0; unsigned salt = 0; std::map<int, Call> by_rank; } spy;   // mode 0: real, 1: any answer, 2: fails
}
extern "C" int ParMETIS_V3_PartMeshKway(idx_t *elmdist, idx_t *eptr, idx_t *eind, idx_t *elmwgt, idx_t *wgtflag, idx_t *numflag, idx_t *ncon, idx_t *ncommon,
                                        idx_t *nparts, real_t *tpwgts, real_t *ubvec, idx_t *options, idx_t *edgecut, idx_t *part, MPI_Comm *comm) {
    int me, n; MPI_Comm_rank(*comm, &me); MPI_Comm_size(*comm, &n);
    Call &c = spy.by_rank[me]; c.calls++;
    c.eldist.assign(elmdist, elmdist + n + 1); c.nparts = *nparts; c.common = *ncommon;
    long ne = elmdist[me + 1] - elmdist[me];
    if (ne > 0) { c.eptr.assign(eptr, eptr + ne + 1); c.eind.assign(eind, eind + eptr[ne]); } else { c.eptr.assign(1, 0); c.eind.clear(); }
    if (*wgtflag != 0 || *numflag != 0 || *ncon != 1 || elmwgt) sim::fail("input", "rank %d passes flags the partitioner takes differently", me);
    real_t sum = 0; for (long i = 0; i < *nparts; i++) sum += tpwgts[i];
    if (sum < 0.98 || sum > 1.02) sim::fail("input", "rank %d: the target weights sum to %g", me, (double)sum);
    int rc = METIS_OK;
    if (spy.mode == 0) {
        typedef decltype(&ParMETIS_V3_PartMeshKway) F; static F real = (F)dlsym(RTLD_NEXT, "ParMETIS_V3_PartMeshKway");
        rc = real(elmdist, eptr, eind, elmwgt, wgtflag, numflag, ncon, ncommon, nparts, tpwgts, ubvec, options, edgecut, part, comm);
        sim::count(rc == METIS_OK ? "probe.parmetis" : "probe.parmetis_declined");
    } else {
        MPI_Barrier(*comm);
        if (spy.mode == 2) rc = METIS_ERROR;
        else for (long i = 0; i < ne; i++) { uint64_t h = (uint64_t)(elmdist[me] + i) * 2654435761u + spy.salt; h ^= h >> 13; h *= 0x9E3779B97F4A7C15ull; part[i] = (idx_t)((h >> 33) % (uint64_t)*nparts); }
        MPI_Barrier(*comm);
    }
    c.part.assign(part, part + ne);
    return rc;
}
namespace {
void quiet(const string &, const string &, int) {}
void run_graph(bool real) {
    utils::set_info_handler(quiet);
    mesh::World w = mesh::draw_world(4); mesh::Opt o; o.kinds = {mesh::QUADHEX, mesh::TRITET}; o.adjset = sim::chance(3, 4); o.irregular = true; o.gaps = sim::chance(1, 4); o.maxn2 = 5; o.maxn3 = 3;
    mesh::Spec s = mesh::draw(o); mesh::Placement p = mesh::place(s, w.n);
    vector<mesh::Dom> L; for (int d = 0; d < s.ndom(); d++) L.push_back(mesh::layout(s, d));
    bool poly = sim::chance(1, 6);
    auto dom_of = [&](int d) -> Node & { int r = p.rank_of[d]; Node &m = *p.local[r]; if (m.has_child("coordsets")) return m; for (size_t k = 0; k < p.doms[r].size(); k++) if (p.doms[r][k] == d) return m.child(k); sim::harness_error("no such domain"); };
    if (poly) for (int d = 0; d < s.ndom(); d++) { Node &n = dom_of(d); Node t; sm::topology::unstructured::to_polytopal(n["topologies"][s.topo], t); n["topologies"][s.topo].set(t); }
    std::set<int> noadj; if (s.adjset && sim::chance(1, 4)) for (int d = 0; d < s.ndom(); d++) { Node &n = dom_of(d); if (n["adjsets/adj/groups"].number_of_children() == 0) { n.remove("adjsets"); noadj.insert(d); } }
    // adjsets which leave out neighbours at corners: ids stay valid, but need not agree
    bool partial = s.adjset && s.adj_style == 0 && s.dim == 2 && sim::chance(1, 6);
    if (partial) for (int d = 0; d < s.ndom(); d++) { Node &n = dom_of(d); if (!n.has_child("adjsets")) continue; Node &g = n["adjsets/adj/groups"]; for (index_t i = g.number_of_children(); i-- > 0;) if (g.child(i)["values"].dtype().number_of_elements() == 1) g.remove(i); }
    Node opts; bool use_adj = s.adjset && sim::chance(5, 6); int parts = 0, common = 0; string pre;
    if (sim::chance(1, 2)) opts["topology"] = s.topo;
    if (use_adj) opts["adjset"] = "adj";
    if (sim::chance(1, 3)) opts["field_prefix"] = pre = "pm_";
    if (sim::chance(1, 2)) { parts = sim::range(1, 5); if (sim::chance(1, 2)) opts["partitions"] = parts; else opts["partitions"] = (int64)parts; }
    if (sim::chance(1, 6)) opts["parmetis_ncommonnodes"] = common = sim::range(1, s.dim);
    sim::sample("%s%s%s%s%sparts=%d ", poly ? "poly " : "", use_adj ? s.adj_style ? "maxshare " : "pairwise " : "", noadj.empty() ? "" : "noadj ", partial ? "partial " : "", real ? "real " : "stub ", parts);
    spy = Spy(); spy.mode = real ? 0 : sim::chance(1, 10) ? 2 : 1; spy.salt = sim::choose(1000);
    vector<string> before(s.ndom()); for (int d = 0; d < s.ndom(); d++) { Node c; c.set(dom_of(d)); before[d] = gen::canon(c); }
    bool plain = opts.dtype().is_empty(); bool twice = sim::chance(1, 8), part2 = sim::chance(1, 3); vector<Node> outs(w.n);
    mesh::run(w, [&](int me) {
        for (int k = 0; k < (twice ? 2 : 1); k++) { if (plain) bm::generate_partition_field(*p.local[me], w.comm); else bm::generate_partition_field(*p.local[me], opts, w.comm); }
        if (part2 && !poly) { Node po; Node &q = po["selections"].append(); q["type"] = "field"; q["field"] = pre + "parmetis_result"; q["domain_id"] = "any"; q["topology"] = s.topo; bm::partition(*p.local[me], po, outs[me], w.comm); }
    });
    long NE = 0; for (auto &l : L) NE += (long)l.eg.size();
    long np = parts ? parts : s.ndom(), nc = common ? common : s.dim;
    // ids
    std::set<long> eids; std::map<long, long> by_vid, vid_of; long nv = 0;
    for (int d = 0; d < s.ndom(); d++) {
        const Node &n = dom_of(d); const Node &f = n["fields"];
        auto get = [&](const char *k, const char *assoc, size_t want) { const Node &x = f[pre + k]; if (x["association"].as_string() != assoc || x["topology"].as_string() != s.topo) sim::fail("field", "field %s has the wrong association or topology", k);
            vector<long> v = mesh::ints(x["values"]); if (v.size() != want) sim::fail("field", "field %s has %zu of %zu values", k, v.size(), want); return v; };
        vector<long> ge = get("global_element_ids", "element", L[d].eg.size()), gv = get("global_vertex_ids", "vertex", L[d].vg.size()), pr = get("parmetis_result", "element", L[d].eg.size());
        for (long e : ge) { if (e < 0 || e >= NE) sim::fail("element-id", "element id %ld is not below the number of elements, %ld", e, NE); if (!eids.insert(e).second) sim::fail("element-id", "element id %ld is given twice", e); }
        for (long x : pr) if (x < 0 || x >= np) sim::fail("target", "an element of domain %d is sent to partition %ld of %ld", s.ids[d], x, np);
        for (size_t i = 0; i < gv.size(); i++) {
            long g = use_adj ? L[d].vg[i] : nv++;          // without adjacency every vertex of a domain is its own
            if (use_adj) { if (vid_of.count(g)) { if (!partial && vid_of[g] != gv[i]) sim::fail("vertex-id", "a vertex shared by two domains has ids %ld and %ld", vid_of[g], gv[i]); } }
            vid_of[g] = gv[i];
            if (by_vid.count(gv[i]) && by_vid[gv[i]] != g) sim::fail("vertex-id", "two different vertices have id %ld", gv[i]);
            by_vid[gv[i]] = g;
        }
        Node c; c.set(n); for (auto *k : {"global_element_ids", "global_vertex_ids", "parmetis_result"}) c["fields"].remove(pre + k);
        if (c["fields"].number_of_children() == 0) c.remove("fields");
        if (gen::canon(c) != before[d]) sim::fail("mesh", "the call changed domain %d otherwise", s.ids[d]);
    }
    for (auto &kv : by_vid) if (kv.first < 0 || kv.first >= (long)by_vid.size()) sim::fail("vertex-id", "vertex id %ld is not below the number of vertices, %zu", kv.first, by_vid.size());
    // what the partitioner was asked, and that its answer is what the elements got
    if ((int)spy.by_rank.size() != w.n) sim::fail("call", "%zu of %d ranks called the partitioner", spy.by_rank.size(), w.n);
    for (int r = 0; r < w.n; r++) {
        Call &c = spy.by_rank[r]; if (c.calls != (twice ? 2 : 1)) sim::fail("call", "rank %d called the partitioner %d times", r, c.calls);
        if (c.eldist != spy.by_rank[0].eldist) sim::fail("input", "the ranks pass different element distributions");
        if (c.nparts != np) sim::fail("input", "rank %d asks for %ld partitions instead of %ld", r, c.nparts, np);
        if (c.common != nc) sim::fail("input", "rank %d does not ask for elements that share %ld vertices", r, nc);
        long k = 0, at = 0;
        for (int d : p.doms[r]) {
            const Node &f = dom_of(d)["fields"]; vector<long> pr = mesh::ints(f[pre + "parmetis_result"]["values"]), gv = mesh::ints(f[pre + "global_vertex_ids"]["values"]), ge = mesh::ints(f[pre + "global_element_ids"]["values"]);
            for (size_t e = 0; e < L[d].eg.size(); e++, k++) {
                if (k >= (long)c.part.size() || k + 1 >= (long)c.eptr.size()) sim::fail("input", "rank %d passes too few elements", r);
                if (c.eptr[k] != at) sim::fail("input", "rank %d: the elements' vertex lists overlap or have gaps", r);
                std::set<long> have, want; for (; at < c.eptr[k + 1]; at++) have.insert(c.eind[at]); for (int v : L[d].conn[e]) want.insert(gv[v]);
                if (have != want) sim::fail("input", "rank %d passes an element with other vertices", r);
                if (ge[e] != c.eldist[r] + k) sim::fail("element-id", "the element ids do not follow the order the partitioner is given");
                if (spy.mode != 2 && pr[e] != c.part[k]) sim::fail("answer", "element %ld of rank %d was assigned to %ld, the field says %ld", k, r, c.part[k], pr[e]);
            }
        }
        if (c.eldist[r + 1] - c.eldist[r] != k) sim::fail("input", "rank %d passes %ld elements and has %ld", r, c.eldist[r + 1] - c.eldist[r], k);
    }
    sim::count("probe.fields", s.ndom());
    if (part2 && !poly) {          // repartitioning by the field
        std::map<long, long> to; std::map<std::pair<int, long>, int> of; for (int d = 0; d < s.ndom(); d++) { vector<long> pr = mesh::ints(dom_of(d)["fields"][pre + "parmetis_result"]["values"]); for (size_t e = 0; e < pr.size(); e++) to[L[d].eg[e]] = pr[e]; }
        std::set<long> seen;
        for (int r = 0; r < w.n; r++) for (auto *d : mesh::domains(outs[r])) {
            vector<long> g = mesh::ints((*d)["fields/gid/values"]); std::set<long> here;
            for (long e : g) { if (!to.count(e) || !seen.insert(e).second) sim::fail("repartition", "element %ld is there twice or was not there before", e); here.insert(to[e]); }
            if (here.size() > 1) sim::fail("repartition", "a new domain mixes elements of different partitions");
        }
        if (seen.size() != to.size()) sim::fail("repartition", "%zu of %zu elements are left after repartitioning", seen.size(), to.size());
        sim::count("probe.repartition");
    }
}
}
SCENARIO(C11, field, 3) { run_graph(false); }
SCENARIO(C11, parmetis, 1) { run_graph(true); }
