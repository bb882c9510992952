// C05, C06, C08: queries, redistribution and flattening of distributed meshes.
#include "mesh.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include "conduit_blueprint_mpi.hpp"
#include <cmath>
#include <memory>
using namespace conduit;
using std::string; using std::vector;
namespace bm = conduit::blueprint::mpi::mesh;
namespace {
void dirty(Node &n) {       // outputs that held something before the call
    switch (sim::choose(4)) {
    case 1: n["old/stuff"] = 3; break;
    case 2: n.append() = "x"; n.append() = 2.5; break;
    case 3: n = (int64)7; break;
    default: break;
    }
}
// tree with object children sorted by name: the union of indexes has no defined order
string sorted(const Node &n) {
    if (n.dtype().is_object()) {
        vector<string> names = n.child_names(); std::sort(names.begin(), names.end());
        string r = "{"; for (auto &k : names) r += k + ":" + sorted(n[k]) + ","; return r + "}";
    }
    return gen::canon(n);
}
string names_of(const vector<string> &v) { string s; for (auto &x : v) s += x + ","; return s; }
} // namespace

// ------------------------------------------------------------------ C05
namespace {
void corrupt(Node &dom, const mesh::Spec &s) {
    if (!dom.has_child("topologies") || !dom["coordsets"][s.cset].has_child("type") || (dom.has_child("fields") && !dom["fields/gid"].has_child("association"))) return;   // done already
    switch (sim::choose(6)) {
    case 0: dom["topologies"][s.topo]["coordset"] = "nowhere"; break;
    case 1: dom["coordsets"][s.cset].remove_child("type"); break;
    case 2: dom["topologies"][s.topo]["type"] = "bogus"; break;
    case 3: if (dom.has_child("fields")) dom["fields/gid"].remove_child("association"); else dom.remove_child("topologies"); break;
    case 4: dom.remove_child("topologies"); break;
    case 5: if (dom.has_child("fields")) dom["fields/vgid/topology"] = "other"; else dom.remove_child("topologies"); break;
    }
}
void queries(bool with_corrupt, bool nothing) {
    mesh::World w = mesh::draw_world(5);
    mesh::Opt o; o.gaps = true; o.cyl = true; o.adjset = sim::chance(1, 3);
    mesh::Spec s = mesh::draw(o);
    if (nothing) { s.blocks.clear(); s.ids.clear(); s.kinds.clear(); s.sparse.clear(); }
    s.fields = !sim::chance(1, 6); if (s.ndom() > 1 && sim::chance(1, 4)) s.nofields.insert((int)sim::choose(s.ndom()));
    mesh::Placement p = mesh::place(s, w.n);
    // some domains without an id: the map then uses the rank
    bool strip = !nothing && !with_corrupt && sim::chance(1, 6);
    std::map<int, int> dom_id_missing;
    if (strip) for (int r = 0; r < w.n; r++) if (p.doms[r].size() == 1 && sim::chance(1, 2)) {
        bool clash = false; for (int d = 0; d < s.ndom(); d++) if (d != p.doms[r][0] && s.ids[d] == r) clash = true;
        if (clash || dom_id_missing.count(r)) continue;
        Node &n = *p.local[r]; Node &dom = n.has_child("coordsets") ? n : n.child(0);
        dom["state"].remove_child("domain_id"); if (dom["state"].number_of_children() == 0) dom.remove_child("state");
        s.ids[p.doms[r][0]] = r; dom_id_missing[r] = 1;
    }
    if (with_corrupt) {
        int times = sim::range(1, 2);
        for (int i = 0; i < times; i++) {
            int d = (int)sim::choose(s.ndom()); int r = p.rank_of[d]; Node &n = *p.local[r];
            if (n.has_child("coordsets")) corrupt(n, s);
            else for (size_t k = 0; k < p.doms[r].size(); k++) if (p.doms[r][k] == d) corrupt(n.child(k), s);
        }
    }
    // expected
    bool want_ok = true; Node un; long total = 0; int delegate = -1; string want_del; int64 maxid = -1;
    for (int r = 0; r < w.n; r++) {
        Node info, c; c.set(*p.local[r]); if (!blueprint::mesh::verify(c, info)) want_ok = false;
        if (with_corrupt) continue;
        auto ds = mesh::domains(*p.local[r]); total += ds.size();
        for (auto *d : ds) un.append().set(*d);
        if (!ds.empty() && delegate < 0) { delegate = r; want_del = gen::canon(*ds[0]); }
    }
    for (int id : s.ids) maxid = std::max<int64>(maxid, id);
    vector<int64> want_map(maxid + 1, -1); for (int d = 0; d < s.ndom(); d++) want_map[s.ids[d]] = p.rank_of[d];
    string ref = sim::chance(1, 2) ? "mesh" : "";
    Node want_idx; if (!with_corrupt && total) blueprint::mesh::generate_index(un, ref, total, want_idx);
    string widx = sorted(want_idx);
    vector<int> ops; int nops = sim::range(1, 4);
    for (int i = 0; i < nops; i++) ops.push_back(with_corrupt ? 0 : (int)sim::choose(6));
    vector<string> before(w.n); for (int r = 0; r < w.n; r++) before[r] = gen::canon(*p.local[r]);
    bool proto = sim::chance(1, 3);
    vector<vector<Node>> outs(w.n, vector<Node>(nops)); for (auto &v : outs) for (auto &n : v) dirty(n);
    vector<int> iddom(w.n, 0); int acc = 0; for (int r = 0; r < w.n; r++) { iddom[r] = acc; acc += (int)p.doms[r].size(); }
    sim::sample("ops=%d ", nops);
    mesh::run(w, [&](int me) {
        const Node &m = *p.local[me];
        for (int i = 0; i < nops; i++) {
            Node &out = outs[me][i];
            switch (ops[i]) {
            case 0: { bool got = proto ? blueprint::mpi::verify("mesh", m, out, w.comm) : bm::verify(m, out, w.comm);
                      if (got != want_ok) sim::fail("verify", "rank %d: verify returned %d, the serial answer over all ranks is %d", me, got, want_ok); break; }
            case 1: { index_t got = bm::number_of_domains(m, w.comm); if (got != total) sim::fail("domain-count", "rank %d: number_of_domains is %ld, there are %ld", me, (long)got, total); break; }
            case 2: { bm::generate_domain_to_rank_map(m, out, w.comm);
                      vector<int64> got; if (out.dtype().is_number()) { int64_accessor a = out.as_int64_accessor(); for (index_t k = 0; k < a.number_of_elements(); k++) got.push_back(a[k]); }
                      if (got != want_map) { string g, q; for (auto x : got) g += std::to_string(x) + " "; for (auto x : want_map) q += std::to_string(x) + " "; sim::fail("domain-map", "rank %d: domain to rank map is [%s], expected [%s]", me, g.c_str(), q.c_str()); } break; }
            case 3: { bm::generate_index(m, ref, out, w.comm); string g = sorted(out); if (g != widx) sim::fail("index", "rank %d: %s", me, gen::diff(widx, g).c_str()); 
                      Node info; if (total && !blueprint::mesh::index::verify(out, info)) sim::fail("index", "the index does not verify: %s", info.to_json().c_str()); break; }
            case 4: { Node d; bm::find_delegate_domain(m, d, w.comm); string g = gen::canon(d); if (delegate >= 0 && g != want_del) sim::fail("delegate", "rank %d: %s", me, gen::diff(want_del, g).c_str()); 
                      if (delegate < 0 && d.number_of_children()) sim::fail("delegate", "rank %d: a delegate from nowhere", me); break; }
            case 5: { Node c; Node mm; if (m.has_child("coordsets")) mm.append().set(m); else mm.set(m);
                      bm::generate_domain_ids(mm, w.comm);
                      for (index_t k = 0; k < mm.number_of_children(); k++) { int64 g = mm.child(k)["state/domain_id"].to_int64(); if (g != iddom[me] + k) sim::fail("domain-ids", "rank %d: local domain %ld got id %ld instead of %ld", me, (long)k, (long)g, (long)(iddom[me] + k)); }
                      break; }
            }
            if (gen::canon(m) != before[me]) sim::fail("input-changed", "rank %d: a query changed the mesh", me);
        }
    });
}
} // namespace
// more domains and larger ids than any small integer holds
SCENARIO(C05, many, 1) {
    mesh::World w = mesh::draw_world(4, true, 1);
    int nd = sim::chance(1, 2) ? sim::range(1, 5) : sim::range(100, 300);
    bool big = sim::chance(1, 2); vector<int64> ids; int64 id = 0;
    for (int d = 0; d < nd; d++) { id += 1 + (big ? (int64)sim::choose(nd > 5 ? 300 : 20000) : 0); ids.push_back(id - 1); }
    { vector<int> q = sim::permutation(nd); vector<int64> t; for (int i : q) t.push_back(ids[i]); ids = t; }
    vector<Node *> loc; vector<int> cnt(w.n, 0), at(nd); for (int r = 0; r < w.n; r++) { loc.push_back(new Node); loc[r]->set(DataType::list()); }
    int64 mx = 0; for (auto x : ids) mx = std::max(mx, x);
    vector<int64> want(mx + 1, -1); int per = sim::range(1, 3), one = (int)sim::choose(w.n);
    for (int d = 0; d < nd; d++) {
        int r = per == 1 ? d % w.n : per == 2 ? one : (int)sim::choose(w.n); at[d] = r; cnt[r]++; want[ids[d]] = r;
        Node &n = loc[r]->append(); n["state/domain_id"] = ids[d];
        n["coordsets/c/type"] = "uniform"; n["coordsets/c/dims/i"] = 2; n["coordsets/c/dims/j"] = 2; n["topologies/t/type"] = "uniform"; n["topologies/t/coordset"] = "c";
    }
    sim::sample("domains=%d max id=%ld ", nd, (long)mx);
    vector<vector<Node>> outs(w.n, vector<Node>(3));
    mesh::run(w, [&](int me) {
        Node &m = *loc[me];
        index_t got = bm::number_of_domains(m, w.comm); if (got != nd) sim::fail("domain-count", "rank %d: number_of_domains is %ld, there are %d", me, (long)got, nd);
        bm::generate_domain_to_rank_map(m, outs[me][0], w.comm);
        int64_accessor a = outs[me][0].as_int64_accessor(); if (a.number_of_elements() != (index_t)want.size()) sim::fail("domain-map", "rank %d: the map has %ld entries, expected %zu", me, (long)a.number_of_elements(), want.size());
        for (size_t i = 0; i < want.size(); i++) if (a[i] != want[i]) sim::fail("domain-map", "rank %d: domain %zu is mapped to %ld instead of %ld", me, i, (long)a[i], (long)want[i]);
        bm::generate_index(m, "", outs[me][1], w.comm); if (outs[me][1]["state/number_of_domains"].to_int64() != nd) sim::fail("index", "rank %d: the index says %ld domains instead of %d", me, (long)outs[me][1]["state/number_of_domains"].to_int64(), nd);
        if (!bm::verify(m, outs[me][2], w.comm)) sim::fail("verify", "rank %d: a valid mesh does not verify", me);
        int base = 0; for (int r = 0; r < me; r++) base += cnt[r];
        bm::generate_domain_ids(m, w.comm); for (index_t k = 0; k < m.number_of_children(); k++) if (m.child(k)["state/domain_id"].to_int64() != base + k) sim::fail("domain-ids", "rank %d: local domain %ld got id %ld instead of %ld", me, (long)k, (long)m.child(k)["state/domain_id"].to_int64(), (long)(base + k));
    });
}
SCENARIO(C05, queries, 6) { queries(false, false); }
SCENARIO(C05, invalid, 3) { queries(true, false); }
SCENARIO(C05, no_domains, 1) { queries(false, true); }

// ------------------------------------------------------------------ C06
SCENARIO(C06, distribute, 1) {
    bool stripped = false;
    mesh::World w = mesh::draw_world(5);
    mesh::Opt o; o.cyl = true; o.adjset = sim::chance(1, 3); o.uniform_kind = sim::chance(1, 2); o.gaps = sim::chance(1, 3);
    mesh::Spec s = mesh::draw(o);
    mesh::Placement p = mesh::place(s, w.n);
    int nd = s.ndom();
    if (sim::chance(1, 4)) {       // one domain per rank and no ids: the rank is the id
        nd = std::min(nd, w.n); s.blocks.resize(nd); s.ids.resize(nd); s.kinds.resize(nd);
        p.doms.assign(w.n, {}); p.rank_of.assign(nd, 0);
        int shift = (int)sim::choose(w.n - nd + 1);
        for (int d = 0; d < nd; d++) { s.ids[d] = d + shift; p.doms[d + shift] = {d}; p.rank_of[d] = d + shift; }
        for (int r = 0; r < w.n; r++) { mesh::fill(s, p, r, (int)sim::choose(3)); Node &n = *p.local[r]; if (p.doms[r].size()) { Node &m = n.has_child("coordsets") ? n : n.child(0); m["state"].remove_child("domain_id"); if (!m["state"].number_of_children()) m.remove_child("state"); } }
        stripped = true; sim::sample("no ids, shift %d ", shift);
    }
    // target lists
    int mode = (int)sim::choose(4);       // 0 permutation-ish, 1 random lists, 2 all to one, 3 everything everywhere
    vector<vector<int>> dst(nd); int one = (int)sim::choose(w.n);
    for (int d = 0; d < nd; d++) {
        if (mode == 0) dst[d].push_back((int)sim::choose(w.n));
        else if (mode == 1) { int k = (int)sim::choose(4); for (int i = 0; i < k; i++) dst[d].push_back((int)sim::choose(w.n)); }
        else if (mode == 2) dst[d].push_back(one);
        else for (int r = 0; r < w.n; r++) dst[d].push_back(r);
    }
    int nid = 1; for (int id : s.ids) nid = std::max(nid, id + 1);
    { vector<vector<int>> byid(nid); for (int d = 0; d < nd; d++) byid[s.ids[d]] = dst[d]; dst = byid; }    // the map is indexed by domain id
    // encode: order of the lists in values, gaps between them, offsets present or not, index type
    bool offs = sim::chance(1, 2), wide = sim::chance(1, 2);
    vector<int64> vals, sizes(nid), offsets(nid);
    vector<int> order; for (int i = 0; i < nid; i++) order.push_back(i);
    if (offs && sim::chance(1, 2)) order = sim::permutation(nid);
    bool gaps = offs && sim::chance(1, 3);
    for (int d : order) { if (gaps && sim::chance(1, 2)) vals.push_back((int)sim::choose(w.n)); offsets[d] = (int64)vals.size(); sizes[d] = (int64)dst[d].size(); for (int r : dst[d]) vals.push_back(r); }
    if (vals.empty()) { vals.push_back(0); }
    auto opts = std::make_shared<Node>();
    auto put = [&](const char *k, const vector<int64> &v) { if (wide) (*opts)["domain_map"][k].set(v); else { vector<int32> q(v.begin(), v.end()); (*opts)["domain_map"][k].set(q); } };
    bool inds = sim::chance(1, 3);
    if (inds) {   // the lists refer to entries of indices, which refer to values in any order
        vector<int> perm = sim::permutation((int)vals.size()); vector<int64> nv(vals.size()), ix(vals.size());
        for (size_t i = 0; i < vals.size(); i++) { nv[perm[i]] = vals[i]; ix[i] = perm[i]; }
        vals = nv; put("indices", ix);
    }
    // with no offsets the values must be exactly the concatenation
    put("values", vals); put("sizes", sizes); if (offs) put("offsets", offsets);
    sim::sample("map["); for (auto &v : dst) { sim::sample("("); for (int r : v) sim::sample("%d ", r); sim::sample(")"); } sim::sample("]%s%s%s ", offs ? " offsets" : "", gaps ? " gaps" : "", inds ? " indices" : "");
    gen::log(*opts);
    vector<std::multiset<string>> want(w.n); std::map<string, int> name_of;
    for (int d = 0; d < nd; d++) { Node x; mesh::build(s, d, x); if (stripped) { x["state"].remove_child("domain_id"); if (!x["state"].number_of_children()) x.remove_child("state"); } string c = gen::canon(x); name_of[c] = s.ids[d]; for (int r : dst[s.ids[d]]) want[r].insert(c); }
    vector<Node> outs(w.n); for (auto &n : outs) dirty(n);
    string optsb = gen::canon(*opts);
    vector<string> before(w.n); for (int r = 0; r < w.n; r++) before[r] = gen::canon(*p.local[r]);
    int rounds = sim::range(1, 2);
    mesh::run(w, [&](int me) {
        for (int k = 0; k < rounds; k++) {
            bm::distribute(*p.local[me], *opts, outs[me], w.comm);
            std::multiset<string> got; string list;
            for (auto *d : mesh::domains(outs[me])) { string c = gen::canon(*d); got.insert(c); list += name_of.count(c) ? std::to_string(name_of[c]) + " " : "? "; }
            if (got != want[me]) { string q; for (auto &c : want[me]) q += std::to_string(name_of[c]) + " "; sim::fail("distribute", "rank %d holds domains [%s], the map asks for [%s]", me, list.c_str(), q.c_str()); }
            if (gen::canon(*p.local[me]) != before[me]) sim::fail("input-changed", "rank %d: distribute changed its input", me);
            if (gen::canon(*opts) != optsb) sim::fail("input-changed", "rank %d: distribute changed its options", me);
        }
    });
}

// ------------------------------------------------------------------ C08
SCENARIO(C08, flatten, 1) {
    mesh::World w = mesh::draw_world(5);
    mesh::Opt o; o.cyl = true; o.gaps = true; o.maxdom = 5;
    mesh::Spec s = mesh::draw(o);
    s.fields = !sim::chance(1, 8);
    if (s.ndom() > 1 && sim::chance(1, 4)) s.nofields.insert((int)sim::choose(s.ndom()));
    if (sim::chance(1, 2)) {       // more fields that only some domains have, with components and other types
        int more = (int)sim::choose(4); for (int i = 0; i < more; i++) { vector<int> x; for (int d = 0; d < s.ndom(); d++) if (sim::chance(1, 2)) x.push_back(d); s.sparse.push_back(x); }
        for (size_t i = 0; i < s.sparse.size(); i++) { s.sparse_mc.push_back(sim::chance(1, 2) ? sim::range(1, 4) : 0); s.sparse_ty.push_back(sim::chance(1, 2) ? (int)sim::choose(4) : 4 + (int)sim::choose(6)); }
    }
    s.sparse_mc.resize(s.sparse.size(), 0); s.sparse_ty.resize(s.sparse.size(), 0);
    mesh::Placement p = mesh::place(s, w.n);
    // domains without ids are numbered by their place on their rank
    vector<int> ids = s.ids; if (sim::chance(1, 8)) for (int r = 0; r < w.n; r++) { int k = 0; for (const Node *c : mesh::domains(*p.local[r])) { Node &d = *const_cast<Node *>(c); if (d.has_path("state/domain_id")) d["state"].remove("domain_id"); ids[p.doms[r][(size_t)k]] = k; k++; } }
    auto opts = std::make_shared<Node>(); Node &op = *opts;
    if (sim::chance(1, 2)) op["topology"] = s.topo;
    int root = 0; if (sim::chance(2, 3)) { root = (int)sim::choose(w.n); op["root"] = root; }
    bool add_rank = sim::chance(1, 2); if (add_rank || sim::chance(1, 2)) op["add_rank"] = add_rank ? 1 : 0;
    bool dinfo = true, cen = true, loc = true; double ffill = 0; int64 ifill = 0;
    if (sim::chance(1, 3)) { dinfo = sim::chance(1, 2); op["add_domain_info"] = (int)dinfo; }
    if (sim::chance(1, 3)) { cen = sim::chance(1, 2); op["add_element_centers"] = (int)cen; }
    if (sim::chance(1, 3)) { loc = sim::chance(1, 2); op["add_vertex_locations"] = (int)loc; }
    bool small = false; for (int t : s.sparse_ty) if (t >= 6) small = true;   // unsigned: a fill that fits
    if (sim::chance(1, 2)) {
        int form = (int)sim::choose(4), fi = small ? 9 : -9;
        if (form != 2) ifill = fi;
        if (form != 1) ffill = form == 3 ? fi : -1.5;
        if (form == 3) op["fill_value"] = fi; else { if (form != 2) op["fill_value/int"] = (int64)ifill; if (form != 1) op["fill_value/float"] = ffill; }
    }
    vector<string> want_fields;
    { std::set<string> have; if (s.fields) { for (auto n : {"gid", "vgid", "evec", "vval"}) have.insert(n); for (size_t i = 0; i < s.sparse.size(); i++) for (int d : s.sparse[i]) if (!s.nofields.count(d)) have.insert("sparse_" + std::to_string(i)); }
      bool sel = sim::chance(1, 2);
      if (sel) { for (auto n : {"gid", "vgid", "evec", "vval", "sparse_0", "sparse_1", "sparse_3", "missing", "sparse_2", "sparse_4"}) if (sim::chance(1, 2)) { op["field_names"].append() = n; if (have.count(n)) want_fields.push_back(n); }
                 if (!op.has_child("field_names")) for (auto &n : have) want_fields.push_back(n); }
      else for (auto &n : have) want_fields.push_back(n); }
    gen::log(op);
    // oracle: rows in rank order, domain order, local order
    struct Row { int rank, dom; long id; };
    vector<Row> er, vr; std::map<int, mesh::Dom> L;
    for (int r = 0; r < w.n; r++) for (int d : p.doms[r]) { L[d] = mesh::layout(s, d); for (size_t i = 0; i < L[d].vg.size(); i++) vr.push_back({r, d, (long)i}); for (size_t i = 0; i < L[d].eg.size(); i++) er.push_back({r, d, (long)i}); }
    std::map<string, vector<double>> wv, we;   // column -> values
    auto is = [&](const string &n) { return std::find(want_fields.begin(), want_fields.end(), n) != want_fields.end(); };
    auto sparse = [&](std::map<string, vector<double>> &t, size_t from, int dom, long g, bool nf) {
        for (size_t i = from; i < s.sparse.size(); i += 2) { string n = "sparse_" + std::to_string(i); if (!is(n)) continue;
            bool has = !nf && std::count(s.sparse[i].begin(), s.sparse[i].end(), dom); double fill = mesh::sparse_int(s.sparse_ty[i]) ? (double)ifill : ffill;
            for (int k = 0; k < std::max(1, s.sparse_mc[i]); k++) t[s.sparse_mc[i] ? n + "/" + mesh::sparse_comp((int)i, k) : n].push_back(has ? mesh::sparse_fit(s.sparse_ty[i], mesh::sparse_value((int)i, k, g)) : fill); }
    };
    for (auto &x : vr) {
        const mesh::Dom &D = L[x.dom]; long g = D.vg[x.id]; bool nf = s.nofields.count(x.dom);
        if (loc) for (int a = 0; a < s.dim; a++) wv[s.cset + "/" + s.axes[a]].push_back(mesh::coord(s, D.v[x.id], a));
        if (is("vgid")) wv["vgid"].push_back(nf ? ifill : g);
        if (is("vval")) wv["vval"].push_back(nf ? ffill : mesh::vfield(g));
        sparse(wv, 1, x.dom, g, nf);
    }
    for (auto &x : er) {
        const mesh::Dom &D = L[x.dom]; long g = D.eg[x.id]; bool nf = s.nofields.count(x.dom);
        if (cen) for (int a = 0; a < s.dim; a++) { double q = 0; for (int v : D.conn[x.id]) q += mesh::coord(s, D.v[v], a); we["element_centers/" + s.axes[a]].push_back(q / D.conn[x.id].size()); }
        if (is("gid")) we["gid"].push_back(nf ? ifill : g);
        if (is("evec")) { we["evec/u"].push_back(nf ? ffill : mesh::efield(g)); we["evec/v"].push_back(nf ? ffill : -mesh::efield(g)); }
        sparse(we, 0, x.dom, g, nf);
    }
    if (!wv.empty()) for (auto &x : vr) { if (dinfo) { wv["domain_id"].push_back(ids[x.dom]); wv["vertex_id"].push_back(x.id); } if (add_rank) wv["mpi_rank"].push_back(x.rank); }
    if (!we.empty()) for (auto &x : er) { if (dinfo) { we["domain_id"].push_back(ids[x.dom]); we["element_id"].push_back(x.id); } if (add_rank) we["mpi_rank"].push_back(x.rank); }
    vector<Node> outs(w.n); for (auto &n : outs) dirty(n);
    vector<string> before(w.n); for (int r = 0; r < w.n; r++) before[r] = gen::canon(*p.local[r]);
    sim::sample("root=%d fields=%s ", root, names_of(want_fields).c_str());
    auto check = [&](const Node &out, const char *table, const std::map<string, vector<double>> &want) {
        std::map<string, vector<double>> got;
        if (out.has_path(string(table) + "/values")) {
            const Node &v = out[table]["values"];
            for (index_t i = 0; i < v.number_of_children(); i++) {
                const Node &c = v.child(i);
                auto add = [&](const string &n, const Node &x) { double_accessor a = x.as_double_accessor(); vector<double> &q = got[n]; for (index_t k = 0; k < a.number_of_elements(); k++) q.push_back(a[k]); };
                if (c.number_of_children()) for (index_t j = 0; j < c.number_of_children(); j++) add(c.name() + "/" + c.child(j).name(), c.child(j)); else add(c.name(), c);
            }
        }
        string a, b; for (auto &kv : got) a += kv.first + ","; for (auto &kv : want) b += kv.first + ",";
        if (a != b) sim::fail("columns", "%s has columns [%s], expected [%s]", table, a.c_str(), b.c_str());
        for (auto &kv : want) {
            auto &g = got[kv.first];
            if (g.size() != kv.second.size()) sim::fail("rows", "%s column %s has %zu rows, expected %zu", table, kv.first.c_str(), g.size(), kv.second.size());
            for (size_t i = 0; i < g.size(); i++) if (std::fabs(g[i] - kv.second[i]) > (kv.first.compare(0, 8, "element_") == 0 ? 1e-5 : 1e-9) * (1 + std::fabs(kv.second[i]))) sim::fail("cell", "%s column %s row %zu is %.17g, expected %.17g", table, kv.first.c_str(), i, g[i], kv.second[i]);
        }
    };
    mesh::run(w, [&](int me) {
        bm::flatten(*p.local[me], op, outs[me], w.comm);
        if (gen::canon(*p.local[me]) != before[me]) sim::fail("input-changed", "rank %d: flatten changed its input", me);
        if (me == root) { check(outs[me], "vertex_data", wv); check(outs[me], "element_data", we); Node info; if (outs[me].number_of_children() && !blueprint::table::verify(outs[me], info)) sim::fail("table", "the result is not a valid table: %s", info.to_json().c_str()); }
        else if (outs[me].number_of_children()) sim::fail("table", "rank %d is not the root but holds a table", me);
    });
}
