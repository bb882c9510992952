// Generated meshes: a global grid cut into blocks, each block one domain.
// Every fact about a domain (coordinates, ids, shared vertices) is known here
// independently of the library.
#ifndef VERIF_MESH_HPP
#define VERIF_MESH_HPP
#include "gen.hpp"
#include "sim.hpp"
#include "simmpi.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace mesh {
using conduit::Node; using conduit::index_t; using conduit::DataType;
using std::string; using std::vector;

struct World { int n; int total; MPI_Comm comm; vector<int> group; };
inline World draw_world(int maxn, bool allow_sub = true, int minn = 1) {
    World w;
    gen::loose_empty = true;
    w.n = sim::range(minn, maxn);
    simmpi::reset();
    simmpi::cfg = simmpi::Config();
    simmpi::draw_transport();
    if (allow_sub && sim::chance(1, 4)) {
        w.total = w.n + (int)sim::choose(3);
        vector<int> p = sim::permutation(w.total);
        w.group.assign(p.begin(), p.begin() + w.n);
        w.comm = simmpi::make_comm(w.group);
    } else { w.total = w.n; for (int i = 0; i < w.n; i++) w.group.push_back(i); w.comm = MPI_COMM_WORLD; }
    sim::sample("comm=%d%s transport=%d ", w.n, w.comm == MPI_COMM_WORLD ? "" : "(sub)", simmpi::cfg.transport);
    return w;
}
inline void run(const World &w, const std::function<void(int)> &fn) {
    simmpi::run_ranks(w.total, [&](int wr) {
        for (int i = 0; i < w.n; i++) if (w.group[i] == wr) { fn(i); return; }
    });
}

enum Kind { UNIFORM, RECTILINEAR, STRUCTURED, QUADHEX, TRITET, NKINDS };
inline const char *kind_name(int k) { static const char *n[] = {"uniform", "rectilinear", "structured", "quad/hex", "tri/tet"}; return n[k]; }
struct Block { int lo[3], hi[3]; };
struct Spec {
    int dim = 2; int n[3] = {1, 1, 1};
    int kind = 0;                      // of all domains, or mixed
    vector<int> kinds;                 // per domain
    double org[3], spc[3];             // uniform axes
    vector<double> X[3];
    vector<Block> blocks; vector<int> ids;
    vector<int> vperm_seed;            // per domain: shuffle of local vertices (unstructured)
    string topo = "mesh", cset = "coords"; vector<string> axes{"x", "y", "z"};
    bool f32 = false, cycle = false, adjset = false; int adj_style = 0; // 0 pairwise, 1 maxshare
    vector<vector<int>> sparse;        // sparse fields: domains that have field sparse_<i>
    vector<int> sparse_mc, sparse_ty;  // and its components (0: scalar) and type (float64, int32, float32, int64)
    bool fields = true; std::set<int> nofields;   // domains without fields
    vector<int> owner;                 // irregular: the domain of every element (unstructured kinds only); empty: boxes
    int ndom() const { return (int)blocks.size(); }
    long vid(int i, int j, int k) const { return i + (long)(n[0] + 1) * (j + (long)(n[1] + 1) * k); }
    long eid(int i, int j, int k) const { return i + (long)n[0] * (j + (long)n[1] * k); }
    int sub(int d) const { return kinds[d] == TRITET ? (dim == 2 ? 2 : 5) : 1; }
};
struct Opt { int maxn2 = 6, maxn3 = 3, maxdom = 6; bool uniform_kind = true; bool allow3 = true; vector<int> kinds; bool adjset = false; bool cyl = false; bool f32 = true; bool names = true; bool sparse = true; bool gaps = false; bool only_unit_spacing = false; bool irregular = false; };

inline Spec draw(const Opt &o, int want_dom = -1) {
    Spec s;
    s.dim = (o.allow3 && sim::chance(1, 3)) ? 3 : 2;
    for (int a = 0; a < s.dim; a++) s.n[a] = sim::range(1, s.dim == 2 ? o.maxn2 : o.maxn3);
    if (s.dim == 2) s.n[2] = 0;
    vector<int> ks = o.kinds; if (ks.empty()) for (int k = 0; k < NKINDS; k++) ks.push_back(k);
    s.kind = ks[sim::choose((uint32_t)ks.size())];
    for (int a = 0; a < 3; a++) {
        s.org[a] = (int)sim::choose(5) - 2; s.spc[a] = o.only_unit_spacing ? 1.0 : (sim::chance(1, 3) ? 0.5 : sim::chance(1, 3) ? 2.0 : 1.0);
        bool nonuni = s.kind != UNIFORM && o.uniform_kind && !o.only_unit_spacing && sim::chance(1, 3);
        double x = s.org[a];
        for (int i = 0; i <= s.n[a]; i++) { s.X[a].push_back(x); x += nonuni ? s.spc[a] * (1 + (i % 3)) : s.spc[a]; }
    }
    // cut
    Block all; for (int a = 0; a < 3; a++) { all.lo[a] = 0; all.hi[a] = s.n[a]; }
    s.blocks.push_back(all);
    int nd = want_dom > 0 ? want_dom : sim::range(1, o.maxdom);
    for (int t = 0; t < nd * 3 && (int)s.blocks.size() < nd; t++) {
        int b = (int)sim::choose((uint32_t)s.blocks.size()); int a = (int)sim::choose(s.dim);
        Block B = s.blocks[b]; if (B.hi[a] - B.lo[a] < 2) continue;
        int c = sim::range(B.lo[a] + 1, B.hi[a] - 1);
        Block C = B; C.lo[a] = c; s.blocks[b].hi[a] = c; s.blocks.push_back(C);
    }
    if (o.irregular && s.kind >= QUADHEX && sim::chance(1, 2)) {
        long cells = 1; for (int a = 0; a < s.dim; a++) cells *= s.n[a];
        int sub = s.kind == TRITET ? (s.dim == 2 ? 2 : 5) : 1; long ne = cells * sub; if (nd > ne) nd = (int)ne;
        s.blocks.assign(nd, all); s.owner.assign(ne, -1);
        bool bycell = sim::chance(1, 2); int pat = (int)sim::choose(3);   // scattered, runs, islands in domain 0
        for (long e = 0; e < ne; e++) { if (bycell && e % sub) { s.owner[e] = s.owner[e - 1]; continue; } s.owner[e] = pat == 1 && e ? (sim::chance(1, 3) ? (int)sim::choose(nd) : s.owner[e - 1]) : pat == 2 ? (sim::chance(1, 3) ? (int)sim::choose(nd) : 0) : (int)sim::choose(nd); }
        vector<int> p = sim::permutation((int)ne); for (int d = 0, k = 0; d < nd; d++) if (!std::count(s.owner.begin(), s.owner.end(), d)) { for (; k < (int)ne; k++) if (std::count(s.owner.begin(), s.owner.end(), s.owner[p[k]]) > 1) { s.owner[p[k++]] = d; break; } }
        sim::sample("irregular ");
    }
    int id = 0;
    for (int d = 0; d < s.ndom(); d++) { if (o.gaps) id += (int)sim::choose(3); s.ids.push_back(id++); }
    { vector<int> p = sim::permutation(s.ndom()); vector<Block> nb; for (int i : p) nb.push_back(s.blocks[i]); s.blocks = nb; }
    for (int d = 0; d < s.ndom(); d++) {
        s.kinds.push_back(o.uniform_kind ? s.kind : ks[sim::choose((uint32_t)ks.size())]);
        s.vperm_seed.push_back(sim::chance(1, 3) ? 1 + (int)sim::choose(1000) : 0);
    }
    if (!o.uniform_kind) for (int a = 0; a < 3; a++) { double x = s.org[a]; for (int i = 0; i <= s.n[a]; i++) { s.X[a][i] = x; x += s.spc[a]; } }
    if (o.names && sim::chance(1, 4)) { s.topo = "topo"; s.cset = "my_coords"; }
    if (o.cyl && sim::chance(1, 5)) { if (sim::chance(1, 3)) s.axes = {"r", "theta", "phi"}; else if (s.dim == 2) s.axes = sim::chance(1, 2) ? vector<string>{"z", "r"} : vector<string>{"x", "z"}; }
    s.f32 = o.f32 && sim::chance(1, 6);
    s.cycle = sim::chance(1, 2);
    s.adjset = o.adjset; s.adj_style = (int)sim::choose(2);
    if (o.sparse) { int ns = (int)sim::choose(3); for (int i = 0; i < ns; i++) { vector<int> w; for (int d = 0; d < s.ndom(); d++) if (sim::chance(1, 2)) w.push_back(d); s.sparse.push_back(w); } }
    sim::sample("%dD %s %dx%dx%d domains=%d%s ", s.dim, o.uniform_kind ? kind_name(s.kind) : "mixed", s.n[0], s.n[1], s.n[2], s.ndom(), s.f32 ? " f32" : "");
    return s;
}

struct Dom {                      // what a domain contains, in local order
    vector<std::array<int, 3>> v;                // grid vertex of local vertex
    vector<long> vg;                             // its global id
    vector<long> eg;                             // global element ids in local order
    vector<vector<int>> conn;                    // local vertices of each element
    std::map<long, int> local;                   // global vertex -> local
};
inline Dom layout(const Spec &s, int d) {
    Dom D; const Block &b = s.blocks[d];
    int kh = s.dim == 3 ? b.hi[2] : b.lo[2];
    std::set<long> used;
    if (s.owner.size()) { Spec w = s; w.owner.clear(); w.vperm_seed[d] = 0; Dom W = layout(w, d); for (size_t e = 0; e < W.conn.size(); e++) if (s.owner[W.eg[e]] == d) for (int v : W.conn[e]) used.insert(W.vg[v]); }
    for (int k = b.lo[2]; k <= kh; k++) for (int j = b.lo[1]; j <= b.hi[1]; j++) for (int i = b.lo[0]; i <= b.hi[0]; i++) if (s.owner.empty() || used.count(s.vid(i, j, k))) D.v.push_back({i, j, k});
    bool uns = s.kinds[d] >= QUADHEX;
    if (uns && s.vperm_seed[d]) { unsigned x = s.vperm_seed[d]; for (size_t i = D.v.size(); i > 1; i--) { x = x * 1103515245u + 12345u; std::swap(D.v[i - 1], D.v[(x >> 16) % i]); } }
    for (size_t i = 0; i < D.v.size(); i++) { D.vg.push_back(s.vid(D.v[i][0], D.v[i][1], D.v[i][2])); D.local[D.vg[i]] = (int)i; }
    int ke = s.dim == 3 ? b.hi[2] : b.lo[2] + 1;
    struct E { long g; vector<int> c; }; vector<E> es;
    for (int k = b.lo[2]; k < ke; k++) for (int j = b.lo[1]; j < b.hi[1]; j++) for (int i = b.lo[0]; i < b.hi[0]; i++) {
        auto L = [&](int di, int dj, int dk) { auto it = D.local.find(s.vid(i + di, j + dj, k + dk)); return it == D.local.end() ? -1 : it->second; };
        long g = s.eid(i, j, k);
        if (s.dim == 2) {
            if (s.kinds[d] == TRITET) { es.push_back({g * 2, {L(0,0,0), L(1,0,0), L(1,1,0)}}); es.push_back({g * 2 + 1, {L(0,0,0), L(1,1,0), L(0,1,0)}}); }
            else es.push_back({g, {L(0,0,0), L(1,0,0), L(1,1,0), L(0,1,0)}});
        } else {
            if (s.kinds[d] == TRITET) {
                // five tets; orientation alternates so that faces of neighbouring cells match
                bool odd = (i + j + k) & 1;
                auto P = [&](int x, int y, int z) { return odd ? L(1 - x, y, z) : L(x, y, z); };
                int t[5][4][3] = {{{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, {{1,1,0},{1,0,0},{0,1,0},{1,1,1}}, {{1,0,1},{1,0,0},{1,1,1},{0,0,1}}, {{0,1,1},{0,1,0},{0,0,1},{1,1,1}}, {{1,0,0},{0,1,0},{0,0,1},{1,1,1}}};
                for (int q = 0; q < 5; q++) { vector<int> c; for (int r = 0; r < 4; r++) c.push_back(P(t[q][r][0], t[q][r][1], t[q][r][2])); es.push_back({g * 5 + q, c}); }
            } else es.push_back({g, {L(0,0,0), L(1,0,0), L(1,1,0), L(0,1,0), L(0,0,1), L(1,0,1), L(1,1,1), L(0,1,1)}});
        }
    }
    if (s.owner.size()) { vector<E> keep; for (auto &e : es) if (s.owner[e.g] == d) keep.push_back(e); es = keep; }
    if (uns && s.vperm_seed[d]) { unsigned x = s.vperm_seed[d] * 7u + 3u; for (size_t i = es.size(); i > 1; i--) { x = x * 1103515245u + 12345u; std::swap(es[i - 1], es[(x >> 16) % i]); } }
    for (auto &e : es) { D.eg.push_back(e.g); D.conn.push_back(e.c); }
    return D;
}
inline double coord(const Spec &s, const std::array<int, 3> &v, int a) { return s.X[a][v[a]]; }
inline double efield(long g) { return 10.0 + 3.0 * (double)g; }
inline double vfield(long g) { return -4.0 + 0.5 * (double)g; }

inline double sparse_value(int i, int k, long g) { return 1000.0 * (i + 1) + g + 100000.0 * k; }
inline bool sparse_int(int ty) { return ty != 0 && ty != 2; }
inline double sparse_fit(int ty, double v) { return ty == 4 || ty == 6 ? std::fmod(v, 101) : ty == 5 || ty == 7 ? std::fmod(v, 30011) : v; }   // small types
inline string sparse_comp(int i, int k) { return string(1, "abcdefgh"[i % 8]) + std::to_string(k); }
inline void build(const Spec &s, int d, Node &n) {
    Dom D = layout(s, d); const Block &b = s.blocks[d];
    n.reset();
    n["state/domain_id"] = (conduit::int64)s.ids[d];
    if (s.cycle) { n["state/cycle"] = (conduit::int64)42; n["state/time"] = 1.25; }
    Node &c = n["coordsets"][s.cset]; Node &t = n["topologies"][s.topo];
    const char *ijk[3] = {"i", "j", "k"};
    int K = s.kinds[d];
    auto setarr = [&](Node &o, const vector<double> &v) { if (s.f32) { vector<float> f(v.begin(), v.end()); o.set(f); } else o.set(v); };
    if (K == UNIFORM) {
        c["type"] = "uniform";
        for (int a = 0; a < s.dim; a++) c["dims"][ijk[a]] = (conduit::int64)(b.hi[a] - b.lo[a] + 1);
        for (int a = 0; a < s.dim; a++) c["origin"][s.axes[a]] = s.X[a][b.lo[a]];
        for (int a = 0; a < s.dim; a++) c["spacing"]["d" + s.axes[a]] = s.spc[a];
        t["type"] = "uniform";
    } else if (K == RECTILINEAR) {
        c["type"] = "rectilinear";
        for (int a = 0; a < s.dim; a++) { vector<double> v(s.X[a].begin() + b.lo[a], s.X[a].begin() + b.hi[a] + 1); setarr(c["values"][s.axes[a]], v); }
        t["type"] = "rectilinear";
    } else {
        c["type"] = "explicit";
        for (int a = 0; a < s.dim; a++) { vector<double> v; for (auto &p : D.v) v.push_back(coord(s, p, a)); setarr(c["values"][s.axes[a]], v); }
        if (K == STRUCTURED) { t["type"] = "structured"; for (int a = 0; a < s.dim; a++) t["elements/dims"][ijk[a]] = (conduit::int64)(b.hi[a] - b.lo[a]); }
        else {
            t["type"] = "unstructured";
            t["elements/shape"] = K == QUADHEX ? (s.dim == 2 ? "quad" : "hex") : (s.dim == 2 ? "tri" : "tet");
            vector<conduit::int64> cn; for (auto &e : D.conn) for (int v : e) cn.push_back(v);
            t["elements/connectivity"].set(cn);
        }
    }
    t["coordset"] = s.cset;
    if (s.fields && !s.nofields.count(d)) {
        Node &fe = n["fields/gid"]; fe["association"] = "element"; fe["topology"] = s.topo; { vector<conduit::int64> v(D.eg.begin(), D.eg.end()); fe["values"].set(v); }
        Node &fv = n["fields/vgid"]; fv["association"] = "vertex"; fv["topology"] = s.topo; { vector<conduit::int64> v(D.vg.begin(), D.vg.end()); fv["values"].set(v); }
        Node &ff = n["fields/evec"]; ff["association"] = "element"; ff["topology"] = s.topo;
        vector<double> u, w; for (long g : D.eg) { u.push_back(efield(g)); w.push_back(-efield(g)); } ff["values/u"].set(u); ff["values/v"].set(w);
        Node &fs = n["fields/vval"]; fs["association"] = "vertex"; fs["topology"] = s.topo;
        vector<double> q; for (long g : D.vg) q.push_back(vfield(g)); fs["values"].set(q);
        for (size_t i = 0; i < s.sparse.size(); i++) if (std::count(s.sparse[i].begin(), s.sparse[i].end(), d)) {
            bool el = i % 2 == 0; Node &f = n["fields"]["sparse_" + std::to_string(i)]; f["association"] = el ? "element" : "vertex"; f["topology"] = s.topo;
            int mc = i < s.sparse_mc.size() ? s.sparse_mc[i] : 0, ty = i < s.sparse_ty.size() ? s.sparse_ty[i] : 0;
            for (int k = 0; k < std::max(1, mc); k++) {
                Node &v = mc ? f["values"][sparse_comp(i, k)] : f["values"];
                vector<double> x; for (long g : (el ? D.eg : D.vg)) x.push_back(sparse_fit(ty, sparse_value(i, k, g)));
                if (ty == 1) v.set(vector<conduit::int32>(x.begin(), x.end())); else if (ty == 2) v.set(vector<float>(x.begin(), x.end())); else if (ty == 3) v.set(vector<conduit::int64>(x.begin(), x.end()));
                else if (ty == 4) v.set(vector<conduit::int8>(x.begin(), x.end())); else if (ty == 5) v.set(vector<conduit::int16>(x.begin(), x.end())); else if (ty == 6) v.set(vector<conduit::uint8>(x.begin(), x.end())); else if (ty == 7) v.set(vector<conduit::uint16>(x.begin(), x.end())); else if (ty == 8) v.set(vector<conduit::uint32>(x.begin(), x.end())); else if (ty == 9) v.set(vector<conduit::uint64>(x.begin(), x.end()));
                else v.set(x);
            }
        }
    }
    if (s.adjset) {
        Node &a = n["adjsets/adj"]; a["association"] = "vertex"; a["topology"] = s.topo;
        Node &groups = a["groups"]; groups.set(DataType::object());
        // vertex -> domains
        std::map<long, vector<int>> share; vector<Dom> all; for (int e = 0; e < s.ndom(); e++) all.push_back(e == d ? D : layout(s, e));
        for (auto &kv : D.local) for (int e = 0; e < s.ndom(); e++) if (e != d && all[e].local.count(kv.first)) share[kv.first].push_back(e);
        std::map<vector<int>, vector<long>> g;
        if (s.adj_style == 0) { for (auto &kv : share) for (int e : kv.second) g[{e}].push_back(kv.first); }
        else for (auto &kv : share) g[kv.second].push_back(kv.first);
        vector<std::pair<vector<int>, vector<long>>> G(g.begin(), g.end()); if (s.vperm_seed[d] % 2) std::reverse(G.begin(), G.end());     // and so is the order of groups
        for (auto &kv : G) {
            vector<int> ids; for (int e : kv.first) ids.push_back(s.ids[e]); std::sort(ids.begin(), ids.end());
            vector<int> nm = ids; nm.push_back(s.ids[d]); std::sort(nm.begin(), nm.end());
            string name = "group"; for (int x : nm) name += "_" + std::to_string(x);
            vector<conduit::int64> nb(ids.begin(), ids.end()), vals; for (long v : kv.second) vals.push_back(D.local[v]);
            groups[name]["neighbors"].set(nb); groups[name]["values"].set(vals);
        }
    }
}

struct Placement {
    vector<vector<int>> doms;         // per rank: domains in local order
    vector<Node *> local;             // per rank
    vector<int> rank_of;
    vector<string> shape;
};
// 0 object, 1 list, 2 single when possible; empty: 0 object 1 list 2 empty node
inline void fill(const Spec &s, Placement &p, int r, int style) {
    Node &n = *p.local[r]; n.reset();
    if (p.doms[r].empty()) { if (style == 0) n.set(DataType::object()); else if (style == 1) n.set(DataType::list()); return; }
    if (p.doms[r].size() == 1 && style == 2) { build(s, p.doms[r][0], n); return; }
    for (int d : p.doms[r]) {
        char b[32]; snprintf(b, sizeof b, "domain_%06d", s.ids[d]);
        Node &c = style == 1 ? n.append() : n[b]; build(s, d, c);
    }
}
inline Placement place(const Spec &s, int nranks, int force_style = -1, int empty_style = -1) {
    Placement p; p.doms.resize(nranks); p.rank_of.resize(s.ndom());
    int mode = (int)sim::choose(4);      // round robin, random, all on one, contiguous blocks
    int one = (int)sim::choose(nranks);
    for (int d = 0; d < s.ndom(); d++) {
        int r = mode == 0 ? d % nranks : mode == 1 ? (int)sim::choose(nranks) : mode == 2 ? one : (int)((long)d * nranks / s.ndom());
        p.rank_of[d] = r; p.doms[r].push_back(d);
    }
    if (sim::chance(1, 4)) for (auto &v : p.doms) { vector<int> q = sim::permutation((int)v.size()), u; for (int i : q) u.push_back(v[i]); v = u; }     // local order is free
    int st = force_style >= 0 ? force_style : (int)sim::choose(3);
    for (int r = 0; r < nranks; r++) {
        p.local.push_back(new Node);
        int style = p.doms[r].empty() ? (empty_style >= 0 ? empty_style : (int)sim::choose(3)) : st;
        fill(s, p, r, style);
        gen::log(*p.local[r]);
    }
    sim::sample("place["); for (auto &v : p.doms) { sim::sample("("); for (int d : v) sim::sample("%d ", s.ids[d]); sim::sample(")"); } sim::sample("] ");
    return p;
}
inline vector<const Node *> domains(const Node &n) {     // own view of a local mesh
    vector<const Node *> r;
    if (n.dtype().is_empty()) return r;
    if (n.has_child("coordsets")) { r.push_back(&n); return r; }
    for (index_t i = 0; i < n.number_of_children(); i++) r.push_back(&n.child(i));
    return r;
}
// Own reading of a domain of any topology type: positions of vertices and the
// vertex set of every element. Knows nothing of how the library does it.
struct Geo { vector<std::array<double, 3>> v; vector<vector<int>> e; string topo; };
inline vector<double> numbers(const Node &n) { vector<double> r; conduit::double_accessor a = n.as_double_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
inline vector<long> ints(const Node &n) { vector<long> r; conduit::int64_accessor a = n.as_int64_accessor(); for (index_t i = 0; i < a.number_of_elements(); i++) r.push_back((long)a[i]); return r; }
inline int shape_size(const string &s) { return s == "point" ? 1 : s == "line" ? 2 : s == "tri" ? 3 : s == "quad" || s == "tet" ? 4 : s == "pyramid" ? 5 : s == "wedge" ? 6 : s == "hex" ? 8 : -1; }
inline int shape_of_id(long id) { static std::map<long, int> m{{1, 1}, {3, 2}, {5, 3}, {9, 4}, {10, 4}, {12, 8}, {13, 6}, {14, 5}}; return m.count(id) ? m[id] : -1; }
inline vector<vector<long>> read_o2m(const Node &el) {   // connectivity + sizes + offsets
    vector<long> c = ints(el["connectivity"]), sz = ints(el["sizes"]), of = el.has_child("offsets") ? ints(el["offsets"]) : vector<long>();
    vector<vector<long>> r; long o = 0;
    for (size_t i = 0; i < sz.size(); i++) { long b = of.size() ? of[i] : o; vector<long> x; for (long k = 0; k < sz[i]; k++) { if (b + k >= (long)c.size() || b + k < 0) sim::fail("mesh", "element %zu refers past the end of the connectivity", i); x.push_back(c[b + k]); } r.push_back(x); o += sz[i]; }
    return r;
}
inline Geo read(const Node &dom, const string &topo) {
    Geo g; g.topo = topo;
    if (!dom.has_child("topologies") || !dom["topologies"].has_child(topo)) sim::fail("mesh", "the domain has no topology %s", topo.c_str());
    const Node &t = dom["topologies"][topo]; const Node &c = dom["coordsets"][t["coordset"].as_string()];
    string ct = c["type"].as_string(), tt = t["type"].as_string();
    long vd[3] = {1, 1, 1}; int dim = 0;
    if (ct == "uniform") {
        const Node &d = c["dims"]; dim = (int)d.number_of_children(); double o[3] = {0, 0, 0}, s[3] = {1, 1, 1};
        for (int a = 0; a < dim; a++) { vd[a] = d.child(a).to_int64(); if (c.has_child("origin")) o[a] = c["origin"].child(a).to_double(); if (c.has_child("spacing")) s[a] = c["spacing"].child(a).to_double(); }
        for (long k = 0; k < vd[2]; k++) for (long j = 0; j < vd[1]; j++) for (long i = 0; i < vd[0]; i++) g.v.push_back({o[0] + s[0] * i, dim > 1 ? o[1] + s[1] * j : 0.0, dim > 2 ? o[2] + s[2] * k : 0.0});
    } else {
        const Node &v = c["values"]; dim = (int)v.number_of_children(); vector<vector<double>> x(3); for (int a = 0; a < dim; a++) x[a] = numbers(v.child(a));
        if (ct == "rectilinear") {
            for (int a = 0; a < dim; a++) vd[a] = (long)x[a].size();
            for (long k = 0; k < vd[2]; k++) for (long j = 0; j < vd[1]; j++) for (long i = 0; i < vd[0]; i++) g.v.push_back({x[0][i], dim > 1 ? x[1][j] : 0.0, dim > 2 ? x[2][k] : 0.0});
        } else {
            for (int a = 1; a < dim; a++) if (x[a].size() != x[0].size()) sim::fail("mesh", "coordinate arrays of different length");
            for (size_t i = 0; i < x[0].size(); i++) g.v.push_back({x[0][i], dim > 1 ? x[1][i] : 0.0, dim > 2 ? x[2][i] : 0.0});
            if (tt == "structured") { const Node &d = t["elements/dims"]; for (index_t a = 0; a < d.number_of_children(); a++) vd[a] = d.child(a).to_int64() + 1; }
        }
    }
    if (tt != "unstructured") {
        if (tt == "points") { for (size_t i = 0; i < g.v.size(); i++) g.e.push_back({(int)i}); return g; }
        if (vd[0] * vd[1] * vd[2] > (long)g.v.size()) sim::fail("mesh", "the topology needs %ld vertices, the coordset has %zu", vd[0] * vd[1] * vd[2], g.v.size());
        for (long k = 0; k < std::max(1L, vd[2] - 1); k++) for (long j = 0; j < std::max(1L, vd[1] - 1); j++) for (long i = 0; i < vd[0] - 1; i++) {
            vector<int> e;
            for (int dk = 0; dk < (dim > 2 ? 2 : 1); dk++) for (int dj = 0; dj < (dim > 1 ? 2 : 1); dj++) for (int di = 0; di < 2; di++) e.push_back((int)((i + di) + vd[0] * ((j + dj) + vd[1] * (k + dk))));
            g.e.push_back(e);
        }
        return g;
    }
    const Node &el = t["elements"]; string sh = el.has_child("element_types") ? "" : el.has_child("shape") ? el["shape"].as_string() : "groups"; vector<vector<long>> es;
    if (sh == "groups") {                          // one group per shape
        for (index_t i = 0; i < el.number_of_children(); i++) { int n = shape_size(el.child(i)["shape"].as_string()); vector<long> cn = ints(el.child(i)["connectivity"]); if (n < 0 || cn.size() % n) sim::fail("mesh", "bad element group"); for (size_t k = 0; k < cn.size(); k += n) es.push_back(vector<long>(cn.begin() + k, cn.begin() + k + n)); }
    } else if (sh.empty()) {                              // streams of element types
        std::map<long, int> sz; for (index_t i = 0; i < el["element_types"].number_of_children(); i++) sz[el["element_types"].child(i)["stream_id"].to_int64()] = shape_size(el["element_types"].child(i)["shape"].as_string());
        vector<long> id = ints(el["element_index/stream_ids"]), ct = ints(el["element_index/element_counts"]), st = ints(el["stream"]); size_t o = 0;
        for (size_t i = 0; i < id.size(); i++) for (long k = 0; k < ct[i]; k++) { if (!sz.count(id[i]) || o + sz[id[i]] > st.size()) sim::fail("mesh", "bad element stream"); es.push_back(vector<long>(st.begin() + o, st.begin() + o + sz[id[i]])); o += sz[id[i]]; }
    } else if (sh == "polyhedral") {
        vector<vector<long>> faces = read_o2m(t["subelements"]), cells = read_o2m(el);
        for (auto &cl : cells) { vector<long> x; for (long f : cl) { if (f < 0 || f >= (long)faces.size()) sim::fail("mesh", "face %ld does not exist", f); for (long v : faces[f]) if (!std::count(x.begin(), x.end(), v)) x.push_back(v); } es.push_back(x); }
    } else if (sh == "polygonal") es = read_o2m(el);
    else if (sh == "mixed") es = read_o2m(el);
    else {
        vector<long> cn = ints(el["connectivity"]); int n = shape_size(sh); if (n < 0) sim::fail("mesh", "shape %s", sh.c_str());
        if (cn.size() % n) sim::fail("mesh", "connectivity of %zu entries for shape %s", cn.size(), sh.c_str());
        for (size_t i = 0; i < cn.size(); i += n) es.push_back(vector<long>(cn.begin() + i, cn.begin() + i + n));
    }
    for (auto &x : es) { vector<int> y; for (long v : x) { if (v < 0 || v >= (long)g.v.size()) sim::fail("mesh", "an element refers to vertex %ld of %zu", v, g.v.size()); y.push_back((int)v); } g.e.push_back(y); }
    return g;
}
// positions -> what the construction put there
struct Atlas {
    std::map<std::array<double, 3>, long> vert;                  // position -> global vertex
    std::map<std::set<long>, std::array<long, 3>> elem;          // vertices -> element, domain, local index
    vector<Dom> L;
};
inline Atlas atlas(const Spec &s) {
    Atlas A;
    for (int d = 0; d < s.ndom(); d++) {
        Dom D = layout(s, d);
        for (size_t i = 0; i < D.v.size(); i++) { std::array<double, 3> p{0, 0, 0}; for (int a = 0; a < s.dim; a++) p[a] = coord(s, D.v[i], a); A.vert[p] = D.vg[i]; }
        for (size_t e = 0; e < D.conn.size(); e++) { std::set<long> k; for (int v : D.conn[e]) k.insert(D.vg[v]); A.elem[k] = {D.eg[e], (long)d, (long)e}; }
        A.L.push_back(D);
    }
    return A;
}
// Adjacency sets of all domains: groups of two domains name each other, list the same entities in the same order, and name all that are shared.
// ent: per domain id, the key of each entity; want: which keys must be listed for a pair (default: those both have)
template<class K> void check_adjset(const std::map<long, const Node *> &doms, const string &name, const string &assoc, const string &topo, const std::map<long, vector<K>> &ent, bool complete = true) {
    std::map<std::pair<long, long>, std::map<string, vector<K>>> seq;
    for (auto &kv : doms) {
        const Node &d = *kv.second; long id = kv.first; if (!d.has_child("adjsets") || !d["adjsets"].has_child(name)) continue;
        const Node &a = d["adjsets"][name];
        if (a["association"].as_string() != assoc || a["topology"].as_string() != topo) sim::fail("adjset", "adjset %s of domain %ld has association %s and topology %s", name.c_str(), id, a["association"].as_string().c_str(), a["topology"].as_string().c_str());
        const Node &gs = a["groups"];
        for (index_t i = 0; i < gs.number_of_children(); i++) {
            const Node &g = gs.child(i); vector<long> nb = ints(g["neighbors"]), va = g.has_child("values") ? ints(g["values"]) : vector<long>(); vector<K> ks;
            for (long v : va) { if (v < 0 || v >= (long)ent.at(id).size()) sim::fail("adjset", "adjset %s of domain %ld lists entity %ld of %zu", name.c_str(), id, v, ent.at(id).size()); ks.push_back(ent.at(id)[v]); }
            for (long b : nb) { if (b == id || !doms.count(b)) sim::fail("adjset", "adjset %s of domain %ld names neighbour %ld, which is %s", name.c_str(), id, b, b == id ? "itself" : "no domain"); auto &s = seq[{id, b}][g.name()]; if (!s.empty()) sim::fail("adjset", "adjset %s of domain %ld has two groups of one name for domain %ld", name.c_str(), id, b); s = ks; }
        }
    }
    for (auto &kv : seq) {
        auto it = seq.find({kv.first.second, kv.first.first}); long a = kv.first.first, b = kv.first.second; std::set<K> all;
        for (auto &g : kv.second) {
            if (g.second.empty() && (it == seq.end() || !it->second.count(g.first))) continue;
            if (it == seq.end() || !it->second.count(g.first)) sim::fail("adjset", "adjset %s: domain %ld has group %s with domain %ld, which has no such group", name.c_str(), a, g.first.c_str(), b);
            auto &o = it->second[g.first]; if (o.size() != g.second.size()) sim::fail("adjset", "adjset %s: group %s has %zu entities on domain %ld and %zu on domain %ld", name.c_str(), g.first.c_str(), g.second.size(), a, o.size(), b);
            for (size_t i = 0; i < o.size(); i++) { if (!(o[i] == g.second[i])) sim::fail("adjset", "adjset %s: entry %zu of group %s is a different entity on domains %ld and %ld", name.c_str(), i, g.first.c_str(), a, b); if (!all.insert(o[i]).second) sim::fail("adjset", "adjset %s: group %s of domains %ld and %ld lists an entity twice", name.c_str(), g.first.c_str(), a, b); }
        }
    }
    if (!complete) return;
    for (auto &x : doms) for (auto &y : doms) if (x.first != y.first) {
        std::set<K> xs(ent.at(x.first).begin(), ent.at(x.first).end()), both, got; for (auto &k : ent.at(y.first)) if (xs.count(k)) both.insert(k);
        auto it = seq.find({x.first, y.first}); if (it != seq.end()) for (auto &g : it->second) got.insert(g.second.begin(), g.second.end());
        if (both != got) sim::fail("adjset", "adjset %s: domains %ld and %ld share %zu entities, the adjset lists %zu", name.c_str(), x.first, y.first, both.size(), got.size());
    }
}
} // namespace mesh
#endif
