// C09, C10: derived topologies with adjacency sets, and queries between domains.
#include "mesh.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include "conduit_blueprint_mpi_mesh_utils.hpp"
#include <cmath>
#include <memory>
using namespace conduit;
using std::string; using std::vector;
namespace bm = conduit::blueprint::mpi::mesh;
namespace sm = conduit::blueprint::mesh;
namespace {
typedef std::array<long, 3> Pt;                        // position, in units far below any distance of the mesh
typedef vector<Pt> Key;                                // the vertices of an entity
Pt pt(const std::array<double, 3> &x) { Pt p; for (int a = 0; a < 3; a++) p[a] = std::lround(x[a] * 4096); return p; }
Key key(const mesh::Geo &g, const vector<int> &e) { Key k; for (int v : e) k.push_back(pt(g.v[v])); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); return k; }
const char *OPS[] = {"points", "lines", "faces", "centroids", "sides", "corners"};

// faces and edges of an element, as local vertex lists, from its shape
vector<vector<int>> edges_of(const vector<int> &e, int dim) {
    static const int q[4][2] = {{0,1},{1,2},{2,3},{3,0}}, t[3][2] = {{0,1},{1,2},{2,0}}, h[12][2] = {{0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7}}, T[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
    vector<vector<int>> r; auto add = [&](const int (*p)[2], int n) { for (int i = 0; i < n; i++) r.push_back({e[p[i][0]], e[p[i][1]]}); };
    if (dim == 2) { if (e.size() == 4) add(q, 4); else add(t, 3); } else if (e.size() == 8) add(h, 12); else add(T, 6);
    return r;
}
vector<vector<int>> faces_of(const vector<int> &e, int dim) {
    if (dim == 2) return {e};
    vector<vector<int>> r;
    if (e.size() == 8) { static const int f[6][4] = {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; for (auto &x : f) r.push_back({e[x[0]], e[x[1]], e[x[2]], e[x[3]]}); }
    else { static const int f[4][3] = {{0,1,2},{0,1,3},{1,2,3},{0,2,3}}; for (auto &x : f) r.push_back({e[x[0]], e[x[1]], e[x[2]]}); }
    return r;
}
vector<vector<long>> o2m(const Node &n) {
    if (n.dtype().is_number()) { vector<long> f = mesh::ints(n); vector<vector<long>> r; for (size_t i = 0; i < f.size();) { vector<long> x; for (long k = 0; k < f[i] && i + 1 + k < f.size(); k++) x.push_back(f[i + 1 + k]); i += 1 + f[i]; r.push_back(x); } return r; }   // count, ids, count, ids...
    vector<long> va = mesh::ints(n["values"]), sz = mesh::ints(n["sizes"]), of = mesh::ints(n["offsets"]); vector<vector<long>> r;
    if (sz.size() != of.size()) sim::fail("map", "a map has %zu sizes and %zu offsets", sz.size(), of.size());
    for (size_t i = 0; i < sz.size(); i++) { vector<long> x; for (long k = 0; k < sz[i]; k++) { if (of[i] + k >= (long)va.size()) sim::fail("map", "a map refers past its end"); x.push_back(va[of[i] + k]); } r.push_back(x); }
    return r;
}
const Node &map_of(const Node &m, const Node &mesh, const Node &dom, int i) { if (&mesh == &dom) return m; return m.child(i); }

void generate(int op, Node &m, Node &s2d, Node &d2s, MPI_Comm c) {
    switch (op) {
    case 0: bm::generate_points(m, "adj", "adj_out", "topo_out", s2d, d2s, c); break;
    case 1: bm::generate_lines(m, "adj", "adj_out", "topo_out", s2d, d2s, c); break;
    case 2: bm::generate_faces(m, "adj", "adj_out", "topo_out", s2d, d2s, c); break;
    case 3: bm::generate_centroids(m, "adj", "adj_out", "topo_out", "cset_out", s2d, d2s, c); break;
    case 4: bm::generate_sides(m, "adj", "adj_out", "topo_out", "cset_out", s2d, d2s, c); break;
    case 5: bm::generate_corners(m, "adj", "adj_out", "topo_out", "cset_out", s2d, d2s, c); break;
    }
}
double area(const mesh::Geo &g, const vector<int> &e) { double a = 0; for (size_t i = 0; i < e.size(); i++) { auto &p = g.v[e[i]], &q = g.v[e[(i + 1) % e.size()]]; a += p[0] * q[1] - q[0] * p[1]; } return std::fabs(a) / 2; }
double tetvol(const mesh::Geo &g, const vector<int> &e) {
    double u[3][3]; for (int i = 0; i < 3; i++) for (int a = 0; a < 3; a++) u[i][a] = g.v[e[i + 1]][a] - g.v[e[0]][a];
    return std::fabs(u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0]) + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0])) / 6;
}
// what one domain must contain after the call
void check_domain(const mesh::Spec &s, int op, const Node &dom, const Node &s2d, const Node &d2s) {
    long id = dom["state/domain_id"].to_int64();
    mesh::Geo g = mesh::read(dom, s.topo), h = mesh::read(dom, "topo_out"); int ne = (int)g.e.size();
    vector<vector<long>> sd = o2m(s2d), ds = o2m(d2s);
    if ((int)sd.size() != ne || ds.size() != h.e.size()) sim::fail("map", "maps of domain %ld have %zu and %zu entries for %d elements and %zu generated ones", id, sd.size(), ds.size(), ne, h.e.size());
    std::set<std::pair<long, long>> a, b;
    for (int e = 0; e < ne; e++) for (long x : sd[e]) a.insert({e, x});
    for (size_t x = 0; x < ds.size(); x++) for (long e : ds[x]) b.insert({e, (long)x});
    if (op != 4 && op != 5 ? a != b : a != b) sim::fail("map", "the maps of domain %ld are not inverse to each other", id);
    if (op < 3) {                  // every entity once, mapped to the elements it belongs to
        std::map<Key, std::set<long>> want; std::map<Key, long> have;
        for (int e = 0; e < ne; e++) {
            vector<vector<int>> es; if (op == 0) for (int v : g.e[e]) es.push_back({v}); else es = op == 1 ? edges_of(g.e[e], s.dim) : faces_of(g.e[e], s.dim);
            for (auto &x : es) want[key(g, x)].insert(e);
        }
        for (size_t x = 0; x < h.e.size(); x++) {
            Key k = key(h, h.e[x]); if (!want.count(k)) sim::fail("derived", "entity %zu of domain %ld does not exist", x, id);
            if (!have.insert({k, (long)x}).second) sim::fail("derived", "domain %ld lists an entity twice", id);
            if (std::set<long>(ds[x].begin(), ds[x].end()) != want[k]) sim::fail("map", "entity %zu of domain %ld is mapped to other elements than it belongs to", x, id);
        }
        if (have.size() != want.size()) sim::fail("derived", "domain %ld has %zu of %zu entities", id, have.size(), want.size());
    } else if (op == 3) {
        if ((int)h.e.size() != ne) sim::fail("derived", "domain %ld has %zu centroids for %d elements", id, h.e.size(), ne);
        for (int x = 0; x < ne; x++) {
            if (ds[x].size() != 1) sim::fail("map", "centroid %d of domain %ld is mapped to %zu elements", x, id, ds[x].size());
            auto &e = g.e[ds[x][0]]; std::array<double, 3> c{0, 0, 0}; for (int v : e) for (int q = 0; q < 3; q++) c[q] += g.v[v][q] / e.size();
            for (int q = 0; q < 3; q++) if (std::fabs(c[q] - h.v[h.e[x][0]][q]) > 1e-4) sim::fail("derived", "centroid %d of domain %ld is not in the middle of its element", x, id);
        }
    } else {                       // sides and corners cut every element into pieces
        for (int e = 0; e < ne; e++) {
            size_t want = op == 5 ? g.e[e].size() : s.dim == 2 ? g.e[e].size() : 0; if (op == 4 && s.dim == 3) for (auto &f : faces_of(g.e[e], 3)) want += f.size();
            if (sd[e].size() != want) sim::fail("derived", "element %d of domain %ld is cut into %zu pieces instead of %zu", e, id, sd[e].size(), want);
            if (s.dim == 2) { double t = 0; for (long x : sd[e]) t += area(h, h.e[x]); if (std::fabs(t - area(g, g.e[e])) > 1e-4 * (1 + t)) sim::fail("derived", "the pieces of element %d of domain %ld do not add up", e, id); }
            if (s.dim == 3 && op == 4) { double t = 0; for (long x : sd[e]) t += tetvol(h, h.e[x]); double v = 0; if (g.e[e].size() == 4) v = tetvol(g, g.e[e]); else { auto &p = g.v[g.e[e][0]], &q = g.v[g.e[e][6]]; v = std::fabs((q[0] - p[0]) * (q[1] - p[1]) * (q[2] - p[2])); } if (std::fabs(t - v) > 1e-4 * (1 + t)) sim::fail("derived", "the sides of element %d of domain %ld do not add up", e, id); }
        }
    }
}
string canon_domain(const Node &dom) { Node n; n.set(dom); return gen::canon(n); }
void strip(Node &dom) { dom["topologies"].remove_child("topo_out"); dom["adjsets"].remove_child("adj_out"); if (dom["coordsets"].has_child("cset_out")) dom["coordsets"].remove_child("cset_out"); }
} // namespace

SCENARIO(C09, derive, 1) {
    mesh::World w = mesh::draw_world(4); mesh::Opt o; o.kinds = {mesh::QUADHEX, mesh::TRITET}; o.adjset = true; o.irregular = true; o.gaps = sim::chance(1, 3); o.maxn2 = 4; o.maxn3 = 3;
    mesh::Spec s = mesh::draw(o); s.sparse.clear(); mesh::Placement p = mesh::place(s, w.n);
    int op = (int)sim::choose(6); sim::sample("%s ", OPS[op]);
    vector<Node> s2d(w.n), d2s(w.n); for (int r = 0; r < w.n; r++) if (sim::chance(1, 4)) { s2d[r] = 5; d2s[r]["old"] = 1; }
    std::map<long, string> before; for (int r = 0; r < w.n; r++) for (auto *d : mesh::domains(*p.local[r])) before[(*d)["state/domain_id"].to_int64()] = canon_domain(*d);
    bool twice = sim::chance(1, 6);              // the results of an earlier call are replaced
    mesh::run(w, [&](int me) { generate(op, *p.local[me], s2d[me], d2s[me], w.comm); if (twice) generate(op, *p.local[me], s2d[me], d2s[me], w.comm); });
    std::map<long, const Node *> doms; std::map<long, vector<Key>> ent;
    for (int r = 0; r < w.n; r++) { int i = 0; for (auto *d : mesh::domains(*p.local[r])) {
        long id = (*d)["state/domain_id"].to_int64(); doms[id] = d;
        check_domain(s, op, *d, map_of(s2d[r], *p.local[r], *d, i), map_of(d2s[r], *p.local[r], *d, i)); i++;
        mesh::Geo h = mesh::read(*d, "topo_out");
        if (op < 3) for (auto &e : h.e) ent[id].push_back(key(h, e)); else for (size_t v = 0; v < h.v.size(); v++) ent[id].push_back({pt(h.v[v])});
        Node c; c.set(*d); strip(c); if (canon_domain(c) != before[id]) sim::fail("source", "generating %s changed domain %ld otherwise", OPS[op], id);
        Node info; if (!sm::verify(*d, info)) sim::fail("invalid", "domain %ld is not a valid mesh after generating %s", id, OPS[op]);
    } }
    if ((int)doms.size() != s.ndom()) sim::fail("domains", "%zu of %d domains are left", doms.size(), s.ndom());
    mesh::check_adjset(doms, "adj_out", op < 3 ? "element" : "vertex", "topo_out", ent);
    // every placement gives what one process holding all domains gives
    simmpi::reset(); Node all, sa, da; for (int d = 0; d < s.ndom(); d++) mesh::build(s, d, all.append());
    simmpi::run_ranks(1, [&](int) { generate(op, all, sa, da, MPI_COMM_WORLD); });
    for (int d = 0; d < s.ndom(); d++) if (canon_domain(all.child(d)) != canon_domain(*doms[s.ids[d]])) sim::fail("placement", "generating %s gives a different domain %d on %d ranks than on one", OPS[op], s.ids[d], w.n);
}

// ------------------------------------------------------------------ C10
namespace {
struct Cloud { int id, dim; vector<std::array<double, 3>> p; };
void put_cloud(const Cloud &c, Node &n, const string &cset) {
    n["state/domain_id"] = c.id; Node &k = n["coordsets"][cset]; k["type"] = "explicit"; const char *ax[3] = {"x", "y", "z"}; int ty = (int)sim::choose(4);
    for (int a = 0; a < c.dim; a++) { vector<double> v; for (auto &p : c.p) v.push_back(p[a]); Node &o = k["values"][ax[a]]; if (ty == 1 || (ty == 2 && a == 0)) { vector<float> f(v.begin(), v.end()); o.set(f); } else o.set(v); }
    n["topologies/t/type"] = "points"; n["topologies/t/coordset"] = cset;
}
}
// points asked of domains anywhere
static void points(bool big) {
    mesh::World w = mesh::draw_world(big ? 2 : 4); int nd = sim::range(1, big ? 2 : 5), dim = sim::range(big ? 2 : 1, 3); vector<Cloud> cl; vector<int> where; string cset = sim::chance(1, 2) ? "coords" : "c";
    int id = 0; bool gaps = sim::chance(1, 3);
    for (int d = 0; d < nd; d++) {
        Cloud c; if (gaps) id += (int)sim::choose(4); c.id = id++; c.dim = dim;
        int n = big && d == 0 && dim > 1 ? 25 * 25 * 25 + (int)sim::choose(40) : sim::chance(1, 8) ? 0 : sim::range(1, 12);
        bool sym = n > 1000, flat = n > 1000 && sim::chance(1, 3); int cells = sim::chance(1, 2) ? 64 : 32; double base = sim::chance(1, 3) ? 1000 : 0;   // a large symmetric set puts points on the cuts of a search tree
        uint32_t x = 77 + sim::choose(1000); for (int i = 0; i < n; i++) { std::array<double, 3> p{0, 0, 0}; for (int a = 0; a < dim; a++) { x = x * 1664525u + 1013904223u; p[a] = !sym ? 0.25 * (double)(int)((x >> 20) % 5) - 1 : flat && a == dim - 1 ? base + 0.25 : 0.25 * ((double)(int)((x >> 20) % (cells + 1)) - cells / 2) + base; } c.p.push_back(p); } if (sym) { std::array<double, 3> lo{base, base, base}, hi = lo; for (int a = 0; a < dim; a++) if (!(flat && a == dim - 1)) { lo[a] -= 0.125 * cells; hi[a] += 0.125 * cells; } else lo[a] = hi[a] = base + 0.25; for (int a = dim; a < 3; a++) lo[a] = hi[a] = 0; c.p[0] = lo; c.p[1] = hi; }
        cl.push_back(c);
    }
    { vector<int> q = sim::permutation(nd); vector<Cloud> t; for (int i : q) t.push_back(cl[i]); cl = t; }
    vector<std::shared_ptr<Node>> m; for (int r = 0; r < w.n; r++) m.push_back(std::make_shared<Node>());
    where.resize(nd); for (int d = 0; d < nd; d++) where[d] = (int)sim::choose(w.n);
    bool list = sim::chance(1, 2);
    for (int r = 0; r < w.n; r++) { int cnt = (int)std::count(where.begin(), where.end(), r); bool single = cnt == 1 && sim::chance(1, 2); for (int d = 0; d < nd; d++) if (where[d] == r) put_cloud(cl[d], single ? *m[r] : list ? m[r]->append() : (*m[r])["d" + std::to_string(cl[d].id)], cset); }
    int rounds = sim::range(1, 2); bool bad = sim::chance(1, 12); double tol = sim::chance(1, 4) ? 1e-3 : 1e-9; if (tol > 1e-4) sim::sample("tolerance ");
    vector<std::pair<int, int>> edgy; int bigd = 0;
    if (big) {
        for (int d = 0; d < nd; d++) if (cl[d].p.size() > cl[bigd].p.size()) bigd = d;
        auto &P = cl[bigd].p; for (int a = 0; a < dim; a++) { double lo = 1e300, hi = -1e300; for (auto &p : P) { lo = std::min(lo, p[a]); hi = std::max(hi, p[a]); }
            for (size_t i = 0; i < P.size(); i++) if (P[i][a] == lo || P[i][a] == hi || P[i][a] == (lo + hi) / 2 || P[i][a] == lo + (hi - lo) / 4) edgy.push_back({(int)i, a}); }
    }
    struct Q { int dom; std::array<double, 3> p; index_t idx; }; vector<vector<vector<Q>>> qs(w.n, vector<vector<Q>>(rounds));
    for (int r = 0; r < w.n; r++) for (int k = 0; k < rounds; k++) { int n = sim::chance(1, 4) ? 0 : big ? sim::range(1, 80) : sim::range(1, 10); for (int i = 0; i < n; i++) {
        if (big && edgy.size() && !sim::chance(1, 4)) {      // points at the border of the set or on the first cuts
            Q q; q.dom = cl[bigd].id; q.idx = -1; auto &e = edgy[sim::choose((uint32_t)edgy.size())]; q.p = cl[bigd].p[e.first];
            int how = (int)sim::choose(4); if (how == 1) q.p[e.second] += 0.25 * tol; if (how == 2) q.p[e.second] -= 0.25 * tol; if (how == 3) q.p[e.second] += 0.0625;
            qs[r][k].push_back(q); continue;
        }
        Q q; int d = (int)sim::choose(nd); q.dom = cl[d].id; q.idx = -1; q.p = {0, 0, 0};
        const Cloud &src = sim::chance(1, 2) ? cl[d] : cl[sim::choose(nd)];
        if (!src.p.empty()) q.p = src.p[sim::choose((uint32_t)src.p.size())];
        int how = (int)sim::choose(4); if (how == 1) q.p[sim::choose(dim)] += 0.0625; if (how == 2) q.p[sim::choose(dim)] += tol * (sim::chance(1, 2) ? 0.25 : -0.25); if (how == 3 && (!big || tol > 1e-4)) q.p[sim::choose(dim)] -= tol * 8;
        qs[r][k].push_back(q); } }
    int bader = -1; if (bad) { bader = (int)sim::choose(w.n); Q q; q.dom = id + (int)sim::choose(3); q.p = {0, 0, 0}; qs[bader][0].push_back(q); sim::sample("unknown-domain "); }
    sim::sample("%dD domains=%d rounds=%d%s", dim, nd, rounds, big ? " big" : "");
    vector<int> threw(w.n); vector<vector<vector<int>>> res(w.n, vector<vector<int>>(rounds)); bool reuse = sim::chance(1, 2), more = reuse && !bad && sim::chance(1, 2);   // more: a second execution with more points
    mesh::run(w, [&](int me) {
        bm::utils::query::PointQuery one(*m[me], w.comm);
        for (int k = 0; k < rounds; k++) {
            bm::utils::query::PointQuery fresh(*m[me], w.comm); auto &PQ = reuse ? one : fresh; if (k && reuse && !more) PQ.reset();
            if (tol != 1e-9) PQ.setPointTolerance(tol);
            for (auto &q : qs[me][k]) q.idx = PQ.add(q.dom, q.p.data());
            try { PQ.execute(cset); } catch (conduit::Error &) { if (!bad || k) throw; threw[me] = 1; continue; }
            for (auto &q : qs[me][k]) { auto &r = PQ.results(q.dom); size_t cnt = 0; for (auto &z : qs[me][k]) if (z.dom == q.dom) cnt++; if (more && k) for (auto &z : qs[me][0]) if (z.dom == q.dom) cnt++; if (r.size() != cnt) sim::fail("size", "%zu answers for %zu points asked of domain %d", r.size(), cnt, q.dom); res[me][k].push_back(r[q.idx]); }
        }
    });
    if (bad) { for (int r = 0; r < w.n; r++) if (!threw[r]) sim::fail("unknown", "asking a domain that does not exist is not reported on rank %d", r); }
    for (int r = 0; r < w.n; r++) for (int k = bad ? 1 : 0; k < rounds; k++) for (size_t i = 0; i < qs[r][k].size(); i++) {
        Q &q = qs[r][k][i]; const Cloud *c = nullptr; for (auto &x : cl) if (x.id == q.dom) c = &x;
        auto near = [&](const std::array<double, 3> &p) { double d = 0; for (int a = 0; a < dim; a++) d += (p[a] - q.p[a]) * (p[a] - q.p[a]); return std::sqrt(d) < tol; };
        bool any = false; for (auto &p : c->p) any |= near(p); int got = res[r][k][i];
        if (got == bm::utils::query::PointQuery::NotFound) { if (any) sim::fail("absent", "rank %d is told that domain %d does not have a point it has", r, q.dom); }
        else if (got < 0 || got >= (int)c->p.size()) sim::fail("present", "rank %d gets point %d of domain %d, which has %zu", r, got, q.dom, c->p.size());
        else if (!near(c->p[got])) sim::fail("present", "rank %d gets point %d of domain %d, which is another point", r, got, q.dom);
    }
}
SCENARIO(C10, points, 4) { points(false); }
SCENARIO(C10, clouds, 2) { points(true); }
// entities asked between pairs of domains
SCENARIO(C10, entities, 4) {
    mesh::World w = mesh::draw_world(4); mesh::Opt o; o.kinds = {mesh::QUADHEX, mesh::TRITET}; o.irregular = true; o.gaps = sim::chance(1, 3); o.maxn2 = 4; o.maxn3 = 2; mesh::Spec s = mesh::draw(o); s.sparse.clear(); s.fields = false;
    mesh::Placement p = mesh::place(s, w.n); vector<mesh::Dom> L; vector<mesh::Geo> G; for (int d = 0; d < s.ndom(); d++) { L.push_back(mesh::layout(s, d)); Node n; mesh::build(s, d, n); G.push_back(mesh::read(n, s.topo)); }
    struct Q { int from, to; vector<index_t> ids; Key k; size_t idx; int got; }; vector<vector<Q>> qs(w.n); std::map<std::pair<int, int>, std::set<Key>> asked; bool oneway = sim::chance(1, 4);
    for (int d = 0; d < s.ndom(); d++) for (int e = 0; e < s.ndom(); e++) if (d < e && sim::chance(3, 4)) for (int dir = 0; dir < 2; dir++) {
        if (oneway && sim::chance(1, 3)) continue;
        int a = dir ? e : d, b = dir ? d : e, n = sim::range(1, 5);
        vector<vector<int>> shared, mine; for (auto &el : L[a].conn) { int kd = (int)sim::choose(3); vector<vector<int>> x; if (kd == 0) x = edges_of(el, s.dim); else if (kd == 1) x = faces_of(el, s.dim); else for (int v : el) x.push_back({v}); for (auto &y : x) { bool in = true; for (int v : y) in &= L[b].local.count(L[a].vg[v]) > 0; (in ? shared : mine).push_back(y); } }
        for (int i = 0; i < n; i++) { auto &from = !shared.empty() && (mine.empty() || sim::chance(3, 4)) ? shared : mine; const vector<int> &x = from[sim::choose((uint32_t)from.size())]; Q q; q.from = s.ids[a]; q.to = s.ids[b]; for (int v : x) q.ids.push_back(v); if (sim::chance(1, 3)) std::reverse(q.ids.begin(), q.ids.end()); q.k = key(G[a], x); asked[{q.from, q.to}].insert(q.k); qs[p.rank_of[a]].push_back(q); }
    }
    mesh::run(w, [&](int me) {
        bm::utils::query::MatchQuery M(*p.local[me], w.comm); M.selectTopology(s.topo);
        for (auto &q : qs[me]) q.idx = M.add(q.from, q.to, q.ids);
        M.execute();
        for (auto &q : qs[me]) { q.got = M.exists(q.from, q.to, q.idx); size_t cnt = 0; for (auto &z : qs[me]) if (z.from == q.from && z.to == q.to) cnt++; if (M.results(q.from, q.to).size() != cnt) sim::fail("size", "%zu answers for %zu entities", M.results(q.from, q.to).size(), cnt); }
    });
    for (int r = 0; r < w.n; r++) for (auto &q : qs[r]) { auto it = asked.find({q.to, q.from}); bool want = it != asked.end() && it->second.count(q.k); if (q.got != (int)want) sim::fail("match", "domain %d is told that an entity %s one of domain %d's; it %s", q.from, q.got ? "is" : "is not", q.to, want ? "is" : "is not"); }
}
namespace {
Node &dom_of(const mesh::Placement &p, const mesh::Spec &s, int d) { Node &n = *p.local[p.rank_of[d]]; if (n.has_child("coordsets")) return n; for (size_t k = 0; k < p.doms[p.rank_of[d]].size(); k++) if (p.doms[p.rank_of[d]][k] == d) return n.child(k); (void)s; return n; }
// Damage one adjacency set so that it names an entity the neighbour does not have (foreign), or lists other points than the neighbour (pointwise). False: nothing to damage.
bool damage(mesh::Spec &s, mesh::Placement &p, const vector<mesh::Dom> &L, bool pointwise, string &how) {
    vector<int> perm = sim::permutation(s.ndom());
    for (int d : perm) {
        Node &g = dom_of(p, s, d)["adjsets/adj/groups"]; index_t ng = g.number_of_children(); if (!ng) continue;
        index_t gi = sim::choose((uint32_t)ng); Node &G = g.child(gi); vector<long> nb = mesh::ints(G["neighbors"]), va = mesh::ints(G["values"]);
        int kind = pointwise ? (int)sim::choose(4) : sim::chance(1, 3) ? 4 : 0; vector<int64> nv(va.begin(), va.end());
        if (kind == 0) {                      // a vertex none of the neighbours has
            vector<int> cand; for (size_t v = 0; v < L[d].vg.size(); v++) { bool has = false; for (long b : nb) for (int e = 0; e < s.ndom(); e++) if (s.ids[e] == b && L[e].local.count(L[d].vg[v])) has = true; if (!has) cand.push_back((int)v); }
            if (cand.empty()) continue;
            nv[sim::choose((uint32_t)nv.size())] = cand[sim::choose((uint32_t)cand.size())]; how = "foreign vertex";
        } else if (kind == 1) { if (nv.size() < 2) continue; int i = (int)sim::choose((uint32_t)nv.size() - 1); std::swap(nv[i], nv[i + 1]); how = "swapped"; }
        else if (kind == 2) { if (nv.size() < 2) continue; nv.erase(nv.begin() + sim::choose((uint32_t)nv.size())); how = "dropped"; }
        else if (kind == 4) { g.reset(); g.set(DataType::object()); how = "no groups"; return true; }
        else { string nm = G.name(); g.remove_child(nm); how = "group removed"; return true; }
        G["values"].reset(); G["values"].set(nv); return true;
    }
    return false;
}
void adjsets(bool pointwise) {
    mesh::World w = mesh::draw_world(4); mesh::Opt o; o.adjset = true; o.irregular = true; o.gaps = sim::chance(1, 3); o.maxn2 = 4; o.maxn3 = 2; o.kinds = {mesh::QUADHEX, mesh::TRITET, mesh::STRUCTURED}; mesh::Spec s = mesh::draw(o); s.sparse.clear(); s.fields = false; if (pointwise) s.adj_style = 0;
    mesh::Placement p = mesh::place(s, w.n); vector<mesh::Dom> L; for (int d = 0; d < s.ndom(); d++) L.push_back(mesh::layout(s, d));
    string how; bool bad = sim::chance(1, 2) && damage(s, p, L, pointwise, how); if (bad) sim::sample("%s ", how.c_str());
    bool again = sim::chance(1, 3); vector<string> before; for (auto *n : p.local) before.push_back(gen::canon(*n));
    vector<vector<int>> got(w.n, vector<int>(2, -1)); vector<Node> info(w.n);
    mesh::run(w, [&](int me) { for (int k = 0; k < (again ? 2 : 1); k++) got[me][k] = pointwise ? bm::utils::adjset::compare_pointwise(*p.local[me], "adj", info[me], w.comm) : bm::utils::adjset::validate(*p.local[me], "adj", info[me], w.comm); });
    for (int r = 0; r < w.n; r++) for (int k = 0; k < (again ? 2 : 1); k++) if (got[r][k] != (int)!bad) sim::fail("verdict", "rank %d is told that the adjsets are %s; they are %s (%s)", r, got[r][k] ? "right" : "wrong", bad ? "wrong" : "right", how.c_str());
    if (bad) { bool any = false; for (auto &n : info) any |= n.number_of_children() > 0; if (!any) sim::fail("info", "no rank says what is wrong"); }
    for (int r = 0; r < w.n; r++) if (gen::canon(*p.local[r]) != before[r]) sim::fail("source", "checking the adjsets changed the mesh of rank %d", r);
}
} // namespace
SCENARIO(C10, validate, 4) { adjsets(false); }
SCENARIO(C10, compare, 4) { adjsets(true); }
// element adjsets: those of generated faces and edges
SCENARIO(C10, validate_elements, 4) {
    mesh::World w = mesh::draw_world(4); mesh::Opt o; o.adjset = true; o.irregular = true; o.gaps = sim::chance(1, 3); o.maxn2 = 4; o.maxn3 = 2; o.kinds = {mesh::QUADHEX, mesh::TRITET}; mesh::Spec s = mesh::draw(o); s.sparse.clear(); s.fields = false;
    // built here, all on one rank, so that only the check itself is distributed
    mesh::Placement p = mesh::place(s, w.n); simmpi::Config cfg = simmpi::cfg;
    int op = s.dim == 2 ? 1 : 2; std::map<long, Node> out;
    for (int d = 0; d < s.ndom(); d++) { Node n, a, b; mesh::build(s, d, n); Node &t = n["topologies/topo_out"]; if (op == 1) sm::topology::unstructured::generate_lines(n["topologies"][s.topo], t, a, b); else sm::topology::unstructured::generate_faces(n["topologies"][s.topo], t, a, b); out[d].set(n); }
    std::map<int, std::map<Key, int>> ents; for (int d = 0; d < s.ndom(); d++) { mesh::Geo h = mesh::read(out[d], "topo_out"); for (size_t e = 0; e < h.e.size(); e++) ents[d][key(h, h.e[e])] = (int)e; }
    struct G { int d; string name; }; vector<G> groups;
    for (int d = 0; d < s.ndom(); d++) {
        Node &a = out[d]["adjsets/eadj"]; a["association"] = "element"; a["topology"] = "topo_out"; a["groups"].set(DataType::object());
        for (int e = 0; e < s.ndom(); e++) if (e != d) { vector<int64> v; for (auto &kv : ents[d]) if (ents[e].count(kv.first)) v.push_back(kv.second); if (v.empty()) continue; string nm = "group_" + std::to_string(std::min(s.ids[d], s.ids[e])) + "_" + std::to_string(std::max(s.ids[d], s.ids[e])); a["groups"][nm]["neighbors"].set(vector<int64>{s.ids[e]}); a["groups"][nm]["values"].set(v); groups.push_back({d, nm}); }
    }
    string how; bool bad = !groups.empty() && sim::chance(1, 2);
    if (bad) { G g = groups[sim::choose((uint32_t)groups.size())]; Node &n = out[g.d]["adjsets/eadj/groups"][g.name]; int nb = (int)n["neighbors"].to_int64(), e = 0; for (int x = 0; x < s.ndom(); x++) if (s.ids[x] == nb) e = x; vector<int64> v; for (long x : mesh::ints(n["values"])) v.push_back(x);
        vector<int> cand; for (auto &kv : ents[g.d]) if (!ents[e].count(kv.first)) cand.push_back(kv.second); if (sim::chance(1, 3)) cand = {(int)ents[g.d].size() + (int)sim::choose(3)};
        if (cand.empty()) bad = false; else { v[sim::choose((uint32_t)v.size())] = cand[sim::choose((uint32_t)cand.size())]; n["values"].set(v); how = "foreign element"; sim::sample("foreign "); } }
    for (int d = 0; d < s.ndom(); d++) { Node &n = dom_of(p, s, d); n.set(out[d]); }
    vector<int> got(w.n, -1); vector<Node> info(w.n); simmpi::cfg = cfg;
    mesh::run(w, [&](int me) { got[me] = bm::utils::adjset::validate(*p.local[me], "eadj", info[me], w.comm); });
    for (int r = 0; r < w.n; r++) if (got[r] != (int)!bad) sim::fail("verdict", "rank %d is told that the adjsets are %s; they are %s (%s)", r, got[r] ? "right" : "wrong", bad ? "wrong" : "right", how.c_str());
}
