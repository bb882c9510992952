// C12: structured refinement-level meshes converted to polygons and polyhedra on many ranks.
#include "sim.hpp"
#include "gen.hpp"
#include "mesh.hpp"
#include "conduit.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
using namespace conduit;
using std::string;
using std::vector;
namespace bm = conduit::blueprint::mpi::mesh;
namespace {
typedef std::array<double, 3> P3;
void quiet(const string &, const string &, int) {}
struct D { int lo[3], hi[3], level, R, id, rank; string name; };
struct M {
    int dim, r; vector<D> d; vector<vector<double>> X; int shift[3]; string topo, cset; bool f32 = false, wide = false, corners = true; vector<P3> jit; int n[3];
    // vertices on the straight edges of the coarse cells (2D: moved corners, 3D: a rectilinear grid)
    P3 at(double x, double y, double z) const {
        double c[3] = {x, y, z}; int b[3]; double f[3]; P3 p{{0, 0, 0}};
        for (int a = 0; a < dim; a++) { b[a] = std::min((int)std::floor(c[a]), n[a] - 1); f[a] = c[a] - b[a]; }
        if (dim == 3) { for (int a = 0; a < 3; a++) p[a] = X[a][b[a]] * (1 - f[a]) + X[a][b[a] + 1] * f[a]; return p; }
        for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) { double w = (i ? f[0] : 1 - f[0]) * (j ? f[1] : 1 - f[1]); const P3 &q = jit[(size_t)((b[1] + j) * (n[0] + 1) + b[0] + i)]; for (int a = 0; a < 2; a++) p[a] += w * (X[a][b[a] + (a ? j : i)] + q[a]); }
        return p;
    }
    P3 vert(const D &x, int i, int j, int k) const { return at(x.lo[0] + (double)i / x.R, x.lo[1] + (double)j / x.R, dim == 3 ? x.lo[2] + (double)k / x.R : 0); }
};
M draw_mesh(int dim, int row = -1) {
    M m; m.dim = dim; m.r = 2 + (int)sim::choose(dim == 2 ? 3 : 2); int cut[3][5], nb[3] = {1, 1, 1};
    for (int a = 0; a < 3; a++) { m.n[a] = 0; cut[a][0] = 0; if (a >= dim) continue; nb[a] = row >= 0 ? (a == row ? 1 + (int)sim::choose(4) : 1) : 1 + (int)sim::choose(dim == 2 ? 3 : 2); for (int b = 0; b < nb[a]; b++) { m.n[a] += 1 + (int)sim::choose(dim == 2 ? 3 : 2); cut[a][b + 1] = m.n[a]; } m.shift[a] = sim::chance(1, 2) ? 0 : sim::range(-4, 9); }
    m.shift[2] = dim == 3 ? m.shift[2] : 0;
    for (int a = 0; a < 3; a++) { m.X.push_back({}); double x = 0; for (int i = 0; i <= m.n[a] + 1; i++) { m.X[a].push_back(x); x += 1 + sim::choose(3); } }
    for (int i = 0; i < (m.n[0] + 1) * (m.n[1] + 1); i++) m.jit.push_back(P3{{0.0625 * sim::range(0, 4), 0.0625 * sim::range(0, 4), 0}});
    int maxl = dim == 2 && sim::chance(1, 4) ? 2 : 1; if (maxl == 2) m.r = 2 + (int)sim::choose(2);
    for (int q = 0; q < nb[2]; q++) for (int j = 0; j < nb[1]; j++) for (int i = 0; i < nb[0]; i++) {
        D x; int b[3] = {i, j, q}; for (int a = 0; a < 3; a++) { x.lo[a] = a < dim ? cut[a][b[a]] : 0; x.hi[a] = a < dim ? cut[a][b[a] + 1] : 0; }
        x.level = (int)sim::choose((uint32_t)maxl + 1); x.R = 1; for (int l = 0; l < x.level; l++) x.R *= m.r;
        int a = row >= 0 ? row : (int)sim::choose((uint32_t)dim); x.rank = 0; x.id = 0;
        if (x.hi[a] - x.lo[a] > 1 && sim::chance(1, 3)) { D y = x; int c = sim::range(x.lo[a] + 1, x.hi[a] - 1); x.hi[a] = c; y.lo[a] = c; if (sim::chance(1, 3)) { y.level = (int)sim::choose((uint32_t)maxl + 1); y.R = 1; for (int l = 0; l < y.level; l++) y.R *= m.r; } m.d.push_back(y); }
        m.d.push_back(x);
    }
    auto pm = sim::permutation((int)m.d.size()); int gap = sim::chance(1, 4) ? 7 : 1;
    for (size_t i = 0; i < m.d.size(); i++) { m.d[i].id = pm[i] * gap + (gap > 1 ? 3 : 0); char b[32]; snprintf(b, sizeof b, "domain_%06d", m.d[i].id); m.d[i].name = b; }
    m.topo = sim::chance(1, 2) ? "topo" : "mesh2"; m.cset = "coords"; return m;
}
void window(Node &w, const M &m, const D &x, const int *lo, const int *hi, int ratio) {
    static const char *ax[] = {"i", "j", "k"}; w["level_id"] = x.level;
    for (int a = 0; a < m.dim; a++) { w["origin"][ax[a]] = (lo[a] + m.shift[a]) * x.R; w["dims"][ax[a]] = (hi[a] - lo[a]) * x.R + 1; w["ratio"][ax[a]] = ratio; }
}
void build(const M &m, const D &x, Node &n) {
    static const char *ax[] = {"i", "j", "k"}, *o0[] = {"i0", "j0", "k0"}, *cx[] = {"x", "y", "z"}; int w[3] = {1, 1, 1};
    if (m.wide) { n["state/domain_id"] = (int64)x.id; n["state/level_id"] = (int64)x.level; } else { n["state/domain_id"] = x.id; n["state/level_id"] = x.level; } n["state/cycle"] = 4;
    for (int a = 0; a < m.dim; a++) w[a] = (x.hi[a] - x.lo[a]) * x.R;
    vector<double> c[3]; for (int k = 0; k <= (m.dim == 3 ? w[2] : 0); k++) for (int j = 0; j <= w[1]; j++) for (int i = 0; i <= w[0]; i++) { P3 p = m.vert(x, i, j, k); for (int a = 0; a < m.dim; a++) c[a].push_back(p[a]); }
    n["coordsets"][m.cset]["type"] = "explicit";
    for (int a = 0; a < m.dim; a++) { Node &v = n["coordsets"][m.cset]["values"][cx[a]]; if (m.f32) { vector<float> f(c[a].begin(), c[a].end()); v.set(f); } else v.set(c[a]); }
    Node &t = n["topologies"][m.topo]; t["coordset"] = m.cset; t["type"] = "structured";
    for (int a = 0; a < m.dim; a++) { t["elements/origin"][o0[a]] = (x.lo[a] + m.shift[a]) * x.R; t["elements/dims"][ax[a]] = w[a]; }
    long ne = (long)w[0] * w[1] * (m.dim == 3 ? w[2] : 1); vector<double> f; for (long e = 0; e < ne; e++) f.push_back(x.id * 1000.0 + e);
    n["fields/f/association"] = "element"; n["fields/f/topology"] = m.topo; n["fields/f/values"].set(f);
    Node &as = n["adjsets/adjset"]; as["association"] = "vertex"; as["topology"] = m.topo; as["groups"].set(DataType::object());
    auto pm = sim::permutation((int)m.d.size()); int g = 0;
    for (int q : pm) {
        const D &y = m.d[(size_t)q]; if (y.id == x.id) continue; int lo[3], hi[3]; int spread = 0; bool touch = true;
        for (int a = 0; a < m.dim; a++) { lo[a] = std::max(x.lo[a], y.lo[a]); hi[a] = std::min(x.hi[a], y.hi[a]); if (lo[a] > hi[a]) touch = false; if (hi[a] > lo[a]) spread++; }
        if (!touch || (!m.corners && spread < m.dim - 1)) continue;
        char nm[32]; snprintf(nm, sizeof nm, "group_%06d", ++g); Node &gr = as["groups"][nm];
        if (m.wide) gr["neighbors"].set(vector<int64>{x.id, y.id}); else gr["neighbors"].set(vector<int>{x.id, y.id}); gr["rank"] = y.rank;
        int ratio = std::max(x.R, y.R) / std::min(x.R, y.R); char w1[32], w2[32]; snprintf(w1, sizeof w1, "window_%06d", x.id); snprintf(w2, sizeof w2, "window_%06d", y.id);
        window(gr["windows"][w1], m, x, lo, hi, ratio); window(gr["windows"][w2], m, y, lo, hi, ratio);
    }
    if (as["groups"].number_of_children() == 0 && sim::chance(1, 2)) n.remove("adjsets");
}
struct Placed { vector<vector<int>> doms; vector<std::unique_ptr<Node>> in; vector<bool> bare; };
Placed place(M &m, int nr, int style) {
    Placed p; p.doms.resize((size_t)nr);
    for (auto &x : m.d) x.rank = style == 0 ? 0 : (int)sim::choose((uint32_t)nr);
    for (size_t i = 0; i < m.d.size(); i++) p.doms[(size_t)m.d[i].rank].push_back((int)i);
    for (int r = 0; r < nr; r++) {
        p.in.emplace_back(new Node); p.bare.push_back(m.dim == 2 && p.doms[r].size() == 1 && sim::chance(1, 4));
        auto o = sim::permutation((int)p.doms[r].size()); vector<int> q; for (int i : o) q.push_back(p.doms[r][(size_t)i]); p.doms[r] = q;
        for (int i : q) { if (p.bare[r]) build(m, m.d[(size_t)i], *p.in[r]); else build(m, m.d[(size_t)i], (*p.in[r])[m.d[(size_t)i].name]); }
    }
    return p;
}
bool near(const P3 &a, const P3 &b) { return std::fabs(a[0] - b[0]) < 1e-5 && std::fabs(a[1] - b[1]) < 1e-5 && std::fabs(a[2] - b[2]) < 1e-5; }
string show(const vector<P3> &v) { string s; char b[64]; for (auto &p : v) { snprintf(b, sizeof b, "(%g,%g) ", p[0], p[1]); s += b; } return s; }

// the polygon of one cell: its corners and the vertices finer neighbours put on its edges
vector<P3> want_poly(const M &m, const D &x, int i, int j, long &added) {
    vector<P3> v; int c[4][2] = {{i, j}, {i + 1, j}, {i + 1, j + 1}, {i, j + 1}};
    for (int s = 0; s < 4; s++) {
        int a0 = c[s][0], b0 = c[s][1], a1 = c[(s + 1) % 4][0], b1 = c[(s + 1) % 4][1]; v.push_back(m.vert(x, a0, b0, 0));
        bool bnd = (s == 0 && j == 0) || (s == 1 && a0 == (x.hi[0] - x.lo[0]) * x.R) || (s == 2 && b0 == (x.hi[1] - x.lo[1]) * x.R) || (s == 3 && i == 0); if (!bnd) continue;
        // the domain on the other side of the edge's middle
        double mx = x.lo[0] + (a0 + a1) / 2.0 / x.R, my = x.lo[1] + (b0 + b1) / 2.0 / x.R, e = 1e-3; if (s == 0) my -= e; if (s == 1) mx += e; if (s == 2) my += e; if (s == 3) mx -= e;
        for (auto &y : m.d) if (mx > y.lo[0] && mx < y.hi[0] && my > y.lo[1] && my < y.hi[1] && y.level > x.level) {
            int k = y.R / x.R; for (int t = 1; t < k; t++) { double u = (double)t / k; v.push_back(m.at(x.lo[0] + (a0 + (a1 - a0) * u) / x.R, x.lo[1] + (b0 + (b1 - b0) * u) / x.R, 0)); added++; } }
    }
    return v;
}
void check2(const M &m, const D &x, const Node &in, const Node &out) {
    if (!out.has_path("topologies/" + m.topo + "/elements/connectivity")) sim::fail("missing", "domain %d has no result", x.id);
    const Node &t = out["topologies"][m.topo], &e = t["elements"];
    if (t["type"].as_string() != "unstructured" || e["shape"].as_string() != "polygonal" || t["coordset"].as_string() != m.cset) sim::fail("type", "domain %d is not polygonal", x.id);
    vector<double> X = mesh::numbers(out["coordsets"][m.cset]["values/x"]), Y = mesh::numbers(out["coordsets"][m.cset]["values/y"]);
    vector<vector<long>> el = mesh::read_o2m(e); int w = (x.hi[0] - x.lo[0]) * x.R, h = (x.hi[1] - x.lo[1]) * x.R; long added = 0;
    if ((long)el.size() != (long)w * h) sim::fail("elements", "domain %d has %zu elements instead of %d", x.id, el.size(), w * h);
    long nv = (long)(w + 1) * (h + 1);
    if ((long)X.size() < nv || Y.size() != X.size()) sim::fail("vertices", "domain %d has %zu vertices", x.id, X.size());
    for (int j = 0; j <= h; j++) for (int i = 0; i <= w; i++) { long v = (long)j * (w + 1) + i; if (!near(P3{{X[v], Y[v], 0}}, m.vert(x, i, j, 0))) sim::fail("vertices", "vertex %ld of domain %d moved", v, x.id); }
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) {
        vector<P3> want = want_poly(m, x, i, j, added), got; auto &q = el[(size_t)(j * w + i)];
        for (long v : q) { if (v < 0 || v >= (long)X.size()) sim::fail("connectivity", "domain %d: vertex %ld of %zu", x.id, v, X.size()); got.push_back(P3{{X[v], Y[v], 0}}); }
        bool ok = got.size() == want.size(); if (ok) { ok = false; for (size_t s = 0; s < got.size() && !ok; s++) { ok = true; for (size_t k = 0; k < got.size() && ok; k++) ok = near(got[(k + s) % got.size()], want[k]); } }
        if (!ok) sim::fail("polygon", "cell (%d,%d) of domain %d is %s, not %s", i, j, x.id, show(got).c_str(), show(want).c_str());
    }
    if ((long)X.size() != nv + added) sim::fail("vertices", "domain %d has %zu vertices instead of %ld", x.id, X.size(), nv + added);
    if (added) sim::count("probe.refined_edge");
    Node a, b; a.set(in["fields"]); b.set(out["fields"]); if (gen::canon(a) != gen::canon(b)) sim::fail("fields", "domain %d: the fields changed", x.id);
    a.set(in["state"]); b.set(out["state"]); if (gen::canon(a) != gen::canon(b)) sim::fail("state", "domain %d: the state changed", x.id);
}
// cells of one 3D domain: the finer domain on side s (0/1: i, 2/3: j, 4/5: k) of cell c, as a ratio
int finer(const M &m, const D &x, const int *c, int s) {
    int a = s / 2, w = (x.hi[a] - x.lo[a]) * x.R; if (c[a] != (s % 2 ? w - 1 : 0)) return 0; double p[3];
    for (int b = 0; b < 3; b++) p[b] = x.lo[b] + (c[b] + 0.5) / x.R;
    p[a] = s % 2 ? x.hi[a] + 1e-3 : x.lo[a] - 1e-3;
    for (auto &y : m.d) { bool in = true; for (int b = 0; b < 3; b++) in = in && p[b] > y.lo[b] && p[b] < y.hi[b]; if (in && y.level > x.level) return y.R / x.R; }
    return 0;
}
typedef std::array<int, 3> I3; // positions in 1/(level ratio) of a cell, relative to the domain
vector<I3> side_face(const int *c, int s, int k, int u0, int v0, int len) {
    int a = s / 2, b1 = (a + 1) % 3, b2 = (a + 2) % 3; vector<I3> f; int o[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (auto &q : o) { I3 p; p[a] = (c[a] + s % 2) * k; p[b1] = c[b1] * k + u0 + q[0] * len; p[b2] = c[b2] * k + v0 + q[1] * len; f.push_back(p); } return f;
}
string canon_face(vector<I3> f) {
    size_t n = f.size(), b = 0; for (size_t i = 1; i < n; i++) if (f[i] < f[b]) b = i;
    bool fwd = f[(b + 1) % n] < f[(b + n - 1) % n]; string o; char t[48];
    for (size_t i = 0; i < n; i++) { auto &p = f[fwd ? (b + i) % n : (b + n - i) % n]; snprintf(t, sizeof t, "%d,%d,%d ", p[0], p[1], p[2]); o += t; }
    return o;
}
// the faces of one cell: the faces finer neighbours have on its sides, the rest with the vertices those faces put on their edges
std::multiset<string> want_faces(const M &m, const D &x, const int *c, int k, int &fines) {
    std::multiset<string> r; fines = 0;
    for (int s = 0; s < 6; s++) {
        int q = finer(m, x, c, s); if (q) { fines++; for (int u = 0; u < k; u++) for (int v = 0; v < k; v++) r.insert(canon_face(side_face(c, s, k, u, v, 1))); continue; }
        vector<I3> f = side_face(c, s, k, 0, 0, k), g; int a = s / 2, w = (x.hi[a] - x.lo[a]) * x.R; int d[3] = {c[0], c[1], c[2]}; d[a] += s % 2 ? 1 : -1; bool nb = d[a] >= 0 && d[a] < w;
        for (int e = 0; e < 4; e++) {
            I3 p = f[(size_t)e], z = f[(size_t)((e + 1) % 4)]; g.push_back(p); bool split = false;
            for (int t = 0; t < 6; t++) { if (t / 2 == a) continue; int b = t / 2, at = (c[b] + t % 2) * k; if (p[b] != at || z[b] != at) continue; if (finer(m, x, c, t) || (nb && finer(m, x, d, t))) split = true; }
            if (split) for (int t = 1; t < k; t++) { I3 v; for (int b = 0; b < 3; b++) v[b] = p[b] + (z[b] - p[b]) / k * t; g.push_back(v); }
        }
        r.insert(canon_face(g));
    }
    return r;
}
void check3(const M &m, const D &x, const Node &in, const Node &out) {
    if (!out.has_path("topologies/" + m.topo + "/elements/connectivity")) sim::fail("missing", "domain %d has no result", x.id);
    const Node &t = out["topologies"][m.topo], &e = t["elements"];
    if (t["type"].as_string() != "unstructured" || e["shape"].as_string() != "polyhedral" || t["subelements/shape"].as_string() != "polygonal" || t["coordset"].as_string() != m.cset) sim::fail("type", "domain %d is not polyhedral", x.id);
    vector<double> V[3]; const char *cx[] = {"x", "y", "z"}; for (int a = 0; a < 3; a++) V[a] = mesh::numbers(out["coordsets"][m.cset]["values"][cx[a]]);
    vector<vector<long>> el = mesh::read_o2m(e), fc = mesh::read_o2m(t["subelements"]); int w[3]; for (int a = 0; a < 3; a++) w[a] = (x.hi[a] - x.lo[a]) * x.R;
    if ((long)el.size() != (long)w[0] * w[1] * w[2]) sim::fail("elements", "domain %d has %zu elements instead of %d", x.id, el.size(), w[0] * w[1] * w[2]);
    size_t nv = (size_t)(w[0] + 1) * (w[1] + 1) * (w[2] + 1); if (V[0].size() < nv || V[1].size() != V[0].size() || V[2].size() != V[0].size()) sim::fail("vertices", "domain %d has %zu vertices", x.id, V[0].size());
    // every vertex is on the lattice of the finest level
    vector<I3> at(V[0].size());
    for (size_t v = 0; v < at.size(); v++) { I3 p; for (int a = 0; a < 3; a++) { int n = w[a] * m.r, b = -1; for (int i = 0; i <= n && b < 0; i++) { double q = x.lo[a] + (double)i / (x.R * m.r); int u = std::min((int)std::floor(q + 1e-9), m.n[a] - 1); double f = q - u, pos = m.X[a][u] * (1 - f) + m.X[a][u + 1] * f; if (std::fabs(pos - V[a][v]) < 1e-5) b = i; } if (b < 0) sim::fail("vertices", "vertex %zu of domain %d is at (%g,%g,%g)", v, x.id, V[0][v], V[1][v], V[2][v]); p[a] = b; } at[v] = p; }
    for (int k = 0; k <= w[2]; k++) for (int j = 0; j <= w[1]; j++) for (int i = 0; i <= w[0]; i++) { size_t v = ((size_t)k * (w[1] + 1) + j) * (w[0] + 1) + i; if (at[v] != I3{{i * m.r, j * m.r, k * m.r}}) sim::fail("vertices", "vertex %zu of domain %d moved", v, x.id); }
    for (auto &f : fc) for (long v : f) if (v < 0 || v >= (long)at.size()) sim::fail("faces", "domain %d: vertex %ld of %zu", x.id, v, at.size());
    for (int k = 0; k < w[2]; k++) for (int j = 0; j < w[1]; j++) for (int i = 0; i < w[0]; i++) {
        int c[3] = {i, j, k}, fines; auto want = want_faces(m, x, c, m.r, fines); std::multiset<string> got; auto &q = el[(size_t)(k * w[1] + j) * w[0] + i];
        for (long f : q) { if (f < 0 || f >= (long)fc.size()) sim::fail("connectivity", "domain %d: face %ld of %zu", x.id, f, fc.size()); vector<I3> p; for (long v : fc[(size_t)f]) p.push_back(at[(size_t)v]); got.insert(canon_face(p)); }
        if (fines) sim::count(fines == 1 ? "probe.refined_side" : "probe.refined_sides");
        if (got != want) { string a, b; for (auto &s : got) if (!want.count(s)) a += "[" + s + "] "; for (auto &s : want) if (!got.count(s)) b += "[" + s + "] "; sim::fail("polyhedron", "cell (%d,%d,%d) of domain %d (%d finer sides) has the faces %s instead of %s", i, j, k, x.id, fines, a.c_str(), b.c_str()); }
    }
    Node a, b;
    a.set(in["state"]); b.set(out["state"]); if (gen::canon(a) != gen::canon(b)) sim::fail("state", "domain %d: the state changed", x.id);
}
void convert(const Node &in, Node &out, const string &topo, int api, MPI_Comm c, int dim) { if (api) bm::to_polytopal(in, out, topo, c); else if (dim == 2) bm::to_polygonal(in, out, topo, c); else bm::to_polyhedral(in, out, topo, c); }
}

SCENARIO(C12, polygonal, 4) {
    utils::set_info_handler(quiet);
    mesh::World w = mesh::draw_world(4); M m = draw_mesh(2); m.wide = sim::chance(1, 3); m.corners = !sim::chance(1, 3); m.f32 = sim::chance(1, 6); m.cset = sim::chance(1, 4) ? "points" : "coords";
    Placed p = place(m, w.n, sim::chance(1, 6) ? 0 : 1); int api = sim::chance(1, 2); vector<Node> out(w.n);
    vector<string> before; for (int r = 0; r < w.n; r++) { before.push_back(gen::canon(*p.in[r])); if (sim::chance(1, 3)) { out[r]["old/data"] = 3; out[r]["domain_000000/topologies/old"] = 1; } }
    int times = sim::chance(1, 5) ? 2 : 1;
    mesh::run(w, [&](int me) { for (int t = 0; t < times; t++) convert(*p.in[me], out[me], m.topo, api, w.comm, 2); });
    for (int r = 0; r < w.n; r++) if (gen::canon(*p.in[r]) != before[r]) sim::fail("input", "rank %d: the mesh to convert changed", r);
    for (int r = 0; r < w.n; r++) for (int i : p.doms[r]) { const D &x = m.d[(size_t)i]; const Node &in = p.bare[r] ? *p.in[r] : (*p.in[r])[x.name];
        if (!p.bare[r] && !out[r].has_child(x.name)) sim::fail("missing", "domain %d has no result", x.id);
        check2(m, x, in, p.bare[r] ? out[r] : out[r][x.name]); }
    for (int r = 0; r < w.n; r++) if (!p.bare[r] && out[r].number_of_children() != (index_t)p.doms[r].size()) sim::fail("extra", "rank %d has %d results for %zu domains", r, (int)out[r].number_of_children(), p.doms[r].size());
    sim::sample("%zu domains on %d ranks, ratio %d ", m.d.size(), w.n, m.r);
}

SCENARIO(C12, polyhedral, 3) {
    utils::set_info_handler(quiet);
    mesh::World w = mesh::draw_world(4); M m = draw_mesh(3, sim::chance(1, 3) ? (int)sim::choose(3) : -1); m.wide = sim::chance(1, 3); m.corners = !sim::chance(1, 3); m.f32 = sim::chance(1, 6); m.cset = sim::chance(1, 4) ? "points" : "coords";
    Placed p = place(m, w.n, sim::chance(1, 6) ? 0 : 1); int api = sim::chance(1, 2); vector<Node> out(w.n);
    vector<string> before; for (int r = 0; r < w.n; r++) { before.push_back(gen::canon(*p.in[r])); if (sim::chance(1, 3)) { out[r]["old/data"] = 3; out[r]["domain_000000/topologies/old"] = 1; } }
    int times = sim::chance(1, 5) ? 2 : 1;
    mesh::run(w, [&](int me) { for (int t = 0; t < times; t++) convert(*p.in[me], out[me], m.topo, api, w.comm, 3); });
    for (int r = 0; r < w.n; r++) if (gen::canon(*p.in[r]) != before[r]) sim::fail("input", "rank %d: the mesh to convert changed", r);
    for (int r = 0; r < w.n; r++) for (int i : p.doms[r]) { const D &x = m.d[(size_t)i]; if (!out[r].has_child(x.name)) sim::fail("missing", "domain %d has no result", x.id); check3(m, x, (*p.in[r])[x.name], out[r][x.name]); }
    for (int r = 0; r < w.n; r++) if (out[r].number_of_children() != (index_t)p.doms[r].size()) sim::fail("extra", "rank %d has %d results for %zu domains", r, (int)out[r].number_of_children(), p.doms[r].size());
    sim::sample("%zu domains on %d ranks, ratio %d ", m.d.size(), w.n, m.r);
}

// a mesh that cannot be converted: every rank gets the error
SCENARIO(C12, refused, 1) {
    utils::set_info_handler(quiet);
    mesh::World w = mesh::draw_world(4); int dim = sim::chance(2, 3) ? 2 : 3; M m = draw_mesh(dim, dim == 3 ? 0 : -1); Placed p = place(m, w.n, 1); for (auto b : p.bare) (void)b;
    D &x = m.d[sim::choose((uint32_t)m.d.size())]; Node &n = p.bare[x.rank] ? *p.in[x.rank] : (*p.in[x.rank])[x.name]; int how = (int)sim::choose(3);
    if (how == 0) n["topologies"].remove(m.topo); else if (how == 1) n.remove("topologies"); else n["topologies"][m.topo]["type"] = sim::chance(1, 2) ? "uniform" : "unstructured";
    if (p.bare[x.rank] && how == 1) { *p.in[x.rank] = Node(); how = 3; Node &d = (*p.in[x.rank])[x.name]; build(m, x, d); d["topologies"].remove(m.topo); }
    vector<Node> out(w.n); vector<int> threw(w.n, 0);
    mesh::run(w, [&](int me) { try { bm::to_polytopal(*p.in[me], out[me], m.topo, w.comm); } catch (const conduit::Error &) { threw[me] = 1; } });
    for (int r = 0; r < w.n; r++) if (!threw[r]) sim::fail("refused", "rank %d of %d converted a mesh in which domain %d has no structured topology", r, w.n, x.id);
    sim::count("probe.refused"); sim::sample("case %d, %zu domains on %d ranks ", how, m.d.size(), w.n);
}
