// C21, C22: histories of node edits beside a model, with failing allocations.
#include "gen.hpp"
#include "heap.hpp"
#include "nodemodel.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
using namespace conduit; using std::string; using std::vector; using nm::M; using nm::BufP; using nm::Buf;
namespace {
// ---- allocators: guarded, accounted, failing on request ----
struct Block { int k; size_t n; bool freed; bool device; size_t map; };
std::map<uint8_t *, Block> g_blk; long g_fail, g_failed; std::map<int, long long> g_live; bool g_device;
const size_t RZ = 32;
void *al(int k, size_t a, size_t b) {
    if (g_fail > 0 && --g_fail == 0) { g_failed++; sim::logf("allocator %d fails for %zu", k, a * b); return nullptr; }
    if (b && a > (size_t)1 << 40) { g_failed++; return nullptr; }
    size_t n = a * b; uint8_t *p; Block x{k, n, false, g_device, 0};
    if (g_device) { x.map = ((n ? n : 1) + 4095) / 4096 * 4096; p = (uint8_t *)::mmap(0, x.map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(p, 0xCD, x.map); mprotect(p, x.map, PROT_NONE); }
    else { p = (uint8_t *)malloc(n + 2 * RZ); memset(p, 0xA5, n + 2 * RZ); p += RZ; memset(p, 0xCD, n); }
    g_blk[p] = x; g_live[k] += (long long)n; return p;
}
bool guards_ok(uint8_t *p, const Block &x) { if (x.device) return true; for (size_t i = 0; i < RZ; i++) if (p[-(long)RZ + (long)i] != 0xA5 || p[x.n + i] != 0xA5) return false; if (x.freed) for (size_t i = 0; i < x.n; i++) if (p[i] != 0xDD) return false; return true; }
void fr(int k, void *q) {
    if (!q) return;
    auto it = g_blk.find((uint8_t *)q);
    if (it == g_blk.end()) sim::fail("bad-free", "allocator %d is asked to free memory it did not hand out", k);
    Block &x = it->second;
    if (x.freed) sim::fail("double-free", "a block of %zu bytes is freed twice", x.n);
    if (x.k != k) sim::fail("wrong-allocator", "a block of allocator %d is freed through allocator %d", x.k, k);
    if (!guards_ok(it->first, x)) sim::fail("overrun", "bytes beside a block of %zu bytes were written", x.n);
    x.freed = true; g_live[k] -= (long long)x.n; if (!x.device) memset(q, 0xDD, x.n);
}
template <int K> void *alk(size_t a, size_t b) { return al(K, a, b); }
template <int K> void frk(void *p) { fr(K, p); }
int g_id[3];
void reg_alloc() {
    static bool once = false;
    if (!once) { once = true; g_id[0] = (int)utils::register_allocator(alk<1>, frk<1>); g_id[1] = (int)utils::register_allocator(alk<2>, frk<2>); g_id[2] = (int)utils::register_allocator(alk<3>, frk<3>); }
    for (auto &x : g_blk) { if (x.second.device) ::munmap(x.first, x.second.map); else free(x.first - RZ); }
    utils::set_memcpy_handler(utils::default_memcpy_handler); utils::set_memset_handler(utils::default_memset_handler);
    g_blk.clear(); g_live.clear(); g_fail = g_failed = 0; g_device = false; heap::fail_calloc = 0;
}
int slot_of(int id) { for (int i = 0; i < 3; i++) if (g_id[i] == id) return i + 1; return 0; }

// ---- memory the program cannot touch directly: only the registered handlers may ----
void open_dev(const void *q, size_t n, int prot) {
    if (!n) return;
    auto it = g_blk.upper_bound((uint8_t *)q); if (it == g_blk.begin()) return; --it;
    if (!it->second.device || (uint8_t *)q >= it->first + it->second.map) return;
    if (it->second.freed) sim::fail("use-after-free", "a freed block of %zu bytes is accessed", it->second.n);
    if ((uint8_t *)q + n > it->first + it->second.n) sim::fail("overrun", "%zu bytes at offset %zu of a block of %zu bytes are accessed", n, (size_t)((uint8_t *)q - it->first), it->second.n);
    mprotect(it->first, it->second.map, prot);
}
long g_copies, g_fills;
void dev_copy(void *d, const void *s, size_t n) { g_copies++; open_dev(d, n, PROT_READ | PROT_WRITE); open_dev(s, n, PROT_READ | PROT_WRITE); if (n) memmove(d, s, n); open_dev(d, n, PROT_NONE); open_dev(s, n, PROT_NONE); }
void dev_fill(void *d, int v, size_t n) { g_fills++; open_dev(d, n, PROT_READ | PROT_WRITE); if (n) memset(d, v, n); open_dev(d, n, PROT_NONE); }
const uint8_t *dev_peek(const void *p, size_t n) { static uint8_t b[16]; open_dev(p, n, PROT_READ); memcpy(b, p, n); open_dev(p, n, PROT_NONE); return b; }

// ---- typed sets ----
const vector<index_t> types = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
template <class T> void set_as(Node &n, int how, index_t k, const uint8_t *v, const DataType &src, void *smem) {
    if (how == 0) { T x; memcpy(&x, v, sizeof x); n.set(x); }
    else if (how == 1) { vector<T> x(k); if (k) memcpy(x.data(), v, k * sizeof(T)); n.set(x); }
    else if (how == 2) { DataArray<T> a(smem, src); n.set(a); }
    else if (how == 3) { n.set((const T *)v, k); }
    else { n.set((const T *)smem, k, src.offset(), src.stride()); }
}
void dispatch(Node &n, index_t id, int how, index_t k, const uint8_t *v, const DataType &src, void *smem) {
    switch (id) {
#define D(I, T) case DataType::I: set_as<T>(n, how, k, v, src, smem); break;
    D(INT8_ID, int8) D(INT16_ID, int16) D(INT32_ID, int32) D(INT64_ID, int64) D(UINT8_ID, uint8) D(UINT16_ID, uint16) D(UINT32_ID, uint32) D(UINT64_ID, uint64) D(FLOAT32_ID, float32) D(FLOAT64_ID, float64)
#undef D
    }
}
template <class T> void ext_as(Node &n, int how, void *p, const DataType &d) {
    if (how == 0) n.set_external((T *)p, d.number_of_elements(), d.offset(), d.stride());
    else if (how == 1) { DataArray<T> a(p, d); n.set_external(a); }
    else n.set_external(d, p);
}
void dispatch_ext(Node &n, int how, void *p, const DataType &d) {
    switch (d.id()) {
#define D(I, T) case DataType::I: ext_as<T>(n, how, p, d); break;
    D(INT8_ID, int8) D(INT16_ID, int16) D(INT32_ID, int32) D(INT64_ID, int64) D(UINT8_ID, uint8) D(UINT16_ID, uint16) D(UINT32_ID, uint32) D(UINT64_ID, uint64) D(FLOAT32_ID, float32) D(FLOAT64_ID, float64)
#undef D
    }
}
DataType mk(index_t id, index_t n, index_t off, index_t stride) { return DataType(id, n, off, stride, DataType::default_bytes(id), Endianness::DEFAULT_ID); }

struct World {
    vector<std::unique_ptr<Node>> real; vector<std::unique_ptr<M>> model;
    BufP arena; size_t arena_used = 0; vector<std::pair<index_t, DataType>> regions;   // places used for external leaves
    uint8_t vctr = 1;
    World() {
        arena.reset(new Buf); arena->b.resize(2048); arena->real = (uint8_t *)gen::arena(2048);
        for (size_t i = 0; i < arena->b.size(); i++) arena->b[i] = arena->real[i] = (uint8_t)(i * 37 + 11);
        int n = 2 + (int)sim::choose(3); for (int i = 0; i < n; i++) fresh_root();
    }
    void fresh_root() { real.emplace_back(new Node); model.emplace_back(new M); pick_alloc(*real.back(), *model.back()); }
    void pick_alloc(Node &n, M &m) { int k = (int)sim::choose(4); if (k) { n.set_allocator(g_id[k - 1]); m.reset(); m.alloc = g_id[k - 1]; } }
    vector<uint8_t> values(index_t n) { vector<uint8_t> v((size_t)n + 16); for (auto &x : v) x = vctr = (uint8_t)(vctr * 5 + 17); return v; }
    struct T { Node *n; M *m; size_t root; };
    T target(int root = -1) {
        T t; t.root = root >= 0 ? (size_t)root : sim::choose((uint32_t)real.size()); t.n = real[t.root].get(); t.m = model[t.root].get();
        while (!t.m->ch.empty() && sim::chance(2, 3)) { uint32_t k = sim::choose((uint32_t)t.m->ch.size()); t.n = &t.n->child(k); t.m = t.m->ch[k].get(); }
        return t;
    }
    // memory the op frees must not be what it reads, source and target must not contain each other
    bool apart(const T &a, const T &b) { if (a.m->inside(*b.m) || b.m->inside(*a.m)) return false; std::set<Buf *> o, u; a.m->owned(o); b.m->used(u); for (auto x : u) if (o.count(x)) return false; return true; }
    bool disjoint(const T &a, const T &b) { if (!apart(a, b)) return false; std::set<Buf *> o, u; a.m->used(o); b.m->used(u); for (auto x : u) if (o.count(x)) return false; return true; }

    void compare(const Node &n, const M &m, const Node *parent, const char *when) {
        string p = m.path();
        const char *w = when, *ps = p.c_str();
        if (n.parent() != parent) sim::fail("parent", "%s: parent() of \"%s\" is not the node it is a child of", w, ps);
        if (n.path() != p) sim::fail("path", "%s: path() of \"%s\" is \"%s\"", w, ps, n.path().c_str());
        if (n.name() != m.name()) sim::fail("path", "%s: name() of \"%s\" is \"%s\"", w, ps, n.name().c_str());
        if (const_cast<Node &>(n).allocator() != m.alloc) sim::fail("allocator", "%s: \"%s\" has allocator %d, expected %d", w, ps, (int)const_cast<Node &>(n).allocator(), m.alloc);
        nm::Kind k = n.dtype().is_object() ? nm::OBJECT : n.dtype().is_list() ? nm::LIST : n.dtype().is_empty() ? nm::EMPTY : nm::LEAF;
        if (k != m.kind) sim::fail("structure", "%s: \"%s\" is %s, expected %s", w, ps, n.dtype().name().c_str(), m.kind == nm::OBJECT ? "an object" : m.kind == nm::LIST ? "a list" : m.kind == nm::EMPTY ? "empty" : "a leaf");
        if (n.number_of_children() != (index_t)m.ch.size()) sim::fail("structure", "%s: \"%s\" has %d children, expected %zu", w, ps, (int)n.number_of_children(), m.ch.size());
        if (k == nm::LEAF) {
            if (n.dtype().id() != m.d.id || n.dtype().number_of_elements() != m.d.n) sim::fail("type", "%s: \"%s\" is %s[%d], expected %s[%d]", w, ps, n.dtype().name().c_str(), (int)n.dtype().number_of_elements(), DataType::id_to_name(m.d.id).c_str(), (int)m.d.n);
            if (m.d.n && m.buf->real && n.element_ptr(0) != m.buf->real + m.base + m.d.off) sim::fail("alias", "%s: \"%s\" does not refer to the external memory it was set to", w, ps);
            for (index_t i = 0; i < m.d.n; i++) if (memcmp(elem(n, i), m.at(i), m.esz())) sim::fail("value", "%s: element %d of \"%s\" (%s[%d]) differs", w, (int)i, ps, n.dtype().name().c_str(), (int)m.d.n);
        }
        for (size_t i = 0; i < m.ch.size(); i++) {
            const Node &c = n.child((index_t)i);
            if (k == nm::OBJECT) {
                if (n.child_names()[i] != m.names[i]) sim::fail("structure", "%s: child %zu of \"%s\" is \"%s\", expected \"%s\"", w, i, ps, n.child_names()[i].c_str(), m.names[i].c_str());
                if (!n.has_child(m.names[i]) || &n.child(m.names[i]) != &c) sim::fail("structure", "%s: \"%s\" does not find its child \"%s\" by name", w, ps, m.names[i].c_str());
            }
            if (&c.schema() != &n.schema().child((index_t)i)) sim::fail("schema", "%s: schema of child %zu of \"%s\" is not its node's schema", w, i, ps);
            compare(c, *m.ch[i], &n, when);
        }
        if (k == nm::OBJECT && (n.has_child("never there") || n.child_names().size() != m.ch.size())) sim::fail("structure", "%s: \"%s\" knows names it should not", w, ps);
    }
    std::function<const uint8_t *(const Node &, index_t)> elem = [](const Node &n, index_t i) { return (const uint8_t *)n.element_ptr(i); };
    void compare_all(const char *when) {
        for (size_t i = 0; i < real.size(); i++) compare(*real[i], *model[i], nullptr, when);
        for (size_t i = 0; i < arena->b.size(); i++) if (arena->b[i] != arena->real[i]) sim::fail("foreign-write", "%s: byte %zu of external memory differs", when, i);
        std::map<int, long long> own; for (auto &m : model) m->owned_bytes(own);
        for (int k = 1; k <= 3; k++) if (g_live[k] != own[g_id[k - 1]]) sim::fail(g_live[k] > own[g_id[k - 1]] ? "leak" : "conservation", "%s: allocator %d holds %lld bytes, the nodes using it should hold %lld", when, k, g_live[k], own[g_id[k - 1]]);
    }
    // leaves whose memory was freed with its owner are reset, as a user has to
    void drop_dead(Node &n, M &m) {
        if (m.kind == nm::LEAF && !m.buf->alive) { n.reset(); m.reset(); return; }
        for (size_t i = 0; i < m.ch.size(); i++) drop_dead(n.child((index_t)i), *m.ch[i]);
    }
    void drop_dead() { for (size_t i = 0; i < real.size(); i++) drop_dead(*real[i], *model[i]); }
};
// every part of a node can be looked at
// leaves whose memory another node inside t owns: a failed edit of t may have freed it
void aliases(const Node &n, const M &m, const std::set<nm::Buf *> &own, std::set<const Node *> &skip) {
    if (m.kind == nm::LEAF && m.buf && own.count(m.buf.get())) { const M *p = &m; while (p && p->own != m.buf) p = p->parent; if (!p) skip.insert(&n); }
    for (size_t i = 0; i < m.ch.size(); i++) aliases(n.child((index_t)i), *m.ch[i], own, skip);
}
void inspect(const Node &n, std::function<const uint8_t *(const Node &, index_t)> &elem, uint64_t &h, const std::set<const Node *> &skip) {
    h += n.path().size() + (uint64_t)n.dtype().id() + n.name().size() + (uint64_t)n.total_bytes_allocated();
    if (!skip.count(&n) && (n.dtype().is_number() || n.dtype().is_string())) for (index_t i = 0; i < n.dtype().number_of_elements(); i++) h += *elem(n, i);
    if (n.dtype().is_object() && n.child_names().size() != (size_t)n.number_of_children()) sim::fail("structure", "an object has %zu names and %d children", n.child_names().size(), (int)n.number_of_children());
    index_t seen = 0; NodeConstIterator it = n.children(); while (it.has_next()) { it.next(); seen++; }
    if (seen != n.number_of_children()) sim::fail("structure", "iteration shows %d of %d children", (int)seen, (int)n.number_of_children());
    for (index_t i = 0; i < n.number_of_children(); i++) { if (n.child(i).parent() != &n) sim::fail("parent", "parent() is wrong after a failed edit"); inspect(n.child(i), elem, h, skip); }
}
bool throws(std::function<void()> f) { try { f(); } catch (conduit::Error &) { return true; } catch (std::bad_alloc &) { return true; } return false; }
const vector<string> NAMES = {"a", "b", "c", "d", "k 1", "x/y"};
string plain_name() { return NAMES[sim::choose(5)]; }
}
namespace {
void rand_schema(Schema &s, index_t &cur, int depth) {
    uint32_t k = depth <= 0 ? 3 : sim::choose(5);
    if (k == 0) { s.set(DataType::object()); int n = 1 + (int)sim::choose(3); for (int i = 0; i < n; i++) rand_schema(s.add_child(NAMES[sim::choose(6)]), cur, depth - 1); }
    else if (k == 1) { s.set(DataType::list()); int n = 1 + (int)sim::choose(3); for (int i = 0; i < n; i++) rand_schema(s.append(), cur, depth - 1); }
    else if (k == 2 && sim::chance(1, 3)) s.set(DataType::empty());
    else {
        index_t id = sim::pick(types), e = DataType::default_bytes(id), n = 1 + sim::choose(4); if (sim::chance(1, 10)) n = 0;
        index_t stride = e, off = cur; if (sim::chance(1, 4)) stride = e * 2; if (sim::chance(1, 4)) off += e;
        s.set(mk(id, n, off, stride)); cur = off + (n ? stride * (n - 1) + e : 0);
    }
}
index_t span_of(const Schema &s) {
    if (s.dtype().is_object() || s.dtype().is_list()) { index_t r = 0; for (index_t i = 0; i < s.number_of_children(); i++) r = std::max(r, span_of(s.child(i))); return r; }
    return s.dtype().is_empty() || !s.dtype().number_of_elements() ? 0 : s.dtype().spanned_bytes();
}
// C21/C22: one random edit history. faults: allocations fail
void history(World &w, bool faults, int nops, bool device) {
    typedef World::T T;
    auto run = [&](const T &t, const string &what, std::function<void()> rop, std::function<void()> mop) {
        sim::logf("%s at root %zu \"%s\"", what.c_str(), t.root, t.m->path().c_str());
        g_failed = 0; heap::calloc_failed = 0;
        if (faults && sim::chance(1, 4)) { long k = 1 + (long)sim::choose(4); g_fail = k; heap::fail_calloc = k; }
        std::set<nm::Buf *> own; std::set<const Node *> skip; if (faults) { t.m->owned(own); aliases(*w.real[t.root], *w.model[t.root], own, skip); }
        bool th = throws(rop);
        g_fail = 0; heap::fail_calloc = 0;
        bool injected = g_failed || heap::calloc_failed;
        if (injected) sim::count("fault.alloc");
        if (th && !injected) sim::fail("refused", "%s of \"%s\" was refused", what.c_str(), t.m->path().c_str());
        if (th) {
            sim::count("probe.alloc_reported"); uint64_t h = 0; inspect(*w.real[t.root], w.elem, h, skip);
            t.n->reset(); t.m->reset(); w.drop_dead(); w.compare_all(("after a failed allocation in " + what).c_str());
        } else { mop(); w.drop_dead(); w.compare_all(("after " + what).c_str()); sim::count("probe.edit"); }
    };
    auto refused = [&](const char *what, std::function<void()> rop) { if (!throws(rop)) sim::fail("accepted", "%s was not refused", what); w.compare_all((string("after a refused ") + what).c_str()); sim::count("probe.refused"); };
    auto nothing = [] {};
    auto place = [&](index_t id, index_t n, index_t off, index_t stride) -> index_t {   // arena offset for an external leaf
        index_t need = off + (n > 0 ? stride * (n - 1) + DataType::default_bytes(id) : 0) + 8;
        if (w.arena_used + need > w.arena->b.size()) w.arena_used = 0;
        index_t at = (index_t)w.arena_used; w.arena_used += (size_t)(need + 7) / 8 * 8; return at;
    };
    for (int op = 0; op < nops; op++) {
        T t = w.target(), s = w.target();
        switch (sim::choose(24)) {
        case 0: case 1: case 2: { // typed set
            index_t id = t.m->kind == nm::LEAF && DataType::default_bytes(t.m->d.id) && t.m->d.id != DataType::CHAR8_STR_ID && sim::chance(1, 2) ? t.m->d.id : sim::pick(types);
            index_t n = 1 + sim::choose(6); if (t.m->kind == nm::LEAF && t.m->d.id == id && t.m->d.n > 0 && sim::chance(3, 4)) n = 1 + sim::choose((uint32_t)t.m->d.n);
            int how = (int)sim::choose(5); if (how == 0) n = 1; if (how && sim::chance(1, 12)) n = 0;
            index_t e = DataType::default_bytes(id), off = how == 4 || how == 2 ? e * sim::choose(2) : 0, st = how == 4 || how == 2 ? e * (1 + sim::choose(2)) : e;
            auto v = w.values(n * e);
            uint8_t *mem = (uint8_t *)gen::arena((size_t)(off + st * (n + 1) + 8)); memset(mem, 0xEE, (size_t)(off + st * (n + 1) + 8));
            for (index_t i = 0; i < n; i++) memcpy(mem + off + i * st, v.data() + i * e, (size_t)e);
            DataType sd = mk(id, n, off, st);
            if (t.m->compatible(id, n)) sim::count("probe.in_place");
            static const char *nm_[] = {"set(scalar)", "set(vector)", "set(array)", "set(pointer)", "set(strided pointer)"};
            run(t, nm_[how], [&] { dispatch(*t.n, id, how, n, v.data(), sd, mem); }, [&] { t.m->put(id, n, v.data()); });
            break; }
        case 3: { // string
            string v(sim::choose(8), 'q'); for (auto &c : v) c = (char)('a' + sim::choose(26)); bool cs = sim::chance(1, 2);
            run(t, "set(string)", [&] { if (cs) t.n->set(v); else t.n->set_char8_str(v.c_str()); }, [&] { t.m->put(DataType::CHAR8_STR_ID, (index_t)v.size() + 1, (const uint8_t *)v.c_str()); });
            break; }
        case 4: case 5: // copy
            if (sim::chance(1, 3)) { s = w.target((int)t.root); if (sim::chance(1, 2)) std::swap(t, s); }   // often related
            if (t.m == s.m) { run(t, "set to itself", [&] { t.n->set(*s.n); }, nothing); break; }
            if (t.m->inside(*s.m) || s.m->inside(*t.m)) { run(t, "set to a related node", [&] { t.n->set(*s.n); }, [&] { M c; c.alloc = t.m->alloc; c.set(*s.m); t.m->swap(c); }); sim::count("probe.related"); break; }
            if (!w.apart(t, s)) break;
            if (sim::chance(1, 2)) run(t, "set(Node)", [&] { t.n->set(*s.n); }, [&] { t.m->set(*s.m); });
            else run(t, "operator=", [&] { *t.n = *s.n; }, [&] { t.m->set(*s.m); });
            break;
        case 6: { // dtype: values of new memory are not specified
            if (device) break;
            index_t id = sim::pick(types), n = sim::choose(6);
            run(t, "set(DataType)", [&] { t.n->set(mk(id, n, 0, DataType::default_bytes(id))); auto v = w.values(8); (void)v; for (index_t i = 0; i < t.n->dtype().number_of_elements(); i++) memset((void *)w.elem(*t.n, i), (int)i + 3, (size_t)DataType::default_bytes(id)); },
                [&] { t.m->init(id, n); for (index_t i = 0; i < t.m->d.n; i++) memset(t.m->at(i), (int)i + 3, (size_t)t.m->esz()); });
            break; }
        case 7: { // schema, with or without data
            Schema sc; index_t cur = 0; rand_schema(sc, cur, 2); index_t span = span_of(sc); auto v = w.values(span + 8); bool data = sim::chance(1, 2);
            run(t, data ? "set(Schema, data)" : "set(Schema)", [&] { if (data) t.n->set(sc, v.data()); else t.n->set(sc); },
                [&] { t.m->reset(); BufP b = t.m->fresh(span); if (data) memcpy(b->b.data(), v.data(), (size_t)span); t.m->over(sc, b, 0); });
            break; }
        case 8: { // external leaf
            index_t id = sim::pick(types), e = DataType::default_bytes(id), n = 1 + sim::choose(5), off = e * sim::choose(2), st = e * (1 + sim::choose(3)); int how = (int)sim::choose(3);
            index_t at; DataType d = mk(id, n, off, st);
            if (!w.regions.empty() && sim::chance(1, 3)) { auto r = sim::pick(w.regions); at = r.first; d = r.second; } else { at = place(id, n, off, st); w.regions.push_back({at, d}); }
            run(t, "set_external(leaf)", [&] { dispatch_ext(*t.n, how, w.arena->real + at, d); }, [&] { t.m->reset(); t.m->over(Schema(d), w.arena, at); });
            sim::count("probe.external"); break; }
        case 9: { // external schema
            Schema sc; index_t cur = 0; rand_schema(sc, cur, 2); index_t span = span_of(sc); if (span > 600) break;
            index_t at = place(DataType::UINT8_ID, span, 0, 1);
            run(t, "set_external(Schema)", [&] { t.n->set_external(sc, w.arena->real + at); }, [&] { t.m->reset(); t.m->over(sc, w.arena, at); });
            break; }
        case 10: // alias of another node
            if (!w.apart(t, s)) break;
            run(t, "set_external(Node)", [&] { t.n->set_external(*s.n); }, [&] { t.m->alias(*s.m); });
            break;
        case 11: { // fetch creates
            string p; vector<string> parts; int n = 1 + (int)sim::choose(3); for (int i = 0; i < n; i++) { parts.push_back(plain_name()); p += (i ? "/" : "") + parts.back(); if (sim::chance(1, 12)) p += "/"; }
            if (p.size() && p.back() == '/') p.pop_back();
            if (sim::chance(1, 6)) p = "/" + p;
            bool br = sim::chance(1, 2);
            run(t, "fetch " + p, [&] { Node &x = br ? (*t.n)[p] : t.n->fetch(p); Node *q = t.n; for (auto &k : parts) q = &q->child(k); if (q != &x) sim::fail("structure", "fetch(\"%s\") returned another node", p.c_str()); }, [&] { M *m = t.m; for (auto &k : parts) m = &m->add(k); });
            break; }
        case 12: if (sim::chance(1, 4)) { // a wide object or list, then edits in its middle
                bool obj = t.m->kind == nm::LIST ? false : t.m->kind == nm::OBJECT ? true : sim::chance(2, 3); int n = 4 + (int)sim::choose(6);
                for (int i = 0; i < n; i++) { string k = "w" + std::to_string(i);
                    run(t, obj ? "add_child " + k : string("append"), [&] { if (obj) t.n->add_child(k); else t.n->append(); }, [&] { if (obj) t.m->add(k); else t.m->append(); }); }
                int m = 1 + (int)sim::choose(4);
                for (int i = 0; i < m && t.m->ch.size() > 1; i++) { size_t k = sim::choose((uint32_t)t.m->ch.size()); string nme = t.m->kind == nm::OBJECT ? t.m->names[k] : "";
                    if (!nme.empty() && sim::chance(1, 3)) { string to = "r" + std::to_string(i); if (t.m->find(to) < 0) run(t, "rename_child", [&] { t.n->rename_child(nme, to); }, [&] { t.m->names[k] = to; }); }
                    else if (!nme.empty() && sim::chance(1, 2)) run(t, "remove_child", [&] { t.n->remove_child(nme); }, [&] { t.m->erase(k); });
                    else run(t, "remove index", [&] { t.n->remove((index_t)k); }, [&] { t.m->erase(k); }); }
                if (s.root != t.root && w.apart(t, s) && w.apart(s, t) && sim::chance(1, 3)) run(t, "swap", [&] { t.n->swap(*s.n); }, [&] { t.m->swap(*s.m); });
                sim::count("probe.wide"); break; }
            else { string k = NAMES[sim::choose(6)]; run(t, "add_child", [&] { t.n->add_child(k); }, [&] { t.m->add(k); }); break; }
        case 13: run(t, "append", [&] { t.n->append(); }, [&] { t.m->append(); }); break;
        case 14: case 15: { // remove
            if (t.m->ch.empty()) { if (t.m->kind != nm::OBJECT) break; refused("removal of a missing child", [&] { t.n->remove("nope"); }); break; }
            if (sim::chance(1, 6)) { if (sim::chance(1, 2) && t.m->kind == nm::OBJECT) refused("removal of a missing child", [&] { t.n->remove("nope"); }); else refused("removal of a missing index", [&] { t.n->remove((index_t)t.m->ch.size() + (index_t)sim::choose(3)); }); break; }
            size_t k = sim::choose((uint32_t)t.m->ch.size()); int how = t.m->kind == nm::OBJECT ? (int)sim::choose(3) : 0;
            if (how == 2 && t.m->names[k].find('/') != string::npos) how = 1;
            string nme = how ? t.m->names[k] : "";
            if (how == 2 && t.m->ch[k]->kind == nm::OBJECT && !t.m->ch[k]->ch.empty() && sim::chance(1, 2)) {
                M *c = t.m->ch[k].get(); size_t j = sim::choose((uint32_t)c->ch.size()); if (c->names[j].find('/') != string::npos) break;
                string p = nme + "/" + c->names[j];
                run(t, "remove path", [&] { t.n->remove(p); }, [&] { c->erase(j); });
            } else run(t, how == 0 ? "remove index" : how == 1 ? "remove_child" : "remove name", [&] { if (how == 0) t.n->remove((index_t)k); else if (how == 1) t.n->remove_child(nme); else t.n->remove(nme); }, [&] { t.m->erase(k); });
            sim::count("probe.removed"); break; }
        case 16: { // rename
            if (t.m->kind != nm::OBJECT) { refused("renaming in a node without names", [&] { t.n->rename_child("a", "b"); }); break; }
            string to = NAMES[sim::choose(6)];
            if (t.m->ch.empty()) { refused("renaming a missing child", [&] { t.n->rename_child("nope", "b"); }); break; }
            size_t k = sim::choose((uint32_t)t.m->ch.size()); string from = t.m->names[k];
            if (t.m->find(to) >= 0) refused("renaming to an existing name", [&] { t.n->rename_child(from, to); });
            else run(t, "rename_child", [&] { t.n->rename_child(from, to); }, [&] { t.m->names[k] = to; });
            break; }
        case 17: if (!w.apart(t, s) || !w.apart(s, t)) { if (t.m->inside(*s.m) || s.m->inside(*t.m)) break; }
            if (sim::chance(1, 2)) run(t, "swap", [&] { t.n->swap(*s.n); }, [&] { t.m->swap(*s.m); });
            else { if (!w.apart(t, s)) break; run(t, "move", [&] { t.n->move(*s.n); }, [&] { t.m->reset(); t.m->swap(*s.m); }); }
            sim::count("probe.swapped"); break;
        case 18: case 19: { // updates
            if (!w.disjoint(t, s)) break;
            int how = (int)sim::choose(3);
            run(t, how == 0 ? "update" : how == 1 ? "update_compatible" : "update_external", [&] { if (how == 0) t.n->update(*s.n); else if (how == 1) t.n->update_compatible(*s.n); else t.n->update_external(*s.n); },
                [&] { if (how == 0) t.m->update(*s.m); else if (how == 1) t.m->update_compatible(*s.m); else t.m->update_external(*s.m); });
            sim::count("probe.updated"); break; }
        case 20: if (!w.apart(t, s)) break; run(t, "compact_to", [&] { s.n->compact_to(*t.n); }, [&] { s.m->compact_to(*t.m); }); break;
        case 21: { // whole nodes
            uint32_t k = sim::choose(6);
            if (k == 0) { run(t, "reset", [&] { t.n->reset(); }, [&] { t.m->reset(); }); break; }
            if (k == 1) { int a = (int)sim::choose(4); int id = a ? g_id[a - 1] : 0; run(t, "set_allocator", [&] { if (id) t.n->set_allocator(id); else t.n->reset_allocator(); }, [&] { if (t.m->alloc != id) { t.m->reset(); t.m->alloc = id; } }); break; }
            if (k == 2 && !faults) { sim::logf("copy construct from \"%s\"", s.m->path().c_str()); if (device || w.real.size() > 5) break; w.real.emplace_back(new Node(*s.n)); w.model.emplace_back(new M); w.model.back()->set(*s.m); w.compare_all("after copy construction"); break; }
            if (k == 3) { sim::logf("destroy root %zu", t.root); w.real[t.root].reset(new Node); w.model[t.root].reset(new M); w.pick_alloc(*w.real[t.root], *w.model[t.root]); w.drop_dead(); w.compare_all("after destroying a node"); break; }
            if (k == 4) { // list_of
                if (device) break;
                Schema sc; index_t cur = 0; rand_schema(sc, cur, 1); index_t n = sim::choose(4); Schema c; sc.compact_to(c); index_t eb = c.total_bytes_compact(); bool ext = sim::chance(1, 3); if (eb * n > 600) break;
                index_t at = ext ? place(DataType::UINT8_ID, eb * n, 0, 1) : 0;
                run(t, ext ? "list_of_external" : "list_of", [&] { if (ext) t.n->list_of_external(w.arena->real + at, sc, n); else { t.n->list_of(sc, n); if (eb * n > 0) memset(t.n->data_ptr(), 7, (size_t)(eb * n)); } },
                    [&] { t.m->reset(); t.m->kind = nm::LIST; BufP b = w.arena; if (!ext) { b = t.m->fresh(eb * n); std::fill(b->b.begin(), b->b.end(), 7); } for (index_t i = 0; i < n; i++) t.m->push("").over(c, b, at + i * eb); });
                break; }
            // reversing the byte order twice
            if (device) break;
            run(t, "endian_swap", [&] { t.n->endian_swap(Endianness::BIG_ID); t.n->endian_swap(Endianness::LITTLE_ID); }, nothing);
            break; }
        case 22: { // impossible requests
            uint32_t k = sim::choose(6);
            if (k == 0) refused("fetch of an empty path", [&] { t.n->fetch(""); });
            else if (k == 1) refused("fetch_existing of a missing path", [&] { t.n->fetch_existing("nope/a"); });
            else if (k == 2) refused("child of a missing index", [&] { t.n->child((index_t)t.m->ch.size() + (index_t)sim::choose(2)); });
            else if (k == 3) refused("child of a missing name", [&] { t.n->child("nope"); });
            else if (k == 4) { // more memory than there is
                sim::logf("huge at \"%s\"", t.m->path().c_str());
                index_t id = sim::chance(1, 2) ? DataType::INT8_ID : DataType::FLOAT64_ID; index_t n = (index_t)1 << (50 + sim::choose(9)); bool sch = sim::chance(1, 2);
                Schema sc; sc["p"].set(mk(DataType::INT32_ID, 1, 0, 4)); sc["q"].set(mk(id, n, 4, DataType::default_bytes(id)));
                std::set<nm::Buf *> own; std::set<const Node *> skip; t.m->owned(own); aliases(*w.real[t.root], *w.model[t.root], own, skip);
                if (!throws([&] { if (sch) t.n->set(sc); else t.n->set(mk(id, n, 0, DataType::default_bytes(id))); })) sim::fail("accepted", "an array larger than memory was accepted");
                uint64_t h = 0; inspect(*w.real[t.root], w.elem, h, skip); t.n->reset(); t.m->reset(); w.drop_dead(); w.compare_all("after a request larger than memory"); sim::count("probe.huge");
            } else { // the parent by path
                if (!t.m->parent || t.m->parent->kind != nm::OBJECT) break;
                string nme = plain_name(); run(t, "fetch ../" + nme, [&] { Node &x = t.n->fetch("../" + nme); if (&x != &t.n->parent()->child(nme)) sim::fail("structure", "fetch of ../%s returned another node", nme.c_str()); }, [&] { t.m->parent->add(nme); });
            }
            break; }
        default: { // look: paths
            if (t.m->parent == nullptr) break;
            bool obj = true; string p; for (M *m = t.m; m->parent; m = m->parent) { if (m->parent->kind != nm::OBJECT || m->name()[0] == '{') obj = false; p = p.empty() ? m->name() : m->name() + "/" + p; }
            if (!obj) break;
            Node &r = *w.real[t.root];
            if (!r.has_path(p) || !r.has_path("/" + p) || &r.fetch_existing(p) != t.n || &r[p] != t.n || r.has_path(p + "/nope")) sim::fail("structure", "\"%s\" is not found by its path", p.c_str());
            sim::count("probe.looked"); }
        }
    }
}
void finish(World &w) {
    vector<size_t> o; for (size_t i = 0; i < w.real.size(); i++) o.insert(o.begin() + sim::choose((uint32_t)o.size() + 1), i);
    for (size_t i : o) { if (sim::chance(1, 2)) w.real[i]->reset(); w.real[i].reset(); }
    for (int k = 1; k <= 3; k++) if (g_live[k]) sim::fail("leak", "allocator %d still holds %lld bytes after all nodes are gone", k, g_live[k]);
    for (auto &x : g_blk) { if (!x.second.freed) sim::fail("leak", "a block of %zu bytes was never freed", x.second.n); if (!guards_ok(x.first, x.second)) sim::fail("use-after-free", "a freed block of %zu bytes, or memory beside it, was written", x.second.n); }
}
}
SCENARIO(C22, conservation, 2) { reg_alloc(); World w; sim::sample("memory accounting of an edit history "); history(w, sim::chance(1, 2), 4 + (int)sim::choose(40), false); finish(w); }
SCENARIO(C22, device, 2) {
    reg_alloc(); g_device = true; g_copies = g_fills = 0; utils::set_memcpy_handler(dev_copy); utils::set_memset_handler(dev_fill);
    World w; w.elem = [](const Node &n, index_t i) { return dev_peek(n.element_ptr(i), (size_t)DataType::default_bytes(n.dtype().id())); };
    sim::sample("edit history in memory only handlers can access ");
    history(w, sim::chance(1, 3), 4 + (int)sim::choose(24), true);
    // contiguous copies to the host
    for (size_t i = 0; i < w.real.size(); i++) {
        vector<uint8> v; w.real[i]->serialize(v); M c; w.model[i]->compact_to(c); vector<uint8_t> want; if (c.own) want = c.own->b;
        if (v != want) sim::fail("value", "serialize gives other bytes than the node holds");
        Node h; h.set(*w.real[i]); M hm; hm.set(*w.model[i]); w.compare(h, hm, nullptr, "after copying to the host");
    }
    if (g_copies) sim::count("probe.handler_copy", (uint64_t)g_copies);
    if (g_fills) sim::count("probe.handler_fill", (uint64_t)g_fills);
    finish(w);
    for (auto &x : g_blk) if (x.second.device) ::munmap(x.first, x.second.map);
    g_blk.clear(); utils::set_memcpy_handler(utils::default_memcpy_handler); utils::set_memset_handler(utils::default_memset_handler);
}
SCENARIO(C21, edits, 2) { reg_alloc(); World w; sim::sample("edit history "); history(w, false, 4 + (int)sim::choose(40), false); finish(w); }
SCENARIO(C21, alloc_fault, 2) { reg_alloc(); World w; sim::sample("edit history with failing allocations "); history(w, true, 4 + (int)sim::choose(30), false); finish(w); }
