// A small executable model of conduit trees: ordered tree of typed arrays over
// byte buffers, with ownership, aliasing and allocators made explicit.
#ifndef VERIF_NODEMODEL_HPP
#define VERIF_NODEMODEL_HPP
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstring>
#include "conduit.hpp"
namespace nm {
using conduit::Node; using conduit::DataType; using conduit::Schema; using conduit::index_t;
struct Buf { std::vector<uint8_t> b; bool alive = true; uint8_t *real = nullptr; };   // real: arena memory whose address is known
typedef std::shared_ptr<Buf> BufP;
enum Kind { EMPTY, OBJECT, LIST, LEAF };
struct Lay { index_t id = 0, n = 0, off = 0, stride = 0; };       // layout of a leaf
struct M {
    Kind kind = EMPTY; Lay d; BufP buf; index_t base = 0;         // leaf data: buf->b[base + off + i*stride]
    BufP own;                                                     // buffer this node must free
    int alloc = 0; M *parent = nullptr;
    std::vector<std::unique_ptr<M>> ch; std::vector<std::string> names;
    ~M() { release(); }
    index_t esz() const { return DataType::default_bytes(d.id); }
    uint8_t *at(index_t i) { return buf->b.data() + base + d.off + i * d.stride; }
    const uint8_t *at(index_t i) const { return const_cast<M *>(this)->at(i); }
    int find(const std::string &k) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == k) return (int)i; return -1; }
    void release() { ch.clear(); names.clear(); if (own) { own->alive = false; own.reset(); } }
    void reset() { release(); kind = EMPTY; d = Lay(); buf.reset(); base = 0; }
    BufP fresh(index_t n) { own.reset(new Buf); own->b.assign((size_t)(n > 0 ? n : 0), 0); return own; }
    void become(Kind k) { if (kind == k) return; reset(); kind = k; }
    M &add(const std::string &k) { become(OBJECT); int i = find(k); if (i >= 0) return *ch[i]; return push(k); }
    M &append() { become(LIST); return push(""); }
    M &push(const std::string &k) { M *c = new M; c->alloc = alloc; c->parent = this; ch.emplace_back(c); if (kind == OBJECT) names.push_back(k); return *c; }
    void erase(size_t i) { ch.erase(ch.begin() + i); if (kind == OBJECT) names.erase(names.begin() + i); }
    bool compatible(index_t id, index_t n) const { return kind == LEAF && d.id == id && d.n >= n; }
    // a typed set: in place when the leaf can hold the values, a new compact array otherwise
    bool init(index_t id, index_t n) {
        if (compatible(id, n)) return false;
        reset(); kind = LEAF; d.id = id; d.n = n; d.stride = esz(); buf = fresh(n * esz()); return true;
    }
    void put(index_t id, index_t n, const uint8_t *v) { init(id, n); for (index_t i = 0; i < n; i++) memcpy(at(i), v + i * esz(), esz()); }
    index_t compact_bytes() const { if (kind == LEAF) return d.n * esz(); index_t s = 0; for (auto &c : ch) s += c->compact_bytes(); return s; }
    // copies src into this: one owned buffer per leaf
    void set(const M &s) {
        if (s.kind == OBJECT || s.kind == LIST) { reset(); kind = s.kind; for (size_t i = 0; i < s.ch.size(); i++) push(kind == OBJECT ? s.names[i] : "").set(*s.ch[i]); }
        else if (s.kind == LEAF) s.compact_to(*this);
        else reset();
    }
    // copies into dest: one buffer owned by dest for the whole tree
    void compact_to(M &t) const { t.reset(); index_t n = compact_bytes(); BufP b; if (n > 0) b = t.fresh(n); else b.reset(new Buf); index_t o = 0; pack(t, b, o); }
    void pack(M &t, BufP b, index_t &o) const {
        t.kind = kind;
        if (kind == LEAF) { t.d.id = d.id; t.d.n = d.n; t.d.off = o; t.d.stride = esz(); t.buf = b; for (index_t i = 0; i < d.n; i++) memcpy(t.at(i), at(i), esz()); o += d.n * esz(); }
        else for (size_t i = 0; i < ch.size(); i++) ch[i]->pack(t.push(kind == OBJECT ? names[i] : ""), b, o);
    }
    // structure of s over the memory of s
    void alias(const M &s) { reset(); kind = s.kind; d = s.d; buf = s.buf; base = s.base; for (size_t i = 0; i < s.ch.size(); i++) push(kind == OBJECT ? s.names[i] : "").alias(*s.ch[i]); }
    // structure of a schema over given memory (node must be reset)
    void over(const Schema &s, BufP b, index_t bs) {
        if (s.dtype().is_object() || s.dtype().is_list()) { kind = s.dtype().is_object() ? OBJECT : LIST; for (index_t i = 0; i < s.number_of_children(); i++) push(kind == OBJECT ? s.child_names()[i] : "").over(s.child(i), b, bs); }
        else if (!s.dtype().is_empty()) { kind = LEAF; d.id = s.dtype().id(); d.n = s.dtype().number_of_elements(); d.off = s.dtype().offset(); d.stride = s.dtype().stride(); buf = b; base = bs; }
    }
    void update(const M &s) {
        if (s.kind == OBJECT) for (size_t i = 0; i < s.ch.size(); i++) add(s.names[i]).update(*s.ch[i]);
        else if (s.kind == LIST) { size_t k = 0; if (kind == LIST) for (; k < ch.size() && k < s.ch.size(); k++) ch[k]->update(*s.ch[k]); for (; k < s.ch.size(); k++) append().update(*s.ch[k]); }
        else if (s.kind == LEAF) { if (kind == LEAF && d.id == s.d.id && d.n >= s.d.n) copy_in(s); else s.compact_to(*this); }
    }
    void update_compatible(const M &s) {
        if (s.kind == OBJECT) { if (kind == OBJECT) for (size_t i = 0; i < s.ch.size(); i++) { int k = find(s.names[i]); if (k >= 0) ch[k]->update_compatible(*s.ch[i]); } }
        else if (s.kind == LIST) { if (kind == LIST) for (size_t k = 0; k < ch.size() && k < s.ch.size(); k++) ch[k]->update_compatible(*s.ch[k]); }
        else if (s.kind == LEAF && kind == LEAF && d.id == s.d.id && d.n >= s.d.n) copy_in(s);
    }
    void update_external(const M &s) {
        if (s.kind == OBJECT) for (size_t i = 0; i < s.ch.size(); i++) add(s.names[i]).update_external(*s.ch[i]);
        else if (s.kind == LIST) { size_t k = 0; if (kind == LIST) for (; k < ch.size() && k < s.ch.size(); k++) ch[k]->update_external(*s.ch[k]); for (; k < s.ch.size(); k++) append().update_external(*s.ch[k]); }
        else if (s.kind == LEAF) alias(s);
    }
    void copy_in(const M &s) { for (index_t i = 0; i < s.d.n; i++) memcpy(at(i), s.at(i), esz()); }
    void swap(M &o) {      // contents, memory and allocator change places; positions and names do not
        std::swap(kind, o.kind); std::swap(d, o.d); std::swap(buf, o.buf); std::swap(base, o.base); std::swap(own, o.own); std::swap(alloc, o.alloc);
        std::swap(ch, o.ch); std::swap(names, o.names);
        for (auto &c : ch) c->parent = this;
        for (auto &c : o.ch) c->parent = &o;
    }
    void owned(std::set<Buf *> &s) const { if (own) s.insert(own.get()); for (auto &c : ch) c->owned(s); }
    void used(std::set<Buf *> &s) const { if (kind == LEAF) s.insert(buf.get()); for (auto &c : ch) c->used(s); }
    bool inside(const M &o) const { for (const M *p = this; p; p = p->parent) if (p == &o) return true; return false; }
    void owned_bytes(std::map<int, long long> &m) const { if (own) m[alloc] += (long long)own->b.size(); for (auto &c : ch) c->owned_bytes(m); }
    std::string name() const { if (!parent) return ""; for (size_t i = 0; i < parent->ch.size(); i++) if (parent->ch[i].get() == this) { if (parent->kind == LIST) return "[" + std::to_string(i) + "]"; const std::string &k = parent->names[i]; return k.find('/') != std::string::npos ? "{" + k + "}" : k; } return "?"; }
    std::string path() const { if (!parent) return ""; std::string p = parent->path(); return p.empty() ? name() : p + "/" + name(); }
};
}
#endif
