#include "gen.hpp"
#include <cstring>
#include <algorithm>
namespace gen {
bool loose_empty = false, moderate = false;
using namespace conduit;
void *arena(size_t n) { return calloc(1, n ? n : 1); }
const std::vector<index_t> number_types = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};

static const char *tname(index_t id) { static const char *n[] = {"empty", "object", "list", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str"}; return id >= 0 && id <= 13 ? n[id] : "?"; }
static size_t ebytes(index_t id) { static const int b[] = {0, 0, 0, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1}; return b[id]; }
static void hexval(std::string &s, const unsigned char *p, size_t n, bool swap) {
    static const char *d = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) { unsigned char c = p[swap ? n - 1 - i : i]; s += d[c >> 4]; s += d[c & 15]; }
}
std::string canon_value(const Node &n) {
    const DataType &t = n.dtype();
    std::string s;
    const unsigned char *base = (const unsigned char *)n.data_ptr();
    bool swap = t.endianness() != Endianness::DEFAULT_ID && t.endianness() != Endianness::machine_default();
    index_t cnt = t.number_of_elements();
    if (t.id() == DataType::CHAR8_STR_ID) {
        s += '"';
        for (index_t i = 0; i < cnt; i++) { unsigned char c = *(base + t.offset() + i * t.stride()); if (!c) break; if (c < 32 || c > 126) { s += "\\x"; hexval(s, &c, 1, false); } else s += (char)c; }
        s += '"';
        return s;
    }
    for (index_t i = 0; i < cnt; i++) { if (i) s += ','; hexval(s, base + t.offset() + i * t.stride(), ebytes(t.id()), swap); }
    return s;
}
static void canon_rec(const Node &n, std::string &s, int ind) {
    const DataType &t = n.dtype();
    if (loose_empty && (t.is_object() || t.is_list()) && n.number_of_children() == 0) { s += "empty\n"; return; }
    s += tname(t.id());
    if (t.is_object()) {
        s += "{\n";
        for (index_t i = 0; i < n.number_of_children(); i++) {
            s.append(ind + 1, ' ');
            const Node &c = n.child(i);
            s += "'" + n.schema().child_name(i) + "': ";
            canon_rec(c, s, ind + 1);
        }
        s.append(ind, ' '); s += "}\n";
    } else if (t.is_list()) {
        s += "[\n";
        for (index_t i = 0; i < n.number_of_children(); i++) { s.append(ind + 1, ' '); s += "- "; canon_rec(n.child(i), s, ind + 1); }
        s.append(ind, ' '); s += "]\n";
    } else if (t.is_empty()) s += "\n";
    else {
        s += "(" + std::to_string(t.is_string() ? 0 : t.number_of_elements()) + ") " + canon_value(n) + "\n";
    }
}
static void ctext_rec(const Node &n, std::string &s, int ind) {
    const DataType &t = n.dtype();
    if ((t.is_object() || t.is_list()) && n.number_of_children() == 0) { s += "empty\n"; return; }
    if (t.is_object()) {
        s += "{\n";
        for (index_t i = 0; i < n.number_of_children(); i++) { s.append(ind + 1, ' '); s += "'" + n.schema().child_name(i) + "': "; ctext_rec(n.child(i), s, ind + 1); }
        s.append(ind, ' '); s += "}\n";
    } else if (t.is_list()) {
        s += "[\n";
        for (index_t i = 0; i < n.number_of_children(); i++) { s.append(ind + 1, ' '); s += "- "; ctext_rec(n.child(i), s, ind + 1); }
        s.append(ind, ' '); s += "]\n";
    } else if (t.is_empty()) s += "empty\n";
    else if (t.is_string()) s += "str " + canon_value(n) + "\n";
    else {
        index_t k = t.number_of_elements();
        if (k == 0) { s += "empty\n"; return; }
        s += "num(" + std::to_string(k) + ")";
        Node c; n.compact_to(c);
        bool swap = t.endianness() != Endianness::DEFAULT_ID && t.endianness() != Endianness::machine_default();
        size_t eb = ebytes(t.id());
        for (index_t i = 0; i < k; i++) {
            unsigned char b[8]; memcpy(b, (const unsigned char *)n.data_ptr() + t.offset() + i * t.stride(), eb);
            if (swap) std::reverse(b, b + eb);
            char o[64];
#define G(ID, T, F, C) if (t.id() == ID) { T v; memcpy(&v, b, sizeof v); snprintf(o, sizeof o, F, (C)v); }
            G(DataType::INT8_ID, int8_t, "%lld", long long) G(DataType::INT16_ID, int16_t, "%lld", long long) G(DataType::INT32_ID, int32_t, "%lld", long long) G(DataType::INT64_ID, int64_t, "%lld", long long)
            G(DataType::UINT8_ID, uint8_t, "%llu", unsigned long long) G(DataType::UINT16_ID, uint16_t, "%llu", unsigned long long) G(DataType::UINT32_ID, uint32_t, "%llu", unsigned long long) G(DataType::UINT64_ID, uint64_t, "%llu", unsigned long long)
            G(DataType::FLOAT32_ID, float, "%.17g", double) G(DataType::FLOAT64_ID, double, "%.17g", double)
            s += ' '; s += o;
        }
        s += "\n";
    }
}
std::string canon_text(const Node &n) { std::string s; ctext_rec(n, s, 0); return s; }
std::string canon(const Node &n) { std::string s; canon_rec(n, s, 0); return s; }
uint64_t hash(const Node &n) { std::string s = canon(n); return sim::fnv(s.data(), s.size()); }
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t l = i; while (l > 0 && a[l - 1] != '\n') l--;
    size_t ea = a.find('\n', i), eb = b.find('\n', i);
    auto cut = [](std::string x) { return x.size() > 160 ? x.substr(0, 160) + "..." : x; };
    return "expected <" + cut(a.substr(std::min(l, a.size()), ea == std::string::npos ? std::string::npos : ea - l)) + "> got <" + cut(b.substr(std::min(l, b.size()), eb == std::string::npos ? std::string::npos : eb - l)) + ">";
}
std::string rand_name(bool weird) {
    static const char *plain[] = {"a", "b", "c", "x", "y", "coords", "values", "n0", "n1", "longer_name_for_a_child"};
    static const char *odd[] = {"with space", "dot.name", "UPPER", "0", "42", "-1", "\xc3\xa9t\xc3\xa9", "quote\"d", "tab\tname", "back\\slash", "{curly}", "a:b", "#hash", "null"};
    if (weird && sim::chance(1, 8)) return odd[sim::choose(14)];
    std::string s = plain[sim::choose(10)];
    if (sim::chance(1, 4)) s += std::to_string(sim::choose(20));
    return s;
}
// the values of one leaf follow from one choice (0: 0, 1, 2, ...)
struct Values {
    uint32_t seed; uint64_t st; uint32_t i = 0;
    Values() : seed(sim::choose(1u << 16)), st(seed) { }
    uint32_t choose(uint32_t n) {
        if (!seed) return n <= 1 ? 0 : i % n;
        uint64_t z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
        return (uint32_t)(((z >> 32) * (uint64_t)n) >> 32);
    }
    void fill(unsigned char *p, size_t eb, index_t id) {
        // moderately sized values so that all conversions are exact; sometimes extreme bit patterns
        if (id == DataType::FLOAT32_ID) { float f = seed ? (float)((int)choose(2001) - 1000) / 8.0f : (float)(i % 1000); memcpy(p, &f, 4); }
        else if (id == DataType::FLOAT64_ID) { double f = seed ? (double)((int)choose(200001) - 100000) / 64.0 : (double)i; memcpy(p, &f, 8); }
        else if (moderate) { int64_t v = (int64_t)choose(120); memcpy(p, &v, eb); }
        else if (!seed) { uint64_t v = i; memcpy(p, &v, eb); }
        else { uint64_t v = choose(8) == 7 ? ~0ull - choose(3) : (((uint64_t)choose(1u << 16)) << (8 * choose(6))) + choose(256); memcpy(p, &v, eb); }
        i++;
    }
};
static void rev(unsigned char *p, size_t n) { std::reverse(p, p + n); }
void typed_leaf(Node &out, index_t id, int n, bool layouts, bool swapped) {
    size_t eb = ebytes(id);
    int lay = layouts ? (int)sim::choose(6) : 0;
    bool sw = swapped && eb > 1 && sim::chance(1, 4);
    index_t endi = sw ? (Endianness::machine_default() == Endianness::LITTLE_ID ? Endianness::BIG_ID : Endianness::LITTLE_ID) : Endianness::DEFAULT_ID;
    index_t off = 0, stride = (index_t)eb;
    if (lay == 1 || lay == 4) { off = (index_t)(eb * sim::choose(4)); }
    if (lay == 2 || lay == 4) { stride = (index_t)(eb * (1 + sim::choose(3))); }
    if (lay == 5) { off = 1 + sim::choose(7); stride = (index_t)eb + sim::choose(5); } // unaligned
    DataType dt(id, n, off, stride, (index_t)eb, endi);
    size_t total = (size_t)(off + (n ? (n - 1) * stride + (index_t)eb : 0)) + 16;
    unsigned char *mem;
    if (lay == 0 || lay == 3) {
        // owned, compact unless swapped
        out.set(DataType(id, n, 0, (index_t)eb, (index_t)eb, endi));
        mem = (unsigned char *)out.data_ptr(); off = 0; stride = (index_t)eb;
    } else {
        mem = (unsigned char *)arena(total);
        for (size_t i = 0; i < total; i++) mem[i] = (unsigned char)(0xD0 + i % 13);
        out.set_external(dt, mem);
    }
    if (n == 0) return;
    Values vals;
    for (int i = 0; i < n; i++) { unsigned char *p = mem + off + i * stride; vals.fill(p, eb, id); if (sw) rev(p, eb); }
}
void rand_leaf(Node &out, const Opt &o) {
    int k = (int)sim::choose(14);
    if (o.strings && k == 13) {
        static const char *ss[] = {"", "hello", "a longer string with spaces", "quotes \" and \\ slashes", "line\nbreak", "\xc3\xa9", "123", "true", "null", "{\"json\":1}", "- yaml: x"};
        std::string s = ss[sim::choose(o.weird_names ? 11 : 3)];
        if (s.empty() && !o.empty_strings) s = "s";
        if (o.layouts && sim::chance(1, 4)) { char *m = (char *)arena(s.size() + 1); memcpy(m, s.c_str(), s.size() + 1); out.set_external_char8_str(m); }
        else out.set(s);
        return;
    }
    if (o.empties && k == 12) { out.reset(); return; }
    int n = o.zero_len && sim::chance(1, 12) ? 0 : 1 + (int)sim::choose(o.max_elems);
    if (o.big && sim::chance(1, 6)) n = 1000 + (int)sim::choose(3000);
    size_t nt = o.fp ? number_types.size() : number_types.size() - 2;
    typed_leaf(out, number_types[sim::choose((uint32_t)nt)], n, o.layouts, o.swapped);
}
static void rec(Node &out, const Opt &o, int depth, bool root) {
    int k = depth <= 0 ? 0 : (int)sim::choose(root ? 4 : 3);
    if (root && !o.root_leaf && k == 0) k = 1;
    if (root && o.only_object_root) k = 1;
    if (k == 0) { rand_leaf(out, o); return; }
    if (k == 2 && o.lists) {
        out.set(DataType::list());
        int n = (int)sim::choose(o.max_children + 1);
        if (n == 0 && !o.empties) n = 1;
        for (int i = 0; i < n; i++) {
            if (o.list_of_objects) { Node &c = out.append(); c.set(DataType::object()); rec(c.add_child("m"), o, depth - 2, false); if (c[0].dtype().is_empty()) c[0].set((int32)7); }
            else rec(out.append(), o, depth - 1, false);
        }
        return;
    }
    out.set(DataType::object());
    int n = (int)sim::choose(o.max_children + 1);
    if (n == 0 && !o.empties) n = 1;
    for (int i = 0; i < n; i++) {
        std::string nm = rand_name(o.weird_names);
        if (out.has_child(nm)) continue;
        rec(out.add_child(nm), o, depth - 1, false);
    }
}
void rand_node(Node &out, const Opt &o) {
    out.reset();
    rec(out, o, o.max_depth, true);
    // sometimes make the whole tree one compact allocation, or use an inner node of such a tree
    if (o.layouts && sim::chance(1, 3)) {
        Node *t = new Node;           // lives for the run
        out.compact_to(*t);
        if (sim::chance(1, 2)) { out.reset(); out.set_external(*t); }
        else { out.reset(); out.set(*t); }
    }
}
void scribble(Node &n) {
    if (n.dtype().is_object() || n.dtype().is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) scribble(n.child(i)); return; }
    if (n.dtype().is_empty()) return;
    const DataType &t = n.dtype();
    unsigned char *b = (unsigned char *)n.data_ptr();
    size_t eb = ebytes(t.id());
    for (index_t i = 0; i < t.number_of_elements(); i++) for (size_t k = 0; k < eb; k++) {
        unsigned char &c = b[t.offset() + i * t.stride() + k];
        if (t.is_string()) { if (i + 1 < t.number_of_elements()) c = 'Z'; }
        else c = (unsigned char)~c;
    }
}
static void like_rec(const Node &s, Node &d, bool layouts) {
    if (s.dtype().is_object()) { d.set(DataType::object()); for (index_t i = 0; i < s.number_of_children(); i++) like_rec(s.child(i), d.add_child(s.schema().child_name(i)), layouts); }
    else if (s.dtype().is_list()) { d.set(DataType::list()); for (index_t i = 0; i < s.number_of_children(); i++) like_rec(s.child(i), d.append(), layouts); }
    else if (s.dtype().is_empty()) d.reset();
    else if (s.dtype().is_string()) d.set(DataType::char8_str(s.dtype().number_of_elements()));
    else typed_leaf(d, s.dtype().id(), (int)s.dtype().number_of_elements(), layouts);
}
void like(const Node &s, Node &d, bool layouts) { d.reset(); like_rec(s, d, layouts); if (!layouts || sim::chance(1, 2)) { Node t; d.compact_to(t); d.reset(); d.set(t); } }
} // namespace gen
