// Generators and independent views of conduit nodes.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <string>
#include <vector>
#include "conduit.hpp"
#include "sim.hpp"
namespace gen {
// JSON schemas do not tell an object or list without children from an empty node
extern bool loose_empty;
extern bool moderate;      // integers that fit every reader
// values only: numbers as decimal text, number types not distinguished
std::string canon_text(const conduit::Node &n);
using conduit::Node; using conduit::DataType; using conduit::Schema; using conduit::index_t;

// Canonical text of a node: structure, names, order, dtypes, element bytes in
// native byte order. Reads memory directly through pointer/offset/stride.
// loose: (text protocols) integers as int64, floats as float64
struct CanonOpt { bool native_endian = true; bool ignore_empty = false; };
std::string canon(const Node &n);
std::string canon_value(const Node &leaf);        // values only of one leaf
uint64_t hash(const Node &n);
inline void log(const Node &n) { sim::logf("data %016llx", (unsigned long long)hash(n)); }   // inputs are part of a run's identity
// human-readable first difference
std::string diff(const std::string &a, const std::string &b);

struct Opt {
    int max_depth = 3, max_children = 4, max_elems = 6;
    bool lists = true, empties = true, strings = true, zero_len = true;
    bool layouts = true;        // external / strided / offset leaves
    bool swapped = false;       // non-native endianness
    bool root_leaf = true;
    bool weird_names = true;
    bool big = false;           // some large arrays (multi-page)
    bool only_object_root = false;
    bool fp = true;
    bool list_of_objects = false;  // lists hold non-empty objects only
    bool empty_strings = true;
};
void rand_node(Node &out, const Opt &o);
void rand_leaf(Node &out, const Opt &o);
// a leaf with the given dtype id and count
void typed_leaf(Node &out, index_t dtype_id, int n, bool layouts, bool swapped = false);
extern const std::vector<index_t> number_types;
std::string rand_name(bool weird);
// make a structurally identical destination with other contents / layout
void like(const Node &src, Node &dst, bool layouts);
void scribble(Node &n);        // change every byte of the leaves' values
void *arena(size_t n);         // memory that lives for the whole run
// compact-equality: same tree and values
} // namespace gen
#endif
