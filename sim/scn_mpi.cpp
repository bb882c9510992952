// C01-C04: conduit::relay::mpi over the simulated MPI.
#include "sim.hpp"
#include "simmpi.hpp"
#include "gen.hpp"
#include "conduit_relay_mpi.hpp"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
using namespace conduit;
namespace rmpi = conduit::relay::mpi;
using std::vector; using std::string;

namespace {
struct World { int n; int total; MPI_Comm comm; vector<int> group; };
// ranks of a communicator: either all of MPI_COMM_WORLD or a permuted subset of a larger world
World draw_world(int maxn, bool allow_sub = true) {
    World w;
    gen::loose_empty = true;
    w.n = sim::range(1, maxn) ;
    if (w.n == 1) w.n = 2;
    simmpi::reset();
    simmpi::cfg = simmpi::Config();
    simmpi::draw_transport();
    if (allow_sub && sim::chance(1, 3)) {
        w.total = w.n + (int)sim::choose(3);
        vector<int> p = sim::permutation(w.total);
        w.group.assign(p.begin(), p.begin() + w.n);
        w.comm = simmpi::make_comm(w.group);
    } else { w.total = w.n; for (int i = 0; i < w.n; i++) w.group.push_back(i); w.comm = MPI_COMM_WORLD; }
    sim::sample("world=%d comm=%d%s transport=%d ", w.total, w.n, w.comm == MPI_COMM_WORLD ? "(world)" : "(sub)", simmpi::cfg.transport);
    return w;
}
void run(const World &w, const std::function<void(int)> &fn) {
    simmpi::run_ranks(w.total, [&](int wr) {
        for (int i = 0; i < w.n; i++) if (w.group[i] == wr) { fn(i); return; }
    });
}
void expect(const string &want, const Node &got, const char *cls, const string &what) {
    string g = gen::canon(got);
    if (g != want) sim::fail(cls, "%s: %s", what.c_str(), gen::diff(want, g).c_str());
}
string S(int x) { return std::to_string(x); }

struct Xfer { int id, src, dst, tag, skind, rkind; Node *node; string want; Node *out; bool swapped; string place; };
// skind: 0 send 1 send_using_schema 2 isend      rkind: 0 recv 1 recv_using_schema 2 irecv
} // namespace

// ------------------------------------------------------------------ C01
// where the values of a receive node live: receives fill the caller's memory in place
static void places(const Node &n, string &o) {
    if (n.dtype().is_object() || n.dtype().is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) places(n.child(i), o); return; }
    char b[96]; if (n.dtype().number_of_elements() > 0) snprintf(b, sizeof b, "%p+%ld ", n.element_ptr(0), (long)n.dtype().stride()); else b[0] = 0;
    o += b;
}
static string places(const Node &n) { string o; places(n, o); return o; }
static void inplace(const Xfer &x) {
    if (!x.place.empty() && places(*x.out) != x.place) sim::fail("p2p-in-place", "transfer %d: the receive replaced the memory of a node laid out for the message", x.id);
}
static void p2p_body(bool wildcard_only) {
    World w = draw_world(5);
    int phases = sim::range(1, 2);
    vector<std::function<void(int)>> steps;
    for (int ph = 0; ph < phases; ph++) {
        bool wild = wildcard_only || sim::chance(1, 4);
        auto xs = std::make_shared<vector<Xfer>>();
        if (!wild) {
            int k = sim::range(1, 7);
            std::map<std::pair<int, std::pair<int, int>>, int> keykind;
            for (int i = 0; i < k; i++) {
                Xfer x; x.id = i;
                x.src = (int)sim::choose(w.n);
                x.dst = (x.src + 1 + (int)sim::choose(w.n - 1)) % w.n;
                x.tag = sim::chance(1, 10) ? 30000 + (int)sim::choose(2767) : (int)sim::choose(3);
                int kind = (int)sim::choose(6);
                // 0 send/recv 1 using_schema 2 isend/irecv 3 isend/recv 4 send/irecv 5 using_schema
                // messages with equal source, destination and tag are all of one kind, posted in order
                auto key = std::make_pair(x.src, std::make_pair(x.dst, x.tag));
                if (keykind.count(key)) kind = keykind[key]; else keykind[key] = kind;
                x.skind = (kind == 1 || kind == 5) ? 1 : (kind == 2 || kind == 3) ? 2 : 0;
                x.rkind = (kind == 1 || kind == 5) ? 1 : (kind == 2 || kind == 4) ? 2 : 0;
                bool into = x.rkind != 1 || sim::chance(1, 4); // receive into an existing node of the same shape
                gen::Opt o; o.swapped = !into; o.big = true;
                x.node = new Node; gen::rand_node(*x.node, o);
                x.want = gen::canon(*x.node);
                x.out = new Node;
                if (into) { gen::like(*x.node, *x.out, true); x.place = places(*x.out); }
                xs->push_back(x);
                sim::sample("[%d->%d tag %d kind %d] ", x.src, x.dst, x.tag, kind);
            }
            uint32_t waitmode = sim::choose(3);
            bool rfirst = sim::chance(1, 2), again = sim::chance(1, 3);
            steps.push_back([=](int me) {
                struct P { Xfer *x; bool send; };
                vector<P> pend;
                rmpi::Request *reqs = new rmpi::Request[xs->size() * 2];
                for (int pass = 0; pass < 2; pass++)
                    for (auto &x : *xs) {
                        bool s = (pass == 0) != rfirst;
                        if (s && x.src == me && x.skind == 2) { rmpi::isend(*x.node, x.dst, x.tag, w.comm, &reqs[pend.size()]); pend.push_back({&x, true}); }
                        if (!s && x.dst == me && x.rkind == 2) { rmpi::irecv(*x.out, x.src, x.tag, w.comm, &reqs[pend.size()]); pend.push_back({&x, false}); }
                    }
                for (auto &x : *xs) {
                    if (x.src == me && x.skind == 0) { int e = rmpi::send(*x.node, x.dst, x.tag, w.comm); if (e) sim::fail("error-code", "send returned %d", e); gen::scribble(*x.node); }
                    if (x.src == me && x.skind == 1) { int e = rmpi::send_using_schema(*x.node, x.dst, x.tag, w.comm); if (e) sim::fail("error-code", "send_using_schema returned %d", e); gen::scribble(*x.node); }
                    if (x.dst == me && x.rkind == 0) { int e = rmpi::recv(*x.out, x.src, x.tag, w.comm); if (e) sim::fail("error-code", "recv returned %d", e); expect(x.want, *x.out, "p2p-data", "recv of transfer " + S(x.id)); inplace(x); }
                    if (x.dst == me && x.rkind == 1) { int e = rmpi::recv_using_schema(*x.out, x.src, x.tag, w.comm); if (e) sim::fail("error-code", "recv_using_schema returned %d", e); expect(x.want, *x.out, "p2p-data", "recv_using_schema of transfer " + S(x.id)); inplace(x); }
                }
                auto after = [&](const P &p) {
                    if (p.send) { if (gen::canon(*p.x->node) != p.x->want) sim::fail("sender-changed", "isend changed the sent node"); gen::scribble(*p.x->node); }
                    else { expect(p.x->want, *p.x->out, "p2p-data", "irecv of transfer " + S(p.x->id)); inplace(*p.x); }
                };
                size_t n = pend.size();
                if (waitmode == 0 && n) {
                    vector<MPI_Status> st(n);
                    rmpi::wait_all((int)n, reqs, st.data());
                    for (auto &p : pend) after(p);
                } else if (waitmode == 1 && n) {
                    // complete one by one, in order; sends may need the peer's receive which is already posted
                    for (size_t i = 0; i < n; i++) { MPI_Status st; if (pend[i].send) rmpi::wait_send(&reqs[i], &st); else rmpi::wait_recv(&reqs[i], &st); after(pend[i]); }
                } else if (n) {
                    size_t h = n / 2; vector<MPI_Status> st(n);
                    if (h) rmpi::wait_all_recv((int)h, reqs, st.data());
                    if (n - h) rmpi::wait_all_send((int)(n - h), reqs + h, st.data());
                    for (auto &p : pend) after(p);
                }
                if (again && n) { // completed requests are inactive: waiting for them again returns at once and changes nothing
                    vector<MPI_Status> st(n);
                    if (waitmode == 1) for (size_t i = 0; i < n; i++) rmpi::wait(&reqs[i], &st[i]); else rmpi::wait_all((int)n, reqs, st.data());
                    for (auto &p : pend) if (!p.send) expect(p.x->want, *p.x->out, "p2p-data", "second wait for irecv of transfer " + S(p.x->id));
                }
                delete[] reqs;
            });
        } else {
            // several senders, one receiver using wildcards
            int R = (int)sim::choose(w.n), k = sim::range(1, 5), kind = (int)sim::choose(3); // 0 recv 1 using schema 2 irecv
            int els = sim::range(1, 5);
            index_t ty = sim::pick(gen::number_types);
            for (int i = 0; i < k; i++) {
                Xfer x; x.id = i; x.dst = R; x.src = (R + 1 + (int)sim::choose(w.n - 1)) % w.n; x.tag = (int)sim::choose(4);
                x.node = new Node; x.out = new Node;
                if (kind == 1) { gen::Opt o; o.only_object_root = true; gen::rand_node(*x.node, o); (*x.node)["__id"] = i; }
                else { gen::typed_leaf((*x.node)["v"], ty, els, true); (*x.node)["__id"].set((int64)i); Node t; (*x.node).compact_to(t); if (sim::chance(1, 2)) { x.node->reset(); x.node->set(t); } gen::like(*x.node, *x.out, true); }
                x.want = gen::canon(*x.node);
                xs->push_back(x);
                sim::sample("[wild %d->%d tag %d kind %d] ", x.src, x.dst, x.tag, kind);
            }
            bool side = kind == 2 && sim::chance(1, 2); // receiver also isends while its wildcard receive is pending
            int other = (R + 1) % w.n;
            Node *sn = new Node, *so = new Node; gen::typed_leaf(*sn, DataType::INT32_ID, 3, true); string swant = gen::canon(*sn); so->set(DataType::int32(3));
            if (side) sim::sample("[side %d->%d] ", R, other);
            steps.push_back([=](int me) {
                if (me == R) {
                    std::map<int, Xfer *> by;
                    for (auto &x : *xs) by[x.id] = &x;
                    std::map<int, int> lastid;
                    auto got = [&](const Node &n) {
                        if (!n.has_path("__id")) sim::fail("p2p-data", "wildcard receive delivered a message nobody sent");
                        int id = n["__id"].to_int();
                        if (!by.count(id)) sim::fail("p2p-exactly-once", "message %d delivered twice or never sent", id);
                        Xfer *x = by[id]; by.erase(id);
                        expect(x->want, n, "p2p-data", "wildcard receive of transfer " + S(id));
                        int key = x->src * 100 + x->tag;
                        if (lastid.count(key) && lastid[key] > id) sim::fail("p2p-order", "messages of one sender and tag arrived out of order");
                        lastid[key] = id;
                    };
                    if (kind == 2) {
                        vector<rmpi::Request> rq(xs->size() + 1); size_t i = 0;
                        for (auto &x : *xs) rmpi::irecv(*x.out, w.comm, &rq[i++]);
                        if (side) rmpi::isend(*sn, other, 7, w.comm, &rq[i++]);
                        vector<MPI_Status> st(i);
                        rmpi::wait_all((int)i, rq.data(), st.data());
                        for (auto &x : *xs) got(*x.out);
                    } else for (auto &x : *xs) {
                        int e = kind == 0 ? rmpi::recv(*x.out, w.comm) : rmpi::recv_using_schema(*x.out, w.comm);
                        if (e) sim::fail("error-code", "wildcard receive returned %d", e);
                        got(*x.out);
                    }
                    if (!by.empty()) sim::fail("p2p-exactly-once", "a message was lost");
                } else {
                    rmpi::Request q; MPI_Status st;
                    if (side && me == other) rmpi::irecv(*so, R, 7, w.comm, &q);
                    for (auto &x : *xs) if (x.src == me) {
                        if (kind == 1) rmpi::send_using_schema(*x.node, R, x.tag, w.comm); else rmpi::send(*x.node, R, x.tag, w.comm);
                        gen::scribble(*x.node);
                    }
                    if (side && me == other) { rmpi::wait(&q, &st); expect(swant, *so, "p2p-data", "side message"); }
                }
                MPI_Barrier(w.comm);
            });
        }
    }
    run(w, [&](int me) { for (auto &s : steps) s(me); });
}
SCENARIO(C01, p2p, 3) { p2p_body(false); }
SCENARIO(C01, wildcard, 1) { p2p_body(true); }

// ------------------------------------------------------------------ C02
template <class T> static void red(const string &op, T &a, T b) { if (op == "sum") a = (T)(a + b); else if (op == "prod") a = (T)(a * b); else if (op == "max") a = a > b ? a : b; else a = a < b ? a : b; }
static string reduce_ref(const vector<Node *> &in, const string &op) {
    Node r; Node c; in[0]->compact_to(r);
    index_t n = r.dtype().number_of_elements();
    for (size_t k = 1; k < in.size(); k++) {
        Node t; in[k]->compact_to(t);
        for (index_t i = 0; i < n; i++) {
#define RD(ID, T) if (r.dtype().id() == ID) red<T>(op, ((T *)r.data_ptr())[i], ((T *)t.data_ptr())[i]);
            RD(DataType::INT8_ID, int8) RD(DataType::INT16_ID, int16) RD(DataType::INT32_ID, int32) RD(DataType::INT64_ID, int64)
            RD(DataType::UINT8_ID, uint8) RD(DataType::UINT16_ID, uint16) RD(DataType::UINT32_ID, uint32) RD(DataType::UINT64_ID, uint64)
            RD(DataType::FLOAT32_ID, float32) RD(DataType::FLOAT64_ID, float64)
        }
    }
    return gen::canon(r);
}
SCENARIO(C02, collectives, 1) {
    World w = draw_world(6);
    int k = sim::range(1, 4);
    vector<std::function<void(int)>> steps;
    for (int i = 0; i < k; i++) {
        int kind = (int)sim::choose(8), root = (int)sim::choose(w.n);
        bool dirty = sim::chance(1, 2);
        static const char *kn[] = {"gather", "all_gather", "gather_us", "all_gather_us", "bcast", "bcast_us", "reduce", "all_reduce"};
        sim::sample("[%s root %d] ", kn[kind], root);
        auto in = std::make_shared<vector<Node *>>(); auto out = std::make_shared<vector<Node *>>();
        for (int r = 0; r < w.n; r++) { in->push_back(new Node); out->push_back(new Node); }
        gen::Opt o; o.big = true;
        Node junk; gen::rand_leaf(junk, o);
        if (kind <= 1) { // same compact schema everywhere
            gen::rand_node(*(*in)[0], o);
            for (int r = 1; r < w.n; r++) gen::like(*(*in)[0], *(*in)[r], true);
        } else if (kind <= 3) {
            o.swapped = true;
            for (int r = 0; r < w.n; r++) gen::rand_node(*(*in)[r], o);
        } else if (kind == 4) {
            gen::rand_node(*(*in)[root], o);
            for (int r = 0; r < w.n; r++) if (r != root) gen::like(*(*in)[root], *(*in)[r], true);
        } else if (kind == 5) {
            gen::rand_node(*(*in)[root], o);
            for (int r = 0; r < w.n; r++) if (r != root) {
                uint32_t pre = sim::choose(4);
                if (pre == 1) gen::like(*(*in)[root], *(*in)[r], true);
                else if (pre == 2) gen::rand_node(*(*in)[r], o);
                else if (pre == 3 && (*in)[root]->dtype().is_number()) gen::typed_leaf(*(*in)[r], (*in)[root]->dtype().id(), (int)(*in)[root]->dtype().number_of_elements() + (int)sim::choose(3), true);
            }
        } else {
            index_t ty = sim::pick(gen::number_types); int els = sim::range(1, 6);
            for (int r = 0; r < w.n; r++) gen::typed_leaf(*(*in)[r], ty, els, true);
        }
        if (dirty && kind != 4 && kind != 5) for (int r = 0; r < w.n; r++) {
            if (kind >= 6 && sim::chance(1, 2)) gen::like(*(*in)[0], *(*out)[r], true);
            else gen::rand_node(*(*out)[r], o);
            // a larger leaf of the same type is used in place and keeps its length
            if (kind >= 6 && (*out)[r]->dtype().compatible((*in)[0]->dtype())) gen::like(*(*in)[0], *(*out)[r], true);
        }
        auto want = std::make_shared<vector<string>>();
        for (int r = 0; r < w.n; r++) want->push_back(gen::canon(*(*in)[r]));
        static const char *ops[] = {"sum", "prod", "max", "min"};
        string op = ops[sim::choose(4)];
        string rref; if (kind >= 6) rref = reduce_ref(*in, op);
        bool generic = sim::chance(1, 2);
        steps.push_back([=](int me) {
            Node &a = *(*in)[me], &b = *(*out)[me];
            string before = gen::canon(b), mine = gen::canon(a);
            index_t root_n = (*in)[root]->dtype().number_of_elements(), pre_n = 0;
            if (kind == 5 && me != root && a.dtype().is_number() && a.dtype().id() == (*in)[root]->dtype().id()) pre_n = a.dtype().number_of_elements();
            int e = 0;
            switch (kind) {
            case 0: e = rmpi::gather(a, b, root, w.comm); break;
            case 1: e = rmpi::all_gather(a, b, w.comm); break;
            case 2: e = rmpi::gather_using_schema(a, b, root, w.comm); break;
            case 3: e = rmpi::all_gather_using_schema(a, b, w.comm); break;
            case 4: e = rmpi::broadcast(a, root, w.comm); break;
            case 5: e = rmpi::broadcast_using_schema(a, root, w.comm); break;
            case 6: if (generic) e = rmpi::reduce(a, b, op == "sum" ? MPI_SUM : op == "prod" ? MPI_PROD : op == "max" ? MPI_MAX : MPI_MIN, root, w.comm);
                    else e = op == "sum" ? rmpi::sum_reduce(a, b, root, w.comm) : op == "prod" ? rmpi::prod_reduce(a, b, root, w.comm) : op == "max" ? rmpi::max_reduce(a, b, root, w.comm) : rmpi::min_reduce(a, b, root, w.comm);
                    break;
            default: if (generic) e = rmpi::all_reduce(a, b, op == "sum" ? MPI_SUM : op == "prod" ? MPI_PROD : op == "max" ? MPI_MAX : MPI_MIN, w.comm);
                    else e = op == "sum" ? rmpi::sum_all_reduce(a, b, w.comm) : op == "prod" ? rmpi::prod_all_reduce(a, b, w.comm) : op == "max" ? rmpi::max_all_reduce(a, b, w.comm) : rmpi::min_all_reduce(a, b, w.comm);
            }
            if (e) sim::fail("error-code", "%s returned %d", kn[kind], e);
            bool recv = kind == 1 || kind == 3 || kind == 7 || me == root;
            if (kind <= 3) {
                if (gen::canon(a) != mine) sim::fail("sender-changed", "%s changed the sent node", kn[kind]);
                if (recv) {
                    if (b.number_of_children() != w.n) sim::fail("collective-data", "%s: %d entries for %d ranks", kn[kind], (int)b.number_of_children(), w.n);
                    for (int r = 0; r < w.n; r++) expect((*want)[r], b.child(r), "collective-data", string(kn[kind]) + " entry of rank " + S(r) + " on rank " + S(me));
                } else if (gen::canon(b) != before) sim::fail("collective-data", "%s changed the receive node of a non-root rank", kn[kind]);
            } else if (kind == 5 && me != root && pre_n > root_n) {
                // a larger leaf of the same type is used in place: prefix replaced, rest kept
                string w0 = (*want)[root], g0 = gen::canon(a);
                Node px; px.set_external(DataType(a.dtype().id(), root_n, a.dtype().offset(), a.dtype().stride(), a.dtype().element_bytes(), a.dtype().endianness()), a.data_ptr());
                expect(w0, px, "collective-data", string("bcast_us into a larger leaf on rank ") + S(me));
                if (a.dtype().number_of_elements() != pre_n) sim::fail("collective-data", "bcast_us changed the length of a larger leaf");
                string tail0 = mine.substr(mine.find(')')), tail1 = g0.substr(g0.find(')'));
                size_t skip = 2 + (size_t)root_n * (a.dtype().element_bytes() * 2 + 1);
                if (tail0.substr(std::min(skip, tail0.size())) != tail1.substr(std::min(skip, tail1.size()))) sim::fail("collective-data", "bcast_us overwrote elements behind the received ones");
            } else if (kind <= 5) expect((*want)[root], a, "collective-data", string(kn[kind]) + " on rank " + S(me));
            else {
                if (gen::canon(a) != mine) sim::fail("sender-changed", "%s changed the sent node", kn[kind]);
                if (recv) expect(rref, b, "collective-data", string(kn[kind]) + " " + op + " on rank " + S(me));
                else if (gen::canon(b) != before) sim::fail("collective-data", "reduce changed the receive node of a non-root rank");
            }
            gen::scribble(a);
        });
    }
    run(w, [&](int me) { for (auto &s : steps) s(me); });
}

// ------------------------------------------------------------------ C03
static Xfer *mk(int src, int dst, int tag) {
    Xfer *x = new Xfer; x->src = src; x->dst = dst; x->tag = tag; x->node = new Node; x->out = new Node;
    gen::Opt o; o.swapped = true; o.big = true; gen::rand_node(*x->node, o); x->want = gen::canon(*x->node);
    return x;
}
SCENARIO(C03, exchange, 1) {
    World w = draw_world(5);
    int rounds = sim::range(1, 3);
    bool logging = sim::chance(1, 4), reuse = sim::chance(1, 2);
    vector<vector<Xfer *>> xs(rounds);
    vector<vector<vector<int>>> order(rounds, vector<vector<int>>(w.n));
    for (int r = 0; r < rounds; r++) {
        int k = (int)sim::choose(9);
        std::set<std::pair<int, std::pair<int, int>>> used;
        for (int i = 0; i < k; i++) {
            int s = (int)sim::choose(w.n), d = (int)sim::choose(w.n), t = (int)sim::choose(4);
            if (sim::chance(1, 6)) { static const int big[] = {32768, 40000, 65536, 1 << 20, 2147483640}; t += big[sim::choose(5)]; }
            // one message per (source, destination, tag) in a batch: tags identify messages
            if (!used.insert({s, {d, std::min(t, std::min(simmpi::TAG_UB, 1 << 20))}}).second) continue; // (tags above the bound are clamped)
            xs[r].push_back(mk(s, d, t));
            sim::sample("[r%d %d->%d tag %d] ", r, s, d, t);
        }
        for (int m = 0; m < w.n; m++) order[r][m] = sim::permutation((int)xs[r].size() * 2);
    }
    run(w, [&](int me) {
        std::unique_ptr<rmpi::communicate_using_schema> C(new rmpi::communicate_using_schema(w.comm));
        auto eh = conduit::utils::error_handler(); auto wh = conduit::utils::warning_handler();
        for (int r = 0; r < rounds; r++) {
            if (!reuse) C.reset(new rmpi::communicate_using_schema(w.comm));
            C->set_logging(logging); C->set_logging_root("log");
            for (int q : order[r][me]) {
                Xfer *x = xs[r][q / 2];
                if (q % 2 == 0 && x->src == me) C->add_isend(*x->node, x->dst, x->tag);
                if (q % 2 == 1 && x->dst == me) C->add_irecv(*x->out, x->src, x->tag);
            }
            int e = C->execute();
            if (e) sim::fail("error-code", "execute returned %d", e);
            for (auto x : xs[r]) {
                if (x->src == me) { if (gen::canon(*x->node) != x->want) sim::fail("sender-changed", "execute changed a sent node"); }
                if (x->dst == me) expect(x->want, *x->out, "exchange-data", "round " + S(r) + " message " + S(x->src) + "->" + S(x->dst) + " tag " + S(x->tag));
            }
            for (auto x : xs[r]) if (x->src == me) gen::scribble(*x->node);
        }
        if (eh != conduit::utils::error_handler() || wh != conduit::utils::warning_handler()) sim::fail("handlers", "execute left other error/warning handlers installed");
    });
}

// ------------------------------------------------------------------ C04
// One MPI call on one rank fails, before or after it took effect. The fail-stop rank stops using the
// communicator; the others may wait for it forever, but nobody may report success with wrong data.
namespace {
int g_user_errs[64];
#define g_user_err g_user_errs[sim::my_rank() + 1]
void counting_handler(const string &, const string &, int) { g_user_err++; }
struct Res { bool done = false, error = false; };
void reported(std::function<int()> f, Res &r) {
    int before = g_user_err;
    try { int e = f(); r.error = e != 0 || g_user_err != before; }
    catch (const conduit::Error &) { r.error = true; }
    r.done = true;
}
}
SCENARIO(C04, mpi_error, 4) {
    World w = draw_world(4);
    simmpi::cfg.strict_end = false;
    int k = sim::range(1, 3);
    bool quiet = sim::chance(1, 4);    // application installed an error handler that returns
    struct Step { int kind; int a, b, root; vector<Node *> in, out; vector<string> want; string op; string ref; vector<Xfer *> xs; };
    vector<Step> steps(k);
    gen::Opt o; o.big = false;
    for (auto &s : steps) {
        s.kind = (int)sim::choose(12);
        s.root = (int)sim::choose(w.n); s.a = (int)sim::choose(w.n); s.b = (s.a + 1 + (int)sim::choose(w.n - 1)) % w.n;
        for (int r = 0; r < w.n; r++) { s.in.push_back(new Node); s.out.push_back(new Node); }
        gen::rand_node(*s.in[0], o);
        for (int r = 1; r < w.n; r++) { if (s.kind == 2 || s.kind == 3) gen::rand_node(*s.in[r], o); else gen::like(*s.in[0], *s.in[r], true); }
        if (s.kind == 6 || s.kind == 7) { s.op = "sum"; index_t ty = sim::pick(gen::number_types); int n = sim::range(1, 5); for (int r = 0; r < w.n; r++) { s.in[r]->reset(); gen::typed_leaf(*s.in[r], ty, n, true); } s.ref = reduce_ref(s.in, s.op); }
        if (s.kind == 5) for (int r = 0; r < w.n; r++) if (r != s.root) s.in[r]->reset();
        if (s.kind >= 8 && s.kind <= 10) { if (s.kind == 9) s.out[s.b]->reset(); else gen::like(*s.in[s.a], *s.out[s.b], true); }
        for (int r = 0; r < w.n; r++) s.want.push_back(gen::canon(*s.in[r]));
        if (s.kind == 11) { int m = sim::range(1, 5); std::set<std::pair<int, std::pair<int, int>>> used; for (int i = 0; i < m; i++) { int x = (int)sim::choose(w.n), y = (int)sim::choose(w.n), t = (int)sim::choose(4); if (used.insert({x, {y, t}}).second) s.xs.push_back(mk(x, y, t)); } }
        static const char *kn[] = {"gather", "all_gather", "gather_us", "all_gather_us", "bcast", "bcast_us", "reduce", "all_reduce", "send/recv", "send_us/recv_us", "isend/irecv", "exchange"};
        sim::sample("[%s root %d %d->%d] ", kn[s.kind], s.root, s.a, s.b);
    }
    int fr = (int)sim::choose(w.n);
    simmpi::cfg.fault_rank = w.group[fr];
    simmpi::cfg.fault_at = (long)sim::choose(3 * k + (k ? 2 : 0));
    simmpi::cfg.fault_after_effect = sim::chance(1, 2);
    simmpi::cfg.fault_code = sim::chance(1, 2) ? MPI_ERR_OTHER : MPI_ERR_TRUNCATE;
    sim::sample("fault rank %d call %ld %s", fr, simmpi::cfg.fault_at, simmpi::cfg.fault_after_effect ? "after effect" : "before effect");
    int reported_by = -1;
    sim::on_deadlock = [&](const string &) {
        if (!simmpi::fault.fired) return false;
        if (reported_by < 0) sim::fail("fault-swallowed", "%s failed on rank %d and nothing was reported before all ranks got stuck", simmpi::fault.call.c_str(), fr);
        sim::count("probe.others_stuck");
        return true;
    };
    run(w, [&](int me) {
        auto eh = conduit::utils::error_handler(); auto wh = conduit::utils::warning_handler();
        if (quiet) { conduit::utils::set_error_handler(counting_handler); eh = counting_handler; }
        MPI_Errhandler meh = simmpi::errhandler_of(w.comm, w.group[me]);
        for (auto &s : steps) {
            bool before = simmpi::fault.fired;
            Res r;
            Node &a = *s.in[me], &b = *s.out[me];
            bool takes_part = true;
            rmpi::Request q, q2; MPI_Status st;
            // may live beyond a failed call, as an application's object would
            rmpi::communicate_using_schema *C = s.kind == 11 ? new rmpi::communicate_using_schema(w.comm) : nullptr;
            switch (s.kind) {
            case 0: reported([&] { return rmpi::gather(a, b, s.root, w.comm); }, r); break;
            case 1: reported([&] { return rmpi::all_gather(a, b, w.comm); }, r); break;
            case 2: reported([&] { return rmpi::gather_using_schema(a, b, s.root, w.comm); }, r); break;
            case 3: reported([&] { return rmpi::all_gather_using_schema(a, b, w.comm); }, r); break;
            case 4: reported([&] { return rmpi::broadcast(a, s.root, w.comm); }, r); break;
            case 5: reported([&] { return rmpi::broadcast_using_schema(a, s.root, w.comm); }, r); break;
            case 6: reported([&] { return rmpi::sum_reduce(a, b, s.root, w.comm); }, r); break;
            case 7: reported([&] { return rmpi::sum_all_reduce(a, b, w.comm); }, r); break;
            case 8: if (me == s.a) reported([&] { return rmpi::send(a, s.b, 3, w.comm); }, r); else if (me == s.b) reported([&] { return rmpi::recv(b, s.a, 3, w.comm); }, r); else takes_part = false; break;
            case 9: if (me == s.a) reported([&] { return rmpi::send_using_schema(a, s.b, 3, w.comm); }, r); else if (me == s.b) reported([&] { return rmpi::recv_using_schema(b, s.a, 3, w.comm); }, r); else takes_part = false; break;
            case 10:
                if (me == s.a) { reported([&] { return rmpi::isend(a, s.b, 3, w.comm, &q); }, r); if (!r.error) reported([&] { return rmpi::wait(&q, &st); }, r); }
                else if (me == s.b) { reported([&] { return rmpi::irecv(b, s.a, 3, w.comm, &q2); }, r); if (!r.error) reported([&] { return rmpi::wait_all(1, &q2, &st); }, r); }
                else takes_part = false;
                break;
            default:
                for (auto x : s.xs) { if (x->src == me) C->add_isend(*x->node, x->dst, x->tag); if (x->dst == me) C->add_irecv(*x->out, x->src, x->tag); }
                reported([&] { return C->execute(); }, r);
            }
            if (conduit::utils::error_handler() != eh || conduit::utils::warning_handler() != wh) sim::fail("handlers", "a failed call left other error or warning handlers installed");
            if (simmpi::errhandler_of(w.comm, w.group[me]) != meh) sim::fail("handlers", "the communicator's error handler was changed");
            bool mine = me == fr && simmpi::fault.fired && !before;
            if (mine && !r.error) sim::fail("fault-swallowed", "%s failed on this rank inside operation kind %d but the call reported success", simmpi::fault.call.c_str(), s.kind);
            if (r.error && !(simmpi::fault.fired && me == fr)) sim::fail("spurious-error", "rank %d reports an error although no MPI call failed there", me);
            if (r.error) {
                sim::count("probe.reported"); reported_by = me;
                // the rank can still communicate elsewhere
                Node x, y; gen::typed_leaf(x, DataType::INT32_ID, 4, true); y.set(DataType::int32(4));
                rmpi::Request rq[2]; MPI_Status ss[2];
                rmpi::isend(x, 0, 5, MPI_COMM_SELF, &rq[0]); rmpi::irecv(y, 0, 5, MPI_COMM_SELF, &rq[1]);
                rmpi::wait_all(2, rq, ss);
                expect(gen::canon(x), y, "after-fault", "message to self on another communicator after the failure");
                delete C;
                return;
            }
            if (!takes_part) { delete C; continue; }
            bool recv = s.kind == 1 || s.kind == 3 || s.kind == 7 || me == s.root;
            if (s.kind <= 3) { if (recv) { if (b.number_of_children() != w.n) sim::fail("wrong-data", "gather with %d entries reported success", (int)b.number_of_children()); for (int q = 0; q < w.n; q++) expect(s.want[q], b.child(q), "wrong-data", "gather reported success, entry " + S(q)); } }
            else if (s.kind <= 5) expect(s.want[s.root], a, "wrong-data", "broadcast reported success");
            else if (s.kind <= 7) { if (recv) expect(s.ref, b, "wrong-data", "reduce reported success"); }
            else if (s.kind <= 10) { if (me == s.b) expect(s.want[s.a], b, "wrong-data", "receive reported success"); }
            else for (auto x : s.xs) if (x->dst == me) expect(x->want, *x->out, "wrong-data", "exchange reported success");
            delete C;
        }
    });
}
// a message longer than what the receiver asked for makes MPI report truncation
SCENARIO(C04, truncation, 1) {
    World w = draw_world(3);
    simmpi::cfg.strict_end = false; simmpi::cfg.truncate_is_violation = false;
    index_t ty = sim::pick(gen::number_types); int n = sim::range(1, 5), extra = sim::range(1, 6), kind = (int)sim::choose(4);
    bool quiet = sim::chance(1, 4);
    Node *a = new Node, *b = new Node; gen::typed_leaf(*a, ty, n + extra, true); gen::typed_leaf(*b, ty, n, true);
    // bytes next to the receiver's memory
    size_t eb = (size_t)b->dtype().element_bytes();
    char *mem = (char *)gen::arena(16 + (size_t)n * eb + 64); memset(mem, 0x5a, 16 + (size_t)n * eb + 64);
    bool ext = sim::chance(1, 2);
    if (ext) { Node t; b->compact_to(t); memcpy(mem + 16, t.data_ptr(), (size_t)n * eb); b->reset(); b->set_external(DataType(ty, n, 16, (index_t)eb, (index_t)eb, conduit::Endianness::DEFAULT_ID), mem); }
    sim::sample("kind %d n %d extra %d", kind, n, extra);
    sim::count("fault.mpi_truncate");
    run(w, [&](int me) {
        if (quiet) conduit::utils::set_error_handler(counting_handler);
        Res r; rmpi::Request q; MPI_Status st;
        if (me == 0) { rmpi::send(*a, 1, 2, w.comm); return; }
        if (me != 1) return;
        if (kind == 0) reported([&] { return rmpi::recv(*b, 0, 2, w.comm); }, r);
        else if (kind == 1) reported([&] { return rmpi::recv(*b, w.comm); }, r);
        else { reported([&] { return rmpi::irecv(*b, 0, 2, w.comm, &q); }, r); if (!r.error) reported([&] { return kind == 2 ? rmpi::wait(&q, &st) : rmpi::wait_all(1, &q, &st); }, r); }
        if (!r.error) sim::fail("fault-swallowed", "a truncated message was received without an error");
        if (ext) for (int i = 0; i < 64; i++) if (mem[16 + (size_t)n * eb + i] != 0x5a) sim::fail("memory", "bytes behind the receive node were overwritten");
    });
}
