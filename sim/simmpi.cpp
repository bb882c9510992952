// A simulated MPI with Open MPI's ABI. Every rank is a task of the simulator.
#include "simmpi.hpp"
#include "simfs.hpp"
#include <cstring>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>

using std::vector; using std::string;

namespace simmpi {
Config cfg;
FaultInfo fault;
int TAG_UB = 1 << 20;

// ------------------------------------------------------------- objects
struct Comm { int id; vector<int> group; string kind; std::map<int, MPI_Errhandler> eh; vector<int> collseq; void *handle; };
static std::map<void *, std::unique_ptr<Comm>> comms;
static std::vector<void *> comm_by_int;
static int world_size = 0;

struct ErrH { MPI_Comm_errhandler_function *fn; };
static std::set<ErrH *> errhs;
struct TypeS { size_t size, extent; bool committed; string name; };
static std::map<void *, std::unique_ptr<TypeS>> types;

struct Msg {
    int cid, src, dst, tag; size_t bytes; const void *buf; vector<char> data; bool copied; int mode; // 0 eager 1 deferred 2 rendezvous
    bool matched = false, delivered = false; bool sender_done = false; uint64_t seq; string sig;
};
typedef std::shared_ptr<Msg> MsgP;
struct Req {
    bool send; MsgP msg; // send: its message; recv: matched message
    void *buf = nullptr; size_t cap = 0; int cid = 0, src = 0, tag = 0, owner = 0; bool copied = false; bool late = false; int err = MPI_SUCCESS; uint64_t seq = 0; bool null_proc = false;
};
static std::set<Req *> reqs;
static std::map<std::pair<int, std::pair<int, int>>, std::deque<MsgP>> channels; // (cid,(src,dst)) world ranks
static std::map<int, std::list<MsgP>> unexpected;   // per dst world rank
static std::map<int, std::list<Req *>> posted;      // per dst world rank
static uint64_t nmsg = 0;
static std::map<int, long> ncalls;

struct Coll {
    string kind; int root; int n = 0; vector<bool> in; vector<vector<char>> data; vector<size_t> count; vector<size_t> tsize; vector<MPI_Op> op; vector<MPI_Datatype> dt;
    vector<vector<int>> sizes; int arrived = 0, left = 0; bool split_done = false; std::map<int, MPI_Comm> newcomms; vector<int> color, key;
};
static std::map<std::pair<int, int>, std::shared_ptr<Coll>> colls; // (cid, seq)

uint64_t messages() { return nmsg; }
long calls_of_rank(int r) { return ncalls[r]; }

static MPI_Comm add_comm(void *h, const vector<int> &g, const string &kind);
static std::map<int, MPI_Comm> selfs;
static Comm *C(MPI_Comm c) {
    if (c == MPI_COMM_SELF) {
        int w = sim::my_rank();
        if (!selfs.count(w)) selfs[w] = add_comm(malloc(64), vector<int>{w}, "self");
        c = selfs[w];
    }
    auto it = comms.find((void *)c);
    if (it == comms.end()) sim::fail("mpi-usage", "MPI call with an invalid communicator");
    return it->second.get();
}
static int crank(Comm *c, int w) {
    for (size_t i = 0; i < c->group.size(); i++) if (c->group[i] == w) return (int)i;
    sim::fail("mpi-usage", "rank %d uses a communicator it does not belong to", w);
}
static MPI_Comm add_comm(void *h, const vector<int> &g, const string &kind) {
    std::unique_ptr<Comm> c(new Comm);
    c->id = (int)comm_by_int.size(); c->group = g; c->kind = kind; c->collseq.assign(g.size(), 0); c->handle = h;
    comm_by_int.push_back(h);
    comms[h] = std::move(c);
    return (MPI_Comm)h;
}
MPI_Comm make_comm(const vector<int> &g) { return add_comm(malloc(64), g, "user"); }
MPI_Errhandler errhandler_of(MPI_Comm c, int w) { Comm *k = C(c); auto it = k->eh.find(w); return it == k->eh.end() ? MPI_ERRORS_RETURN : it->second; }
int live_errhandlers() { return (int)errhs.size(); }
int live_types() { return (int)types.size(); }

#define BT(n, t) {(void *)n, {sizeof(t), #n}}
struct BI { size_t size; const char *name; };
static const std::map<void *, BI> &basic() {
    static std::map<void *, BI> m = {
        BT(MPI_BYTE, char), BT(MPI_PACKED, char), BT(MPI_CHAR, char), BT(MPI_SIGNED_CHAR, char), BT(MPI_UNSIGNED_CHAR, char), BT(MPI_SHORT, short), BT(MPI_UNSIGNED_SHORT, short),
        BT(MPI_INT, int), BT(MPI_UNSIGNED, int), BT(MPI_LONG, long), BT(MPI_UNSIGNED_LONG, long), BT(MPI_LONG_LONG, long long), BT(MPI_UNSIGNED_LONG_LONG, long long),
        BT(MPI_FLOAT, float), BT(MPI_DOUBLE, double), BT(MPI_INT8_T, int8_t), BT(MPI_UINT8_T, int8_t), BT(MPI_INT16_T, int16_t), BT(MPI_UINT16_T, int16_t),
        BT(MPI_INT32_T, int32_t), BT(MPI_UINT32_T, int32_t), BT(MPI_INT64_T, int64_t), BT(MPI_UINT64_T, int64_t), BT(MPI_C_BOOL, bool)};
    return m;
}
struct FI { float v; int i; }; struct DI { double v; int i; }; struct LI { long v; int i; }; struct II { int v; int i; }; struct SI { short v; int i; };
static size_t tsize(MPI_Datatype t) {
    auto it = basic().find((void *)t);
    if (it != basic().end()) return it->second.size;
    if (t == MPI_FLOAT_INT) return sizeof(FI);
    if (t == MPI_DOUBLE_INT) return sizeof(DI);
    if (t == MPI_LONG_INT) return sizeof(LI);
    if (t == MPI_2INT) return sizeof(II);
    if (t == MPI_SHORT_INT) return sizeof(SI);
    auto u = types.find((void *)t);
    if (u != types.end()) {
        if (!u->second->committed) sim::fail("mpi-usage", "datatype used before commit");
        return u->second->extent;
    }
    sim::fail("mpi-usage", "invalid MPI datatype");
}

// ------------------------------------------------------------- network
static void do_match(Req *r, const MsgP &m) {
    m->matched = true; r->msg = m;
    if (!m->copied) { m->data.assign((const char *)m->buf, (const char *)m->buf + m->bytes); m->copied = true; }
    if (m->mode == 2) m->sender_done = true;
    if (!r->late) {
        size_t n = std::min(r->cap, m->bytes);
        if (n) memcpy(r->buf, m->data.data(), n);
        r->copied = true;
    }
    if (m->bytes > r->cap) {
        sim::logf("truncate src=%d dst=%d tag=%d %zu>%zu", m->src, m->dst, m->tag, m->bytes, r->cap);
        if (cfg.truncate_is_violation)
            sim::fail("mpi-truncate", "message of %zu bytes from rank %d to %d (tag %d) does not fit the posted receive of %zu bytes", m->bytes, m->src, m->dst, m->tag, r->cap);
        r->err = MPI_ERR_TRUNCATE;
    }
}
static bool matches(const MsgP &m, int cid, int wsrc, int tag) {
    return m->cid == cid && (wsrc == MPI_ANY_SOURCE || m->src == wsrc) && (tag == MPI_ANY_TAG || m->tag == tag);
}
struct Net : sim::EventSource {
    vector<std::deque<MsgP> *> ready;
    int pending() override {
        ready.clear();
        for (auto &c : channels) if (!c.second.empty()) ready.push_back(&c.second);
        return (int)ready.size();
    }
    void fire(int i) override {
        pending();
        std::deque<MsgP> &q = *ready[i];
        MsgP m = q.front(); q.pop_front();
        m->delivered = true;
        sim::logf("deliver c%d %d->%d tag=%d bytes=%zu", m->cid, m->src, m->dst, m->tag, m->bytes);
        if (m->mode == 1) { if (!m->copied) { m->data.assign((const char *)m->buf, (const char *)m->buf + m->bytes); m->copied = true; } m->sender_done = true; }
        auto &pl = posted[m->dst];
        for (auto it = pl.begin(); it != pl.end(); ++it)
            if (matches(m, (*it)->cid, (*it)->src, (*it)->tag)) { Req *r = *it; pl.erase(it); do_match(r, m); return; }
        unexpected[m->dst].push_back(m);
    }
};
static Net net;

void reset() {
    comms.clear(); comm_by_int.clear(); channels.clear(); unexpected.clear(); posted.clear(); colls.clear(); reqs.clear(); nmsg = 0; ncalls.clear();
    fault = FaultInfo(); errhs.clear(); types.clear(); selfs.clear(); world_size = 0;
}
void draw_transport() {
    cfg.transport = (int)sim::choose(4);
    cfg.recv_copy = (int)sim::choose(3);
    cfg.coll_leave = (int)sim::choose(3);
    static const int ubs[] = {1 << 20, 32767, 2147483647};
    TAG_UB = ubs[sim::choose(3)];
}
size_t live_requests() { return reqs.size(); }
size_t undelivered() {
    size_t k = 0;
    for (auto &c : channels) k += c.second.size();
    for (auto &u : unexpected) k += u.second.size();
    return k;
}
string dump() {
    string s; char b[160];
    for (auto &c : channels) for (auto &m : c.second) { snprintf(b, sizeof b, "in flight %d->%d tag %d (%zu bytes); ", m->src, m->dst, m->tag, m->bytes); s += b; }
    for (auto &u : unexpected) for (auto &m : u.second) { snprintf(b, sizeof b, "unreceived %d->%d tag %d (%zu bytes); ", m->src, m->dst, m->tag, m->bytes); s += b; }
    for (auto &p : posted) for (auto &r : p.second) { snprintf(b, sizeof b, "pending receive on %d from %d tag %d; ", p.first, r->src, r->tag); s += b; }
    return s;
}
static int next_world = 0;
void run_ranks(int n, const std::function<void(int)> &fn) {
    world_size = n;
    vector<int> g(n); for (int i = 0; i < n; i++) g[i] = i;
    if (!comms.count((void *)MPI_COMM_WORLD)) add_comm((void *)MPI_COMM_WORLD, g, "world");
    sim::add_source(&net);
    for (int i = 0; i < n; i++) sim::spawn("rank" + std::to_string(i), [i, fn] { fn(i); }, i);
    sim::draw_schedule_config(n);
    sim::run_tasks();
    if (cfg.strict_end) {
        if (undelivered()) sim::fail("unreceived-message", "ranks finished with unreceived messages: %s", dump().c_str());
        if (live_requests()) sim::fail("leaked-request", "%zu MPI requests were never completed: %s", live_requests(), dump().c_str());
    }
    sim::count("mpi.messages", nmsg);
    long k = 0; for (auto &x : ncalls) k += x.second;
    sim::count("mpi.calls", (uint64_t)k);
    channels.clear(); unexpected.clear(); posted.clear(); colls.clear();
    (void)next_world;
}

// ------------------------------------------------------------- call entry
static int W() {
    int w = sim::my_rank();
    if (w < 0) sim::fail("mpi-usage", "MPI call outside of a rank");
    return w;
}
// returns true if this call must fail now
static bool enter(const char *name, MPI_Comm c) {
    int w = W();
    if (cfg.yield_every_call) sim::yield(name);
    // calls on a rank's private communicator (tag limit probing) are never the faulty one
    if (c == MPI_COMM_SELF) return false;
    if (c != MPI_COMM_NULL && comms.count((void *)c) && comms[(void *)c]->group.size() < 2) return false;
    long k = ncalls[w]++;
    if (w == cfg.fault_rank && k == cfg.fault_at && !fault.fired) {
        fault.fired = true; fault.rank = w; fault.call = name;
        sim::count((string("fault.mpi_error.") + name).c_str());
        sim::logf("FAULT %s on rank %d fails", name, w);
        (void)c;
        return true;
    }
    return false;
}
// After an error the state of a rank's pending operations is undefined: take them out of the
// simulation so that their buffers are not used any more.
static void quiesce(int w) {
    for (auto &c : channels) for (auto &m : c.second) if (m->src == w && !m->copied) { m->data.assign((const char *)m->buf, (const char *)m->buf + m->bytes); m->copied = true; }
    for (auto &u : unexpected) for (auto &m : u.second) if (m->src == w && !m->copied) { m->data.assign((const char *)m->buf, (const char *)m->buf + m->bytes); m->copied = true; }
    posted[w].clear();
}
static int mpi_raise(MPI_Comm c, int code) {
    if (fault.fired && fault.rank == W()) quiesce(W());
    if (c == MPI_COMM_NULL || !comms.count((void *)c)) return code;
    MPI_Errhandler h = errhandler_of(c, W());
    if (h == MPI_ERRORS_ARE_FATAL) sim::fail("mpi-abort", "MPI error %d under MPI_ERRORS_ARE_FATAL", code);
    if (h != MPI_ERRORS_RETURN) {
        ErrH *e = (ErrH *)h;
        if (!errhs.count(e)) sim::fail("mpi-usage", "communicator's error handler was freed but is still installed");
        e->fn(&c, &code);
    }
    return code;
}
#define ENTER(name, comm) bool flt_ = enter(name, comm); if (flt_ && !cfg.fault_after_effect) return mpi_raise(comm, cfg.fault_code)
#define LEAVE(comm, rc) return (flt_ ? mpi_raise(comm, cfg.fault_code) : (rc))

static int mode_now() {
    switch (cfg.transport) { case 0: return 0; case 1: return 1; case 2: return 2; default: return (int)sim::choose(3); }
}
static int w2c(int cid, int w) { Comm *c = C((MPI_Comm)comm_by_int[cid]); return crank(c, w); }

static MsgP post_send(const void *buf, size_t bytes, int dest, int tag, Comm *c, int mode) {
    int me = W();
    MsgP m(new Msg);
    m->cid = c->id; m->src = me; m->dst = c->group[dest]; m->tag = tag; m->bytes = bytes; m->buf = buf; m->mode = mode; m->copied = false; m->seq = nmsg++;
    if (mode == 0) { m->data.assign((const char *)buf, (const char *)buf + bytes); m->copied = true; m->sender_done = true; }
    sim::logf("send c%d %d->%d tag=%d bytes=%zu mode=%d h=%llx", c->id, m->src, m->dst, tag, bytes, mode, (unsigned long long)sim::fnv(buf, bytes));
    channels[{c->id, {m->src, m->dst}}].push_back(m);
    return m;
}
static bool bad_peer(Comm *c, int p, bool any) { return !(p >= 0 && p < (int)c->group.size()) && !(any && p == MPI_ANY_SOURCE) && p != MPI_PROC_NULL; }
static bool bad_tag(int t, bool any) { return !((t >= 0 && t <= TAG_UB) || (any && t == MPI_ANY_TAG)); }
static void usage_peer(const char *call, Comm *c, int p, int tag, int count, bool any) {
    if (bad_peer(c, p, any)) sim::fail("mpi-usage", "%s with invalid peer rank %d (communicator of %zu)", call, p, c->group.size());
    if (count < 0) sim::fail("mpi-usage", "%s with negative count %d", call, count);
}
// MPI orders the messages of one sender only: of several senders' messages a wildcard may take any
static MsgP choose_unexpected(int me, int cid, int wsrc, int tag) {
    vector<MsgP> e; std::set<int> seen;
    for (auto &m : unexpected[me]) if (matches(m, cid, wsrc, tag) && seen.insert(m->src).second) e.push_back(m);
    if (e.empty()) return MsgP();
    return e.size() == 1 ? e[0] : e[sim::choose((uint32_t)e.size())];
}
static Req *post_recv(void *buf, size_t cap, int src, int tag, Comm *c) {
    Req *r = new Req; r->send = false; r->buf = buf; r->cap = cap; r->cid = c->id; r->tag = tag; r->owner = W();
    r->src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : c->group[src];
    r->late = cfg.recv_copy == 1 || (cfg.recv_copy == 2 && sim::choose(2));
    MsgP m = choose_unexpected(r->owner, r->cid, r->src, r->tag);
    if (m) { unexpected[r->owner].remove(m); do_match(r, m); return r; }
    posted[r->owner].push_back(r);
    return r;
}
static bool req_done(Req *r) { return r->null_proc || (r->send ? r->msg->sender_done : r->msg && r->msg->matched); }
static int complete(Req *r, MPI_Status *st) {
    int err = r->err;
    if (!r->null_proc && !r->send && !r->copied) {
        size_t n = std::min(r->cap, r->msg->bytes);
        if (n) memcpy(r->buf, r->msg->data.data(), n);
        r->copied = true;
    }
    if (st != MPI_STATUS_IGNORE) {
        st->MPI_ERROR = err; st->_cancelled = 0;
        if (r->null_proc) { st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->_ucount = 0; }
        else if (r->send) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->_ucount = 0; }
        else { st->MPI_SOURCE = w2c(r->cid, r->msg->src); st->MPI_TAG = r->msg->tag; st->_ucount = std::min(r->cap, r->msg->bytes); }
    }
    if (!r->send && !r->null_proc)
        sim::logf("recv c%d %d<-%d tag=%d bytes=%zu", r->cid, r->owner, r->msg->src, r->msg->tag, r->msg->bytes);
    reqs.erase(r);
    delete r;
    return err;
}
static Req *check_req(MPI_Request q, const char *call) {
    Req *r = (Req *)q;
    if (!reqs.count(r)) sim::fail("mpi-usage", "%s on an invalid or already completed request", call);
    if (r->owner != W()) sim::fail("mpi-usage", "%s on a request of another rank", call);
    return r;
}

static MPI_Comm req_comm(int n, MPI_Request *q) {
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && reqs.count((Req *)q[i]) && !((Req *)q[i])->null_proc) return (MPI_Comm)comm_by_int[((Req *)q[i])->cid];
    return MPI_COMM_WORLD;
}

// ------------------------------------------------------------- collectives
static std::shared_ptr<Coll> coll_arrive(const char *kind, Comm *c, int me, int root) {
    int seq = c->collseq[me]++;
    auto &p = colls[{c->id, seq}];
    if (!p) { p.reset(new Coll); p->kind = kind; p->root = root; p->n = (int)c->group.size(); int n = p->n; p->in.assign(n, false); p->data.resize(n); p->count.assign(n, 0); p->tsize.assign(n, 0); p->op.assign(n, MPI_OP_NULL); p->dt.assign(n, MPI_DATATYPE_NULL); p->sizes.resize(n); p->color.assign(n, 0); p->key.assign(n, 0); }
    if (p->kind != kind || p->root != root)
        sim::fail("collective-mismatch", "ranks of one communicator disagree on collective #%d: %s(root %d) vs rank %d calling %s(root %d)", seq, p->kind.c_str(), p->root, me, kind, root);
    if (root >= 0 && root >= p->n) sim::fail("mpi-usage", "%s with invalid root %d", kind, root);
    p->in[me] = true; p->arrived++;
    sim::logf("coll c%d #%d %s root=%d rank=%d", c->id, seq, kind, root, me);
    return p;
}
static bool early() { return cfg.coll_leave == 1 || (cfg.coll_leave == 2 && sim::choose(2)); }
static void wait_all_in(std::shared_ptr<Coll> p, const char *w) { sim::block(w, [p] { return p->arrived == p->n; }); }
static void wait_in(std::shared_ptr<Coll> p, int r, const char *w) { sim::block(w, [p, r] { return (bool)p->in[r]; }); }

template <class T> static bool op_int(MPI_Op op, T &a, T b) {
    if (op == MPI_SUM) a = (T)(a + b); else if (op == MPI_PROD) a = (T)(a * b); else if (op == MPI_MAX) a = std::max(a, b); else if (op == MPI_MIN) a = std::min(a, b);
    else if (op == MPI_BAND) a = (T)(a & b); else if (op == MPI_BOR) a = (T)(a | b); else if (op == MPI_BXOR) a = (T)(a ^ b);
    else if (op == MPI_LAND) a = (T)(a && b); else if (op == MPI_LOR) a = (T)(a || b); else if (op == MPI_LXOR) a = (T)(!a != !b); else return false;
    return true;
}
template <class T> static bool op_fp(MPI_Op op, T &a, T b) {
    if (op == MPI_SUM) a = a + b; else if (op == MPI_PROD) a = a * b; else if (op == MPI_MAX) a = std::max(a, b); else if (op == MPI_MIN) a = std::min(a, b); else return false;
    return true;
}
template <class T> static bool op_loc(MPI_Op op, T &a, const T &b) {
    if (op == MPI_MAXLOC) { if (b.v > a.v || (b.v == a.v && b.i < a.i)) a = b; }
    else if (op == MPI_MINLOC) { if (b.v < a.v || (b.v == a.v && b.i < a.i)) a = b; }
    else return false;
    return true;
}
static void apply(MPI_Op op, MPI_Datatype t, char *a, const char *b, size_t n) {
    bool ok = true;
#define CASE(T, ty, f) else if (t == T) { for (size_t i = 0; i < n && ok; i++) { ty x, y; memcpy(&x, a + i * sizeof(ty), sizeof(ty)); memcpy(&y, b + i * sizeof(ty), sizeof(ty)); ok = f(op, x, y); memcpy(a + i * sizeof(ty), &x, sizeof(ty)); } }
    if (0) {}
    CASE(MPI_INT, int, op_int) CASE(MPI_UNSIGNED, unsigned, op_int) CASE(MPI_LONG, long, op_int) CASE(MPI_UNSIGNED_LONG, unsigned long, op_int)
    CASE(MPI_LONG_LONG, long long, op_int) CASE(MPI_UNSIGNED_LONG_LONG, unsigned long long, op_int)
    CASE(MPI_SHORT, short, op_int) CASE(MPI_UNSIGNED_SHORT, unsigned short, op_int) CASE(MPI_SIGNED_CHAR, signed char, op_int) CASE(MPI_UNSIGNED_CHAR, unsigned char, op_int)
    CASE(MPI_INT8_T, int8_t, op_int) CASE(MPI_UINT8_T, uint8_t, op_int) CASE(MPI_INT16_T, int16_t, op_int) CASE(MPI_UINT16_T, uint16_t, op_int)
    CASE(MPI_INT32_T, int32_t, op_int) CASE(MPI_UINT32_T, uint32_t, op_int) CASE(MPI_INT64_T, int64_t, op_int) CASE(MPI_UINT64_T, uint64_t, op_int)
    CASE(MPI_BYTE, uint8_t, op_int) CASE(MPI_CHAR, char, op_int) CASE(MPI_C_BOOL, unsigned char, op_int)
    CASE(MPI_FLOAT, float, op_fp) CASE(MPI_DOUBLE, double, op_fp)
    CASE(MPI_FLOAT_INT, FI, op_loc) CASE(MPI_DOUBLE_INT, DI, op_loc) CASE(MPI_LONG_INT, LI, op_loc) CASE(MPI_2INT, II, op_loc) CASE(MPI_SHORT_INT, SI, op_loc)
    else ok = false;
    if (!ok) sim::fail("mpi-usage", "operation not valid for this datatype");
}
static void check_same(std::shared_ptr<Coll> p, const char *what) {
    for (int i = 1; i < p->n; i++)
        if (p->in[0] && p->in[i] && (p->count[i] * p->tsize[i] != p->count[0] * p->tsize[0]) && cfg.mismatch_is_violation)
            sim::fail("collective-mismatch", "%s: rank %d passes %zu bytes, rank 0 passes %zu", what, i, p->count[i] * p->tsize[i], p->count[0] * p->tsize[0]);
}
static void same_op(std::shared_ptr<Coll> p, const char *what) {
    for (int i = 0; i < p->n; i++) for (int j = 0; j < i; j++)
        if (p->in[i] && p->in[j] && (p->op[i] != p->op[j])) sim::fail("collective-mismatch", "%s: ranks %d and %d pass different operations", what, j, i);
}
static vector<char> reduce_all(std::shared_ptr<Coll> p, int upto) {
    vector<char> acc = p->data[0];
    for (int i = 1; i < upto; i++) apply(p->op[0], p->dt[0], acc.data(), p->data[i].data(), p->count[0]);
    return acc;
}
} // namespace simmpi

using namespace simmpi;
extern "C" {
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int r, int *p) { *p = r; return MPI_SUCCESS; }
// libhdf5_openmpi (below Silo) is only used serially: to it MPI is not running
int MPI_Initialized(int *f) { *f = simfs::in_foreign(__builtin_return_address(0)) ? 0 : 1; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { sim::fail("mpi-abort", "MPI_Abort(%d)", code); }
double MPI_Wtime(void) { return (double)sim::now() * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = crank(C(c), W()); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = (int)C(c)->group.size(); return MPI_SUCCESS; }
MPI_Comm MPI_Comm_f2c(MPI_Fint i) { if (i < 0 || i >= (int)comm_by_int.size()) return MPI_COMM_NULL; return (MPI_Comm)comm_by_int[i]; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return C(c)->id; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? MPI_IDENT : C(a)->group == C(b)->group ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm, int k, void *v, int *flag) { static int ub; ub = TAG_UB; if (k == MPI_TAG_UB) { *(void **)v = &ub; *flag = 1; } else *flag = 0; return MPI_SUCCESS; }
int MPI_Attr_get(MPI_Comm c, int k, void *v, int *flag) { return MPI_Comm_get_attr(c, k, v, flag); }
int MPI_Error_string(int code, char *s, int *len) { *len = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", code); return MPI_SUCCESS; }
int MPI_Error_class(int code, int *cl) { *cl = code; return MPI_SUCCESS; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *fn, MPI_Errhandler *h) { ErrH *e = new ErrH{fn}; errhs.insert(e); *h = (MPI_Errhandler)e; return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *h) { *h = errhandler_of(c, W()); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h) {
    if (h != MPI_ERRORS_RETURN && h != MPI_ERRORS_ARE_FATAL && !errhs.count((ErrH *)h)) sim::fail("mpi-usage", "setting an invalid error handler");
    C(c)->eh[W()] = h; return MPI_SUCCESS;
}
int MPI_Errhandler_free(MPI_Errhandler *h) {
    if (*h == MPI_ERRORS_RETURN || *h == MPI_ERRORS_ARE_FATAL) { *h = MPI_ERRHANDLER_NULL; return MPI_SUCCESS; }
    ErrH *e = (ErrH *)*h; if (!errhs.count(e)) sim::fail("mpi-usage", "freeing an invalid error handler");
    errhs.erase(e); delete e; *h = MPI_ERRHANDLER_NULL; return MPI_SUCCESS;
}
// ---- types
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return MPI_SUCCESS; }
int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *off, const MPI_Datatype *ts, MPI_Datatype *out) {
    size_t ext = 0, al = 1, sz = 0;
    for (int i = 0; i < n; i++) { size_t s = tsize(ts[i]); sz += s * len[i]; ext = std::max(ext, (size_t)off[i] + s * len[i]); al = std::max(al, std::min<size_t>(s, 8)); }
    ext = (ext + al - 1) / al * al;
    void *h = malloc(16); types[h].reset(new TypeS{sz, ext, false, "struct"}); *out = (MPI_Datatype)h; return MPI_SUCCESS;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) { size_t s = tsize(t) * n; void *h = malloc(16); types[h].reset(new TypeS{s, s, false, "contig"}); *out = (MPI_Datatype)h; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *t) { auto it = types.find((void *)*t); if (it == types.end()) sim::fail("mpi-usage", "commit of an invalid type"); it->second->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { auto it = types.find((void *)*t); if (it == types.end()) sim::fail("mpi-usage", "free of an invalid type"); types.erase(it); *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t s = tsize(t); *n = st->_ucount % s ? MPI_UNDEFINED : (int)(st->_ucount / s); return MPI_SUCCESS; }
// ---- point to point
static int send_impl(const char *name, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, int forced) {
    ENTER(name, c);
    Comm *k = C(c); usage_peer(name, k, d, tag, n, false); if (bad_tag(tag, false)) return mpi_raise(c, MPI_ERR_TAG);
    if (d == MPI_PROC_NULL) return MPI_SUCCESS;
    MsgP m = post_send(b, tsize(t) * n, d, tag, k, forced >= 0 ? forced : mode_now());
    if (!m->sender_done) sim::block(name, [m] { return m->sender_done; });
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl("MPI_Send", b, n, t, d, tag, c, -1); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl("MPI_Ssend", b, n, t, d, tag, c, 2); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl("MPI_Bsend", b, n, t, d, tag, c, 0); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_impl("MPI_Rsend", b, n, t, d, tag, c, -1); }
static int isend_impl(const char *name, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q, int forced) {
    ENTER(name, c);
    Comm *k = C(c); usage_peer(name, k, d, tag, n, false); if (bad_tag(tag, false)) return mpi_raise(c, MPI_ERR_TAG);
    Req *r = new Req; r->send = true; r->owner = W(); r->cid = k->id;
    if (d == MPI_PROC_NULL) r->null_proc = true;
    else r->msg = post_send(b, tsize(t) * n, d, tag, k, forced >= 0 ? forced : mode_now());
    reqs.insert(r); *q = (MPI_Request)r;
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_impl("MPI_Isend", b, n, t, d, tag, c, q, -1); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { return isend_impl("MPI_Issend", b, n, t, d, tag, c, q, 2); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
    ENTER("MPI_Irecv", c);
    Comm *k = C(c); usage_peer("MPI_Irecv", k, s, tag, n, true); if (bad_tag(tag, true)) return mpi_raise(c, MPI_ERR_TAG);
    Req *r;
    if (s == MPI_PROC_NULL) { r = new Req; r->send = false; r->owner = W(); r->null_proc = true; }
    else r = post_recv(b, tsize(t) * n, s, tag, k);
    reqs.insert(r); *q = (MPI_Request)r;
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
    ENTER("MPI_Recv", c);
    Comm *k = C(c); usage_peer("MPI_Recv", k, s, tag, n, true); if (bad_tag(tag, true)) return mpi_raise(c, MPI_ERR_TAG);
    if (s == MPI_PROC_NULL) { if (st) { st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->_ucount = 0; } return MPI_SUCCESS; }
    Req *r = post_recv(b, tsize(t) * n, s, tag, k);
    reqs.insert(r);
    sim::block("MPI_Recv", [r] { return req_done(r); });
    int e = complete(r, st);
    if (e != MPI_SUCCESS) return mpi_raise(c, e);
    LEAVE(c, e);
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sty, int d, int stag, void *rb, int rn, MPI_Datatype rty, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request q[2]; MPI_Status ss[2];
    int e = MPI_Irecv(rb, rn, rty, s, rtag, c, &q[0]); if (e) return e;
    e = MPI_Isend(sb, sn, sty, d, stag, c, &q[1]); if (e) return e;
    e = MPI_Waitall(2, q, ss); if (st) *st = ss[0]; return e;
}
static MsgP find_unexpected(int me, Comm *k, int s, int tag) {
    int ws = s == MPI_ANY_SOURCE ? s : k->group[s];
    for (auto &m : unexpected[me]) if (matches(m, k->id, ws, tag)) return m;
    return MsgP();
}
static void probe_status(MsgP m, MPI_Status *st) { if (st) { st->MPI_SOURCE = w2c(m->cid, m->src); st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_cancelled = 0; st->_ucount = m->bytes; } }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) {
    ENTER("MPI_Probe", c); int me = W();
    Comm *k = C(c); usage_peer("MPI_Probe", k, s, tag, 0, true); if (bad_tag(tag, true)) return mpi_raise(c, MPI_ERR_TAG);
    sim::block("MPI_Probe", [=] { return (bool)find_unexpected(me, k, s, tag); });
    probe_status(choose_unexpected(me, k->id, s == MPI_ANY_SOURCE ? s : k->group[s], tag), st);
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    ENTER("MPI_Iprobe", c); int me = W();
    Comm *k = C(c); usage_peer("MPI_Iprobe", k, s, tag, 0, true);
    MsgP m = choose_unexpected(me, k->id, s == MPI_ANY_SOURCE ? s : k->group[s], tag);
    *flag = m ? 1 : 0;
    if (m) probe_status(m, st); else { int64_t until = sim::now() + 10000; sim::block_until("MPI_Iprobe", [=] { return (bool)find_unexpected(me, k, s, tag); }, until); }
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
    ENTER("MPI_Wait", req_comm(1, q));
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *r = check_req(*q, "MPI_Wait");
    int cid = r->cid;
    sim::block("MPI_Wait", [r] { return req_done(r); });
    int e = complete(r, st); *q = MPI_REQUEST_NULL;
    if (e != MPI_SUCCESS) return mpi_raise((MPI_Comm)comm_by_int[cid], e);
    LEAVE(MPI_COMM_WORLD, e);
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
    ENTER("MPI_Waitall", req_comm(n, q));
    if (n < 0) sim::fail("mpi-usage", "MPI_Waitall with count %d", n);
    vector<Req *> rs;
    for (int i = 0; i < n; i++) rs.push_back(q[i] == MPI_REQUEST_NULL ? nullptr : check_req(q[i], "MPI_Waitall"));
    sim::block("MPI_Waitall", [rs] { for (auto r : rs) if (r && !req_done(r)) return false; return true; });
    int res = MPI_SUCCESS;
    for (int i = 0; i < n; i++) {
        if (!rs[i]) continue;
        int e = complete(rs[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); q[i] = MPI_REQUEST_NULL;
        if (e) res = MPI_ERR_IN_STATUS;
    }
    LEAVE(MPI_COMM_WORLD, res);
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
    ENTER("MPI_Waitany", MPI_COMM_WORLD);
    vector<Req *> rs; bool any = false;
    for (int i = 0; i < n; i++) { rs.push_back(q[i] == MPI_REQUEST_NULL ? nullptr : check_req(q[i], "MPI_Waitany")); if (rs.back()) any = true; }
    if (!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
    sim::block("MPI_Waitany", [rs] { for (auto r : rs) if (r && req_done(r)) return true; return false; });
    vector<int> ok; for (int i = 0; i < n; i++) if (rs[i] && req_done(rs[i])) ok.push_back(i);
    int i = ok[sim::choose((uint32_t)ok.size())]; *idx = i;
    int e = complete(rs[i], st); q[i] = MPI_REQUEST_NULL;
    LEAVE(MPI_COMM_WORLD, e);
}
int MPI_Waitsome(int n, MPI_Request *q, int *outc, int *idx, MPI_Status *st) {
    int i; int e = MPI_Waitany(n, q, &i, st); if (i == MPI_UNDEFINED) { *outc = MPI_UNDEFINED; return e; } *outc = 1; idx[0] = i; return e;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
    ENTER("MPI_Test", MPI_COMM_WORLD);
    if (*q == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
    Req *r = check_req(*q, "MPI_Test");
    if (!req_done(r)) { *flag = 0; sim::block_until("MPI_Test", [r] { return req_done(r); }, sim::now() + 10000); return MPI_SUCCESS; }
    *flag = 1; int e = complete(r, st); *q = MPI_REQUEST_NULL;
    LEAVE(MPI_COMM_WORLD, e);
}
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *st) {
    vector<Req *> rs;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) rs.push_back(check_req(q[i], "MPI_Testall"));
    bool all = true; for (auto r : rs) if (!req_done(r)) all = false;
    if (!all) { *flag = 0; sim::block_until("MPI_Testall", [rs] { for (auto r : rs) if (!req_done(r)) return false; return true; }, sim::now() + 10000); return MPI_SUCCESS; }
    *flag = 1; return MPI_Waitall(n, q, st);
}
int MPI_Request_free(MPI_Request *q) { Req *r = check_req(*q, "MPI_Request_free"); reqs.erase(r); *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
// ---- collectives
int MPI_Barrier(MPI_Comm c) {
    ENTER("MPI_Barrier", c);
    Comm *k = C(c); int me = crank(k, W()); auto p = coll_arrive("Barrier", k, me, -1);
    wait_all_in(p, "MPI_Barrier");
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    ENTER("MPI_Bcast", c);
    Comm *k = C(c); int me = crank(k, W()); auto p = coll_arrive("Bcast", k, me, root);
    if (n < 0) sim::fail("mpi-usage", "MPI_Bcast with negative count");
    size_t by = tsize(t) * n; p->count[me] = n; p->tsize[me] = tsize(t);
    if (me == root) p->data[me].assign((char *)b, (char *)b + by);
    if (p->in[root] && cfg.mismatch_is_violation && p->count[me] * p->tsize[me] != p->count[root] * p->tsize[root])
        sim::fail("collective-mismatch", "MPI_Bcast: rank %d passes %zu bytes, root passes %zu", me, by, p->count[root] * p->tsize[root]);
    if (!early()) wait_all_in(p, "MPI_Bcast");
    else if (me != root) wait_in(p, root, "MPI_Bcast");
    if (p->in[root] && cfg.mismatch_is_violation && p->count[me] * p->tsize[me] != p->count[root] * p->tsize[root])
        sim::fail("collective-mismatch", "MPI_Bcast: rank %d passes %zu bytes, root passes %zu", me, by, p->count[root] * p->tsize[root]);
    if (me != root) { size_t m = std::min(by, p->data[root].size()); if (m) memcpy(b, p->data[root].data(), m); }
    LEAVE(c, MPI_SUCCESS);
}
static int reduce_impl(const char *name, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    ENTER(name, c);
    Comm *k = C(c); int me = crank(k, W());
    if (n < 0) sim::fail("mpi-usage", "%s with negative count", name);
    auto p = coll_arrive(name + 4, k, me, root);
    size_t by = tsize(t) * n; p->count[me] = n; p->tsize[me] = tsize(t); p->op[me] = op; p->dt[me] = t;
    const void *src = sb == MPI_IN_PLACE ? rb : sb;
    if (sb != MPI_IN_PLACE && sb == rb && by && (root < 0 || me == root)) sim::fail("mpi-usage", "%s with aliased send and receive buffers", name);
    p->data[me].assign((const char *)src, (const char *)src + by);
    check_same(p, name); same_op(p, name);
    if (root < 0) { wait_all_in(p, name); auto r = reduce_all(p, p->n); if (by) memcpy(rb, r.data(), by); }
    else if (me == root) { wait_all_in(p, name); check_same(p, name); auto r = reduce_all(p, p->n); if (by) memcpy(rb, r.data(), by); }
    else if (!early()) wait_all_in(p, name);
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_impl("MPI_Reduce", sb, rb, n, t, op, root, c); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_impl("MPI_Allreduce", sb, rb, n, t, op, -1, c); }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    ENTER("MPI_Scan", c);
    Comm *k = C(c); int me = crank(k, W()); auto p = coll_arrive("Scan", k, me, -1);
    size_t by = tsize(t) * n; p->count[me] = n; p->tsize[me] = tsize(t); p->op[me] = op; p->dt[me] = t;
    const void *src = sb == MPI_IN_PLACE ? rb : sb; p->data[me].assign((const char *)src, (const char *)src + by);
    check_same(p, "MPI_Scan"); same_op(p, "MPI_Scan");
    wait_all_in(p, "MPI_Scan");
    auto r = reduce_all(p, me + 1); if (by) memcpy(rb, r.data(), by);
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    ENTER("MPI_Exscan", c);
    Comm *k = C(c); int me = crank(k, W()); auto p = coll_arrive("Exscan", k, me, -1);
    size_t by = tsize(t) * n; p->count[me] = n; p->tsize[me] = tsize(t); p->op[me] = op; p->dt[me] = t;
    const void *src = sb == MPI_IN_PLACE ? rb : sb; p->data[me].assign((const char *)src, (const char *)src + by);
    wait_all_in(p, "MPI_Exscan");
    if (me > 0) { auto r = reduce_all(p, me); if (by) memcpy(rb, r.data(), by); }
    LEAVE(c, MPI_SUCCESS);
}
// generic gather: recv sizes/displacements known at receivers
static int gather_impl(const char *name, const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *displs, MPI_Datatype rt, int root, MPI_Comm c, bool uniform, int un) {
    ENTER(name, c);
    Comm *k = C(c); int me = crank(k, W()), n = (int)k->group.size();
    bool recv = root < 0 || me == root;
    auto p = coll_arrive(name + 4, k, me, root);
    size_t rs = recv ? tsize(rt) : 0;
    if (sb == MPI_IN_PLACE) {
        size_t off = uniform ? (size_t)me * un * rs : displs[me] * rs, by = uniform ? un * rs : rc[me] * rs;
        p->data[me].assign((char *)rb + off, (char *)rb + off + by); p->count[me] = by; p->tsize[me] = 1;
    } else {
        if (sn < 0) sim::fail("mpi-usage", "%s with negative count", name);
        size_t by = tsize(st) * sn; p->data[me].assign((const char *)sb, (const char *)sb + by); p->count[me] = by; p->tsize[me] = 1;
    }
    if (recv) {
        wait_all_in(p, name);
        for (int i = 0; i < n; i++) {
            size_t want = uniform ? un * rs : rc[i] * rs, off = uniform ? (size_t)i * un * rs : displs[i] * rs;
            if (p->data[i].size() != want && cfg.mismatch_is_violation)
                sim::fail("collective-mismatch", "%s: rank %d sends %zu bytes but receiver %d expects %zu", name, i, p->data[i].size(), me, want);
            size_t m = std::min(want, p->data[i].size());
            if (m && !(i == me && sb == MPI_IN_PLACE)) memcpy((char *)rb + off, p->data[i].data(), m);
        }
    } else if (!early()) wait_all_in(p, name);
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_impl("MPI_Gather", sb, sn, st, rb, nullptr, nullptr, rt, root, c, true, rn); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *d, MPI_Datatype rt, int root, MPI_Comm c) { return gather_impl("MPI_Gatherv", sb, sn, st, rb, rc, d, rt, root, c, false, 0); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_impl("MPI_Allgather", sb, sn, st, rb, nullptr, nullptr, rt, -1, c, true, rn); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c) { return gather_impl("MPI_Allgatherv", sb, sn, st, rb, rc, d, rt, -1, c, false, 0); }
static int scatter_impl(const char *name, const void *sb, const int *sc, const int *d, int un, bool uniform, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    ENTER(name, c);
    Comm *k = C(c); int me = crank(k, W()), n = (int)k->group.size();
    auto p = coll_arrive(name + 4, k, me, root);
    if (me == root) {
        size_t s = tsize(st); p->sizes[me].clear();
        for (int i = 0; i < n; i++) { size_t by = (uniform ? un : sc[i]) * s, off = uniform ? (size_t)i * un * s : d[i] * s; p->sizes[me].push_back((int)by); p->data[me].insert(p->data[me].end(), (const char *)sb + off, (const char *)sb + off + by); }
    }
    if (!early()) wait_all_in(p, name); else if (me != root) wait_in(p, root, name);
    if (rb != MPI_IN_PLACE) {
        size_t off = 0; for (int i = 0; i < me; i++) off += p->sizes[root][i];
        size_t by = p->sizes[root][me];
        if (by != tsize(rt) * rn && cfg.mismatch_is_violation) sim::fail("collective-mismatch", "%s: root sends %zu bytes to rank %d, which expects %zu", name, by, me, tsize(rt) * rn);
        if (by) memcpy(rb, p->data[root].data() + off, by);
    }
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_impl("MPI_Scatter", sb, nullptr, nullptr, sn, true, st, rb, rn, rt, root, c); }
int MPI_Scatterv(const void *sb, const int *sc, const int *d, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_impl("MPI_Scatterv", sb, sc, d, 0, false, st, rb, rn, rt, root, c); }
static int alltoall_impl(const char *name, const void *sb, const int *sc, const int *sd, int sun, MPI_Datatype st, void *rb, const int *rc, const int *rd, int run, MPI_Datatype rt, MPI_Comm c) {
    ENTER(name, c);
    Comm *k = C(c); int me = crank(k, W()), n = (int)k->group.size();
    auto p = coll_arrive(name + 4, k, me, -1);
    size_t s = tsize(st), r = tsize(rt);
    for (int i = 0; i < n; i++) { size_t by = (sc ? sc[i] : sun) * s, off = (sc ? (size_t)sd[i] : (size_t)i * sun) * s; p->sizes[me].push_back((int)by); p->data[me].insert(p->data[me].end(), (const char *)sb + off, (const char *)sb + off + by); }
    wait_all_in(p, name);
    for (int i = 0; i < n; i++) {
        size_t off = 0; for (int j = 0; j < me; j++) off += p->sizes[i][j];
        size_t by = p->sizes[i][me], want = (rc ? rc[i] : run) * r, ro = (rc ? (size_t)rd[i] : (size_t)i * run) * r;
        if (by != want && cfg.mismatch_is_violation) sim::fail("collective-mismatch", "%s: rank %d sends %zu bytes to %d which expects %zu", name, i, by, me, want);
        if (by) memcpy((char *)rb + ro, p->data[i].data() + off, std::min(by, want));
    }
    LEAVE(c, MPI_SUCCESS);
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoall_impl("MPI_Alltoall", sb, nullptr, nullptr, sn, st, rb, nullptr, nullptr, rn, rt, c); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return alltoall_impl("MPI_Alltoallv", sb, sc, sd, 0, st, rb, rc, rd, 0, rt, c); }
// ---- communicators
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    ENTER("MPI_Comm_split", c);
    Comm *k = C(c); int me = crank(k, W()), n = (int)k->group.size(); auto p = coll_arrive("Comm_split", k, me, -1);
    p->color[me] = color; p->key[me] = key;
    wait_all_in(p, "MPI_Comm_split");
    if (!p->split_done) {
        p->split_done = true;
        std::set<int> cols(p->color.begin(), p->color.end());
        for (int cc : cols) {
            if (cc == MPI_UNDEFINED) continue;
            vector<std::pair<int, int>> m; for (int i = 0; i < n; i++) if (p->color[i] == cc) m.push_back({p->key[i], i});
            std::stable_sort(m.begin(), m.end());
            vector<int> g; for (auto &x : m) g.push_back(k->group[x.second]);
            p->newcomms[cc] = make_comm(g);
        }
    }
    *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : p->newcomms[color];
    if (*out != MPI_COMM_NULL) C(*out)->eh[W()] = errhandler_of(c, W());
    return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { int r; MPI_Comm_rank(c, &r); return MPI_Comm_split(c, 0, r, out); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
}
