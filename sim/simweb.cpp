// Simulated civetweb transport: see simweb.hpp.
#include "simweb.hpp"
#include "sim.hpp"
#include "heap.hpp"
#include "civetweb.h"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <strings.h>
using std::string;
struct mg_connection { mg_context *ctx = nullptr; simweb::Client *cl = nullptr; bool open = false; mg_request_info ri; int owner = -2, depth = 0; size_t body_pos = 0; };
struct mg_context {
    bool dead = false; int stop = 0; int workers = 0; int owner = -2, depth = 0; void *user = nullptr; mg_callbacks cb; int id = 0;
    std::vector<int> worker_tasks;
    std::vector<std::unique_ptr<mg_connection>> conns;
    bool has_req = false, has_ws = false; string req_uri, ws_uri; mg_request_handler req = nullptr; void *req_cb = nullptr;
    mg_websocket_connect_handler wc = nullptr; mg_websocket_ready_handler wr = nullptr; mg_websocket_data_handler wd = nullptr; mg_websocket_close_handler wx = nullptr; void *ws_cb = nullptr;
};
namespace simweb {
std::vector<std::unique_ptr<Client>> clients;
bool fail_start = false; int live_contexts = 0; int64_t slow_total = 0; int alloc_every = 0;
thread_local int writes = 0, failed_writes = 0, in_api = 0;
static thread_local int in_stub = 0;
static std::vector<std::unique_ptr<mg_context>> contexts;
static long alloc_no = 0;
struct Stub { Stub() { in_stub++; } ~Stub() { in_stub--; } };
static void on_alloc() {
    if (in_api <= 0 || in_stub || sim::in_scheduler || alloc_every <= 0) return;
    if (++alloc_no % alloc_every) return;
    Stub s; sim::yield("memory");
}
void reset() { heap::hook = on_alloc; alloc_no = 0; }
static void alive(const mg_context *c, const char *what) {
    if (!c) sim::fail("null-context", "%s without a context", what);
    if (c->dead) sim::fail("freed-context", "%s after the server was stopped", what);
}
static void check(const mg_connection *c, const char *what) {
    if (!c) sim::fail("null-connection", "%s without a connection", what);
    alive(c->ctx, what);
}
static mg_context *pub(mg_context *c) { return c; }
static Client *next_client(int64_t &t) {
    Client *b = nullptr; t = -1;
    for (auto &c : clients) if (!c->served && (!b || c->arrive < b->arrive)) b = c.get();
    if (b) t = b->arrive;
    return b;
}
static void call(const char *what, const std::function<void()> &f) {
    try { Api a; int s = in_stub; in_stub = 0; try { f(); } catch (...) { in_stub = s; throw; } in_stub = s; }
    catch (const std::exception &e) { sim::fail("worker-exception", "an exception leaves a server thread in %s, which ends the process: %.200s", what, e.what()); }
    catch (...) { sim::fail("worker-exception", "an exception leaves a server thread in %s", what); }
}
static bool prefix(const string &pat, const string &uri) { size_t n = pat.size(); if (n && pat[n - 1] == '*') return uri.compare(0, n - 1, pat, 0, n - 1) == 0; return uri == pat; }
static void serve_ws(mg_context *x, mg_connection *k, Client *c) {
    if (!x->has_ws || !prefix(x->ws_uri, c->uri)) { sim::logf("client %d: 404", c->id); return; }
    int r = 0; call("the connect handler", [&] { r = x->wc(k, x->ws_cb); }); sim::yield("handshake");
    if (r) { sim::logf("client %d refused", c->id); return; }
    if (c->handshake_fails) { sim::count("fault.handshake"); return; }
    call("the ready handler", [&] { x->wr(k, x->ws_cb); });
    c->ready = true; c->t_ready = sim::now(); sim::logf("client %d ready", c->id);
    int64_t end = c->stay < 0 ? -1 : sim::now() + c->stay; bool bye = false;
    auto stopped = [x] { return x->stop != 0; };
    for (auto &f : c->frames) {
        int64_t t = sim::now() + f.delay; if (end >= 0 && t > end) break;
        if (f.delay && sim::block_until("websocket read", stopped, t)) { bye = true; break; }
        if (x->stop) { bye = true; break; }
        // the payload is handed over in a buffer of exactly its size
        std::unique_ptr<char[]> buf(new char[f.data.size() + 1]); memcpy(buf.get(), f.data.data(), f.data.size()); buf[f.data.size()] = '#';
        int r2 = 0; call("the data handler", [&] { r2 = x->wd(k, f.bits, buf.get(), f.data.size(), x->ws_cb); });
        c->handled++; sim::logf("client %d frame %x -> %d", c->id, f.bits, r2);
        if (!r2 && (f.bits & 0xf) != WEBSOCKET_OPCODE_CONNECTION_CLOSE && f.well_formed) sim::fail("frame", "a well-formed frame (%x, %zu bytes) closed the connection", f.bits, f.data.size());
        if (!r2 || (f.bits & 0xf) == WEBSOCKET_OPCODE_CONNECTION_CLOSE) { bye = true; break; }
    }
    if (!bye) { if (end < 0) sim::block("websocket read", stopped); else if (!sim::block_until("websocket read", stopped, end)) sim::count("fault.peer_closed"); }
    c->closing = true; c->t_closing = sim::now();
    call("the close handler", [&] { x->wx(k, x->ws_cb); });
    c->closed = true; sim::logf("client %d closed", c->id);
}
static void worker(mg_context *x, mg_connection *k) {
    Stub st;
    while (!x->stop) {
        int64_t t; Client *c = next_client(t);
        if (!c) { sim::block("worker idle", [x] { int64_t t2; return x->stop || next_client(t2); }); continue; }
        if (t > sim::now() && sim::block_until("worker idle", [x] { return x->stop != 0; }, t)) break;
        if (c->served || x->stop) continue;
        c->served = true; k->cl = c; k->open = true; k->body_pos = 0;
        memset(&k->ri, 0, sizeof k->ri); k->ri.request_method = c->method.c_str(); k->ri.uri = k->ri.local_uri = k->ri.request_uri = c->uri.c_str(); k->ri.http_version = "1.1"; k->ri.user_data = x->user; k->ri.content_length = (long long)c->body.size();
        sim::logf("client %d arrives: %s %s", c->id, c->method.c_str(), c->uri.c_str());
        sim::yield("accept");
        if (c->ws) serve_ws(x, k, c);
        else if (x->has_req && prefix(x->req_uri, c->uri)) { int r = -1; call("the request handler", [&] { r = x->req(k, x->req_cb); }); c->handled = r; sim::logf("client %d: %d", c->id, r); }
        else sim::logf("client %d: 404", c->id);
        sim::yield("close");
        if (x->cb.connection_close) call("the connection close handler", [&] { x->cb.connection_close(k); });
        sim::block("close", [k] { return k->owner == -2; });
        k->open = false; c->done = true;
    }
    x->workers--;
}
}
using namespace simweb;
extern "C" {
struct mg_context *mg_start(const struct mg_callbacks *cb, void *user, const char **opt) {
    Stub s; sim::yield("mg_start"); (void)opt;
    if (fail_start) { fail_start = false; sim::count("fault.bind"); return nullptr; }
    contexts.emplace_back(new mg_context); mg_context *x = contexts.back().get(); x->id = (int)contexts.size(); x->user = user; x->cb = *cb; live_contexts++;
    for (int i = 0; i < 2; i++) { x->conns.emplace_back(new mg_connection); mg_connection *k = x->conns.back().get(); k->ctx = x; x->workers++;
        x->worker_tasks.push_back(sim::spawn(string("worker") + std::to_string(x->id) + (i ? "b" : "a"), [x, k] { worker(x, k); })); }
    sim::yield("mg_start"); return pub(x);
}
void mg_stop(struct mg_context *x) {
    Stub s; if (!x) return; alive(x, "mg_stop"); sim::yield("mg_stop"); x->stop = 1; sim::logf("stop");
    sim::block("mg_stop (waits for the server threads)", [x] { return x->workers == 0; });
    x->dead = true; live_contexts--;
}
void mg_set_request_handler(struct mg_context *x, const char *uri, mg_request_handler h, void *cb) { Stub s; alive(x, "mg_set_request_handler"); sim::yield("set"); x->has_req = true; x->req_uri = uri; x->req = h; x->req_cb = cb; }
void mg_set_websocket_handler(struct mg_context *x, const char *uri, mg_websocket_connect_handler a, mg_websocket_ready_handler b, mg_websocket_data_handler c, mg_websocket_close_handler d, void *cb) {
    Stub s; alive(x, "mg_set_websocket_handler"); sim::yield("set"); x->has_ws = true; x->ws_uri = uri; x->wc = a; x->wr = b; x->wd = c; x->wx = d; x->ws_cb = cb; }
void mg_set_auth_handler(struct mg_context *, const char *, mg_authorization_handler, void *) {}
const struct mg_request_info *mg_get_request_info(const struct mg_connection *k) { Stub s; check(k, "mg_get_request_info"); return &k->ri; }
struct mg_context *mg_get_context(const struct mg_connection *k) { Stub s; sim::yield("mg_get_context"); check(k, "mg_get_context"); return k->ctx; }
void mg_lock_context(struct mg_context *x) {
    Stub s; alive(x, "mg_lock_context"); int me = sim::self();
    sim::block("mg_lock_context", [x, me] { return x->owner == -2 || x->owner == me || x->dead; });
    alive(x, "mg_lock_context"); x->owner = me; x->depth++;
}
void mg_unlock_context(struct mg_context *x) { Stub s; alive(x, "mg_unlock_context"); if (x->owner != sim::self()) return; if (--x->depth == 0) x->owner = -2; sim::yield("unlocked"); }
void mg_lock_connection(struct mg_connection *k) {
    Stub s; check(k, "mg_lock_connection"); int me = sim::self();
    sim::block("mg_lock_connection", [k, me] { return k->owner == -2 || k->owner == me; }); k->owner = me; k->depth++;
}
void mg_unlock_connection(struct mg_connection *k) { Stub s; check(k, "mg_unlock_connection"); if (k->owner != sim::self()) return; if (--k->depth == 0) k->owner = -2; }
int mg_websocket_write(struct mg_connection *k, int op, const char *d, size_t n) {
    Stub s; sim::yield("mg_websocket_write"); check(k, "mg_websocket_write");
    if (!k->open || !k->cl->ws || k->cl->closed) sim::fail("closed-connection", "a message of %zu bytes is written to a connection that has been closed", n);
    mg_lock_connection(k); Client *c = k->cl; writes++;
    string p(d, n);                                   // read before anything else can happen ...
    if (c->slow) { sim::count("fault.slow_write"); int64_t t0 = sim::now(); sim::sleep_ns(c->slow); slow_total += sim::now() - t0; } else sim::yield("mg_write");
    if (p != string(d, n)) sim::fail("torn-message", "the bytes of a message changed while it was written");   // ... and again afterwards
    bool broken = c->break_at >= 0 && sim::now() >= c->break_at;
    if (!broken) c->got.push_back({op, p}); else { failed_writes++; sim::count("fault.write_failed"); }
    mg_unlock_connection(k);
    if (k->cl != c) sim::fail("closed-connection", "the connection of a message went to another client during the write");
    return broken ? -1 : (int)n;
}
int mg_printf(struct mg_connection *k, const char *fmt, ...) {
    Stub s; sim::yield("mg_printf"); check(k, "mg_printf"); if (!k->open) sim::fail("closed-connection", "a reply is written to a closed connection");
    va_list a; va_start(a, fmt); int n = vsnprintf(nullptr, 0, fmt, a); va_end(a); string b((size_t)n + 1, 0); va_start(a, fmt); vsnprintf(&b[0], b.size(), fmt, a); va_end(a); b.resize((size_t)n);
    k->cl->resp += b; return n;
}
int mg_write(struct mg_connection *k, const void *d, size_t n) { Stub s; sim::yield("mg_write"); check(k, "mg_write"); k->cl->resp.append((const char *)d, n); return (int)n; }
int mg_read(struct mg_connection *k, void *b, size_t n) {
    Stub s; sim::yield("mg_read"); check(k, "mg_read"); Client *c = k->cl; if (c->read_fault) { sim::count("fault.read"); return c->read_fault == 1 ? -1 : 0; }
    size_t m = std::min(n, c->body.size() - k->body_pos); memcpy(b, c->body.data() + k->body_pos, m); k->body_pos += m; return (int)m;
}
int mg_strncasecmp(const char *a, const char *b, size_t n) { return strncasecmp(a, b, n); }
static int url_decode(const char *src, int n, char *dst, int dn) {
    int i = 0, j = 0; auto hex = [](int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (; i < n && j < dn - 1; i++, j++) { if (i < n - 2 && src[i] == '%' && isxdigit((unsigned char)src[i + 1]) && isxdigit((unsigned char)src[i + 2])) { dst[j] = (char)(hex(src[i + 1]) * 16 + hex(src[i + 2])); i += 2; } else if (src[i] == '+') dst[j] = ' '; else dst[j] = src[i]; }
    dst[j] = 0; return i >= n ? j : -1;
}
int mg_get_var2(const char *data, size_t len, const char *name, char *dst, size_t dn, size_t occ) {
    if (len > (1u << 30)) sim::fail("bad-length", "mg_get_var is asked to search %zu bytes", len);
    if (!dst || !dn) return -2;
    dst[0] = 0; if (!data || !name || !len) return -1;
    size_t nl = strlen(name); const char *e = data + len;
    for (const char *p = data; p + nl < e; p++) if ((p == data || p[-1] == '&') && p[nl] == '=' && !strncasecmp(name, p, nl) && 0 == occ--) {
        p += nl + 1; const char *q = (const char *)memchr(p, '&', (size_t)(e - p)); if (!q) q = e; int r = url_decode(p, (int)(q - p), dst, (int)dn); return r == -1 ? -2 : r; }
    return -1;
}
int mg_get_var(const char *data, size_t len, const char *name, char *dst, size_t dn) { return mg_get_var2(data, len, name, dst, dn, 0); }
const char *mg_get_header(const struct mg_connection *, const char *) { return nullptr; }
int mg_get_cookie(const char *, const char *, char *dst, size_t n) { if (n) dst[0] = 0; return -1; }
size_t mg_get_ports(const struct mg_context *, size_t, int *, int *) { return 0; }
}
