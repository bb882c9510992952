// C23: the web server and its web sockets under every schedule of application and server threads.
#include "sim.hpp"
#include "simweb.hpp"
#include "gen.hpp"
#include "conduit.hpp"
#include "conduit_relay_web.hpp"
#include "conduit_relay_web_node_viewer_server.hpp"
#include "civetweb.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace conduit;
using namespace simweb;
using std::string;
using std::vector;
namespace web = conduit::relay::web;
namespace {
const int64_t MS = 1000000, SLACK = 50 * MS;
void quiet(const string &, const string &, int) {}
template <class F> bool throws(F f, string *m = nullptr) { try { Api a; f(); } catch (const conduit::Error &e) { if (m) *m = e.message(); return true; } return false; }

struct H : public web::WebRequestHandler {
    static int alive; int calls = 0; int *kills; Node *data;
    H(int *k, Node *d) : kills(k), data(d) { alive++; } ~H() { alive--; }
    bool go(web::WebServer *s, mg_connection *c) {
        string u = mg_get_request_info(c)->uri; calls++;
        if (u == "/api/boom") CONDUIT_ERROR("this request cannot be handled");
        if (u == "/api/kill") { sim::logf("kill"); s->shutdown(); (*kills)++; }
        mg_printf(c, "OK %s", u.c_str());
        return true;
    }
    bool handle_get(web::WebServer *s, mg_connection *c) { return go(s, c); }
    bool handle_post(web::WebServer *s, mg_connection *c) { return go(s, c); }
};
int H::alive = 0;

struct Send { int ws, thread, seq; string text; };
struct World { vector<web::WebSocket *> socks; vector<Send> sends; int seq[4] = {0, 0, 0, 0}; std::map<int, int> owner; /* socket -> client */ };

void do_send(World &w, int i, int thread) {
    web::WebSocket *s = w.socks[(size_t)i]; Node n; int q = w.seq[thread]++;
    n["tok"] = (int64)(thread * 1000 + q); n["ws"] = (int64)i;
    bool small = string(sim::current_scenario()) == "churn";
    if (small) n["v"] = (int64)q; else if (sim::chance(1, 3)) { gen::Opt o; gen::rand_node(n["data"], o); }
    else if (sim::chance(1, 3)) n["text"] = string((size_t)(sim::chance(1, 4) ? 60000 + sim::choose(10000) : 1 + sim::choose(300)), 'x');
    static const vector<string> protos = {"json", "conduit_json", "conduit_base64_json"};
    string p = sim::pick(protos); std::ostringstream o; n.to_json_stream(o, p);
    bool before = s->is_connected(); int w0 = writes; size_t k = w.sends.size();
    sim::logf("send %d.%d on %d", thread, q, i);
    w.sends.push_back({i, thread, q, o.str()});
    bool t = throws([&] { s->send(n, p); });
    bool after = s->is_connected(); (void)k;
    if (writes - w0 > 1) sim::fail("repeated-message", "one send wrote %d messages", writes - w0);
    if (before && after) { sim::count("probe.sent"); if (t || writes == w0) sim::fail("lost-message", "a message sent on a connected web socket was %s", t ? "refused" : "dropped"); }
}
void settle(World &w, bool end, size_t base = 0) {
    // every message text belongs to one send; deliveries per socket and client
    std::map<string, int> by; for (size_t i = 0; i < w.sends.size(); i++) by[w.sends[i].text] = (int)i;
    std::set<int> seen; std::map<int, std::set<int>> from;
    for (auto &c : clients) {
        std::map<int, int> last;
        for (auto &g : c->got) if (g.opcode == WEBSOCKET_OPCODE_TEXT) {
            auto f = by.find(g.data); if (f == by.end()) sim::fail("damaged-message", "client %d received a message nobody sent: %.80s", c->id, g.data.c_str());
            const Send &s = w.sends[(size_t)f->second];
            if (!seen.insert(f->second).second) sim::fail("repeated-message", "a message arrived twice");
            if (last.count(s.thread) && last[s.thread] > s.seq) sim::fail("order", "client %d received message %d after message %d of the same sender", c->id, s.seq, last[s.thread]);
            last[s.thread] = s.seq; from[c->id].insert(s.ws);
            auto o = w.owner.find(s.ws); if (o == w.owner.end()) w.owner[s.ws] = c->id; else if (o->second != c->id) sim::fail("wrong-client", "one web socket sent to clients %d and %d", o->second, c->id);
        }
        // replies to control frames
        if (end && c->break_at < 0 && c->ready) {
            vector<string> want, got; size_t nf = 0;
            for (auto &f : c->frames) { if ((int)nf++ >= c->handled) break; int op = f.bits & 0x7f; if (!(f.bits & 0x80)) continue; if (op == WEBSOCKET_OPCODE_PING) want.push_back("P" + f.data); if (op == WEBSOCKET_OPCODE_CONNECTION_CLOSE) want.push_back("C" + f.data); }
            for (auto &g : c->got) if (g.opcode != WEBSOCKET_OPCODE_TEXT) got.push_back(string(g.opcode == WEBSOCKET_OPCODE_PONG ? "P" : g.opcode == WEBSOCKET_OPCODE_CONNECTION_CLOSE ? "C" : "?") + g.data);
            if (want != got) sim::fail("control-frames", "client %d: %zu replies to pings and closes instead of %zu, or other payloads", c->id, got.size(), want.size());
        }
    }
    for (auto &x : from) if (x.second.size() > 1) sim::fail("wrong-client", "client %d receives the messages of %zu web sockets", x.first, x.second.size());
    if (!end) for (auto &o : w.owner) if ((size_t)o.first >= base) {
        Client &c = *clients[(size_t)o.second]; bool is = w.socks[(size_t)o.first]->is_connected();
        if (c.closed && is) sim::fail("state", "a web socket whose client has gone claims to be connected");
        if (c.ready && !c.closing && !is) sim::fail("state", "a web socket in use claims to be disconnected");
    }
}
// most things happen on a 5 ms grid, give or take microseconds, so that they meet
int64_t ticks(int64_t horizon) { if (sim::chance(1, 4)) return 0; if (sim::chance(1, 5)) return (int64_t)sim::choose((uint32_t)(horizon / MS)) * MS; return (int64_t)sim::choose((uint32_t)(horizon / MS / 5)) * 5 * MS + (int64_t)sim::choose(64) * 1000; }
Client &add_client(int64_t horizon) {
    clients.emplace_back(new Client); Client &c = *clients.back(); c.id = (int)clients.size() - 1; c.arrive = sim::now() + ticks(horizon); return c;
}
void ws_client(Client &c) {
    c.ws = true; c.method = "GET"; c.uri = sim::chance(1, 12) ? "/nowhere" : "/websocket"; c.handled = 0;
    if (sim::chance(1, 10)) c.handshake_fails = true;
    if (sim::chance(2, 3)) c.stay = ticks(sim::chance(1, 2) ? 60 * MS : 400 * MS);
    if (sim::chance(1, 5)) c.break_at = c.arrive + (int64_t)sim::choose(300) * MS;
    if (sim::chance(1, 5)) c.slow = (int64_t)(1 + sim::choose(40)) * MS;
    int nf = (int)sim::choose(4);
    for (int i = 0; i < nf; i++) {
        Frame f; f.well_formed = true; f.delay = ticks(120 * MS);
        static const vector<int> ops = {WEBSOCKET_OPCODE_TEXT, WEBSOCKET_OPCODE_PING, WEBSOCKET_OPCODE_PONG, WEBSOCKET_OPCODE_BINARY, WEBSOCKET_OPCODE_CONTINUATION, WEBSOCKET_OPCODE_CONNECTION_CLOSE, 0xb};
        int op = sim::pick(ops); f.bits = op | (sim::chance(1, 8) ? 0 : 0x80);
        if (op == WEBSOCKET_OPCODE_TEXT) { static const vector<string> t = {"{\"a\": 1}", "{}", "[1, 2.5, \"x\"]", "{\"a\": ", "not json", "", "{\"deep\": {\"b\": [1,2,3]}}", "17"}; f.data = sim::pick(t); f.well_formed = f.data.size() && f.data != t[3] && f.data != t[4]; }
        else f.data = string(sim::choose(20), (char)('a' + i));
        c.frames.push_back(f);
    }
}
struct WaitCheck { int64_t t0, slow0; int closed0; };
int nclosed() { int k = 0; for (auto &c : clients) if (c->closing) k++; return k; }
}

SCENARIO(C23, sockets, 4) {
    utils::set_info_handler(quiet); utils::set_warning_handler(quiet);
    simweb::reset(); static const vector<int> every = {0, 1, 2, 7, 31}; alloc_every = sim::pick(every);
    sim::draw_schedule_config(5); sim::max_steps = 400000;
    World w; int kills = 0; Node data; bool kill_client = false;
    int nc = (int)sim::choose(6);
    for (int i = 0; i < nc; i++) {
        Client &c = add_client(300 * MS);
        if (!sim::chance(1, 4)) ws_client(c);
        else { static const vector<string> u = {"/api/x", "/api/boom", "/api/", "/other", "/api/kill"}; c.method = sim::chance(1, 2) ? "GET" : "POST"; c.uri = sim::pick(u); if (c.uri == "/api/kill") kill_client = true; }
    }
    sim::spawn("app", [&] {
        auto S = std::unique_ptr<web::WebServer>(new web::WebServer);
        if (sim::chance(1, 8)) { int64_t t0 = sim::now(); web::WebSocket *s = nullptr; throws([&] { s = S->websocket(5, 20); }); if (s) sim::fail("state", "a server that never ran returns a web socket"); if (sim::now() - t0 > 20 * MS + SLACK) sim::fail("late", "waiting on a server that never ran does not end"); }
        int rounds = 1 + (int)sim::choose(3) / 2;
        for (int r = 0; r < rounds; r++) {
            int alive0 = H::alive; bool own = sim::chance(2, 3); if (own) S->set_request_handler(new H(&kills, &data));
            if (sim::chance(1, 10)) { S->set_document_root("no_such_directory"); if (!throws([&] { S->serve(false); })) sim::fail("state", "a missing document root was accepted"); if (S->is_running()) sim::fail("state", "running after a failed start"); sim::count("fault.root"); }
            S->set_document_root("."); S->set_port(9000 + r);
            bool blocking = sim::chance(1, 3); bool served_done = false, served_threw = false; int64_t t_served = -1;
            if (sim::chance(1, 5)) {
                fail_start = true; bool t = throws([&] { S->serve(blocking); }); fail_start = false;
                if (!t) sim::fail("silent-start", "serve reports success although the port could not be bound");
                if (S->is_running()) sim::fail("state", "running after a failed start");
                if (sim::chance(1, 2)) { web::WebSocket *s = nullptr; int64_t t0 = sim::now(); throws([&] { s = S->websocket(5, 20); }); if (s || sim::now() - t0 > 20 * MS + SLACK) sim::fail("state", "a wait on a server that did not start"); }
                if (sim::chance(1, 3)) { throws([&] { S->shutdown(); }); }
                if (live_contexts) sim::fail("leak", "a server thread pool stays after a failed start");
                own = H::alive > alive0;
            }
            if (blocking) {
                sim::spawn("serve", [&] { served_threw = throws([&] { S->serve(true); }); t_served = sim::now(); served_done = true; });
                bool ok = false; bool spin = sim::chance(1, 2); int64_t tb = sim::now(); while (!ok && sim::now() - tb < 300 * MS) { if (spin && sim::now() - tb < MS) sim::yield("poll"); else sim::sleep_ns(2 * MS); ok = S->is_running() || served_done; }
                if (!ok) sim::fail("late", "the server does not start");
                if (served_threw) sim::fail("state", "serve failed although nothing was wrong");
            } else {
                string m; if (throws([&] { S->serve(false); }, &m)) sim::fail("state", "serve failed although nothing was wrong: %s", m.c_str());
                if (!S->is_running() && !kill_client) sim::fail("state", "not running after serve");
            }
            if (sim::chance(1, 6) && !kill_client) { if (throws([&] { S->serve(false); })) sim::fail("state", "serve on a running server failed"); }
            size_t base = w.socks.size(); bool sender_done = true; std::map<web::WebSocket *, int> idx;
            auto usable = [&] { return !(kill_client && blocking); };
            int nops = (int)sim::choose(9);
            for (int o = 0; o < nops && usable(); o++) switch (sim::choose(6)) {
                case 0: case 1: {
                    static const vector<int> ps = {5, 0, 1, 20, 100}, ts = {50, 0, 5, 300}; int p = sim::pick(ps), t = sim::pick(ts); int64_t pp = std::max(p, 1) * MS, tt = t * MS;
                    int64_t t0 = sim::now(), s0 = slow_total; int c0 = nclosed(); bool cl0 = false; for (auto &c : clients) if (c->closing && !c->closed) cl0 = true;
                    web::WebSocket *s = nullptr; sim::logf("wait %d %d", p, t); if (throws([&] { s = S->websocket(p, t); })) sim::fail("state", "waiting for a connection failed");
                    bool con = s && s->is_connected(); int64_t t1 = sim::now(), slack = SLACK + (slow_total - s0); for (auto &c : clients) slack += c->slow;
                    sim::logf("wait -> %s", s ? "socket" : "none");
                    if (t1 - t0 > tt + 2 * pp + slack) sim::fail("late", "waiting %d ms (polling every %d ms) for a connection took %lld ms", t, p, (long long)((t1 - t0) / MS));
                    for (auto &c : clients) if (c->ready) {
                        int64_t a = std::max(c->t_ready, t0), b = c->t_closing < 0 ? t1 : std::min(t1, c->t_closing);
                        if (b - a > pp + slack) sim::fail("late", "a connection was there for %lld ms while a wait polling every %d ms went on", (long long)((b - a) / MS), p);
                        if (!s && !c->closing && c->t_ready <= std::max(t0, t1 - pp - slack)) sim::fail("missed-connection", "a wait of %d ms found no connection although client %d was connected", t, c->id);
                    }
                    if (!s && S->is_running() && t1 - t0 < tt) sim::fail("early", "a wait of %d ms gave up after %lld us", t, (long long)((t1 - t0) / 1000));
                    if (s && !con && nclosed() == c0 && !cl0) sim::fail("state", "a wait returned a web socket that is not connected");
                    if (s) { sim::count("probe.accepted"); if (!idx.count(s)) { idx[s] = (int)w.socks.size(); w.socks.push_back(s); } }
                    break; }
                case 2: case 3: if (w.socks.size() > base) { int k = 1 + (int)sim::choose(5); for (int i = 0; i < k; i++) { do_send(w, (int)(base + sim::choose((uint32_t)(w.socks.size() - base))), 0); if (sim::chance(1, 3)) sim::sleep_ns(5 * MS); } } break;
                case 4: sim::sleep_ns(ticks(80 * MS)); break;
                default: if (sender_done && w.socks.size() > base) { sender_done = false; int i = (int)(base + sim::choose((uint32_t)(w.socks.size() - base))), k = 1 + (int)sim::choose(4);
                    sim::spawn("sender", [&, i, k] { for (int j = 0; j < k; j++) { do_send(w, i, 1); if (sim::chance(1, 3)) sim::sleep_ns(ticks(30 * MS)); } sender_done = true; }); sim::count("probe.two_senders"); }
            }
            sim::block("join", [&] { return sender_done; });
            if (usable()) settle(w, false, base);
            if (kills && S->is_running() && r == 0) sim::fail("state", "a request to stop the server was ignored");
            bool last = r + 1 == rounds; int how = (int)sim::choose(3);
            if (kill_client && sim::chance(1, 2)) { int64_t t0 = sim::now(); while (S->is_running() && sim::now() - t0 < 900 * MS) sim::sleep_ns(10 * MS); }
            int64_t t0 = sim::now(), s0 = slow_total;
            if (last && how == 0 && !blocking) S.reset(); else { throws([&] { S->shutdown(); }); if (S->is_running()) sim::fail("state", "running after shutdown"); }
            if (blocking) { sim::block_until("serve returns", [&] { return served_done; }, sim::now() + 2000 * MS); if (!served_done) sim::fail("late", "a blocked serve does not return after the server was stopped"); if (t_served - t0 > 300 * MS + SLACK + slow_total - s0) sim::fail("late", "a blocked serve returned %lld ms after the server was stopped", (long long)((t_served - t0) / MS)); }
            if (S && sim::chance(1, 4)) throws([&] { S->shutdown(); });
            if (S && sim::chance(1, 4)) { int64_t ta = sim::now(); web::WebSocket *s = nullptr; throws([&] { s = S->websocket(5, 20); }); if (s || sim::now() - ta > 20 * MS + SLACK) sim::fail("state", "a wait on a stopped server"); }
            if (live_contexts) sim::fail("leak", "server threads are still there after shutdown");
            if (own && H::alive != alive0) sim::fail("leak", "the request handler was %s", H::alive > alive0 ? "not released" : "released twice");
            sim::count("probe.rounds");
        }
        { Api a; S.reset(); }
        if (live_contexts) sim::fail("leak", "server threads are still there after the server is gone");
    });
    sim::run_tasks();
    settle(w, true);
    for (auto &c : clients) {
        if (c->served && !c->done) sim::fail("leak", "client %d was never closed", c->id);
        if (!c->ws && c->served && c->handled == 1 && c->resp.size() && c->resp != "OK " + c->uri) sim::fail("reply", "client %d received %s", c->id, c->resp.c_str());
    }
    sim::sample("%d clients, %zu sockets, %zu sends ", nc, w.socks.size(), w.sends.size());
}

// the node viewer: requests read the node while the server runs
SCENARIO(C23, viewer, 2) {
    utils::set_info_handler(quiet); if (sim::chance(1, 2)) utils::set_warning_handler(quiet);
    simweb::reset(); static const vector<int> every = {0, 1, 5, 31}; alloc_every = sim::pick(every);
    sim::draw_schedule_config(4); sim::max_steps = 400000;
    Node n; gen::Opt o; gen::rand_node(n["tree"], o); n["a/b"] = (int64)42; n["a/c"].set(vector<float64>{1, 2.5, -3}); n["s"] = "text % %s with signs"; n["100%d and %5s"] = 1.5;
    Node copy(n); string want = gen::canon(copy), schema = n.schema().to_json(true); bool with_node = !sim::chance(1, 8); bool kill = false;
    int nc = 1 + (int)sim::choose(6);
    for (int i = 0; i < nc; i++) {
        Client &c = add_client(200 * MS); c.method = sim::chance(1, 2) ? "GET" : "POST";
        static const vector<string> u = {"/api/get-value", "/api/get-value", "/api/get-schema", "/api/get-base64-json", "/api/unknown", "/api/kill-server", "/elsewhere"};
        static const vector<string> b = {"cpath=a%2Fb", "cpath=a/c", "cpath=s", "x=1&cpath=a%2Fb", "cpath=no%2Fsuch%2Fpath", "cpath=a%2Fb%2Fbelow", "cpath=", "cpath=..", "cpath=a%2F..%2F..%2F..", "", "x=1", "cpath=%2Fa%2Fb", "cpath=a%2F%2Fb"};
        c.uri = sim::pick(u); c.body = sim::pick(b); if (c.uri == "/api/kill-server") kill = true;
        if (sim::chance(1, 8)) c.read_fault = 1 + (int)sim::choose(2);
        if (sim::chance(1, 12)) c.body = "cpath=" + string(2040 + sim::choose(20), 'p');
    }
    sim::spawn("app", [&] {
        std::unique_ptr<web::NodeViewerServer> S(new web::NodeViewerServer); if (with_node) S->set_node(&n);
        bool blocking = sim::chance(1, 3), done = false; int64_t t_done = -1;
        if (blocking) { sim::spawn("serve", [&] { throws([&] { S->serve(true); }); t_done = sim::now(); done = true; }); for (int i = 0; i < 50 && !S->is_running() && !done; i++) sim::sleep_ns(MS); }
        else throws([&] { S->serve(false); });
        int64_t t0 = sim::now(); if (kill && sim::chance(1, 2)) while (S->is_running() && sim::now() - t0 < 300 * MS) sim::sleep_ns(5 * MS); else sim::sleep_ns((int64_t)sim::choose(250) * MS);
        t0 = sim::now(); if (blocking || sim::chance(1, 2)) throws([&] { S->shutdown(); });
        if (blocking) { sim::block_until("serve returns", [&] { return done; }, sim::now() + 2000 * MS); if (!done || t_done - t0 > 300 * MS + SLACK) sim::fail("late", "a blocked serve does not return after the server was stopped"); }
        { Api a; S.reset(); }
        if (live_contexts) sim::fail("leak", "server threads are still there after the server is gone");
    });
    sim::run_tasks();
    if (gen::canon(n) != want) sim::fail("changed-node", "viewing a node changed it: %s", gen::diff(want, gen::canon(n)).c_str());
    const string head = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n";
    for (auto &c : clients) if (c->served && c->handled == 1 && with_node) {
        if (c->uri == "/api/get-schema" && c->resp != head + schema) sim::fail("reply", "the schema sent differs from the node's: %.200s", c->resp.c_str());
        if (c->uri == "/api/get-base64-json") { std::ostringstream e; copy.to_json_stream(e, "conduit_base64_json"); if (c->resp != head + e.str()) sim::fail("reply", "the node sent differs from the node viewed"); }
        if (c->uri == "/api/get-value" && !c->read_fault) {
            string p; size_t k = c->body.find("cpath="); if (k != string::npos) for (size_t i = k + 6; i < c->body.size(); i++) { if (c->body.compare(i, 3, "%2F") == 0) { p += '/'; i += 2; } else p += c->body[i]; }
            if (p == "a/b" || p == "a/c" || p == "s") { if (c->resp != head + "{ \"datavalue\": " + copy[p].to_json() + " }") sim::fail("reply", "value of %s: %.200s", p.c_str(), c->resp.c_str()); sim::count("probe.value"); }
        }
    }
    sim::sample("viewer, %d requests ", nc);
}

// many short connections, microseconds apart, while two threads send and wait without pause
SCENARIO(C23, churn, 3) {
    utils::set_info_handler(quiet); utils::set_warning_handler(quiet);
    simweb::reset(); static const vector<int> every = {1, 1, 2, 3}; alloc_every = sim::pick(every);
    sim::draw_schedule_config(5); sim::max_steps = 400000; World w;
    int nc = 2 + (int)sim::choose(5);
    for (int i = 0; i < nc; i++) { clients.emplace_back(new Client); Client &c = *clients.back(); c.id = i; c.ws = true; c.handled = 0; c.method = "GET"; c.uri = "/websocket"; c.arrive = sim::now() + (int64_t)sim::choose(300) * 1000; c.stay = sim::chance(1, 5) ? 6 * MS : (int64_t)sim::choose(250) * 1000; }
    sim::spawn("app", [&] {
        std::unique_ptr<web::WebServer> S(new web::WebServer); S->set_document_root("."); throws([&] { S->serve(false); });
        std::map<web::WebSocket *, int> idx; bool go = true; int users = 1;
        auto user = [&](int t) {
            int n = 2 + (int)sim::choose(6);
            for (int i = 0; i < n; i++) {
                web::WebSocket *s = nullptr; { Api a; s = S->websocket(1, 1); }
                if (!s) continue;
                sim::count("probe.churn"); if (!idx.count(s)) { idx[s] = (int)w.socks.size(); w.socks.push_back(s); }
                int k = idx[s], m = 1 + (int)sim::choose(4); for (int j = 0; j < m; j++) do_send(w, k, t);
            }
        };
        bool two = sim::chance(1, 2); if (two) { users = 2; sim::spawn("user", [&] { user(1); users--; }); }
        user(0); users--; sim::block("join", [&] { return users == 0; }); (void)go;
        settle(w, false);
        if (sim::chance(1, 2)) throws([&] { S->shutdown(); });
        { Api a; S.reset(); }
        if (live_contexts) sim::fail("leak", "server threads are still there after the server is gone");
    });
    sim::run_tasks(); settle(w, true);
    sim::sample("%d short connections, %zu sends ", nc, w.sends.size());
}
