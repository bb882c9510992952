// Simulated civetweb: connections, worker threads and the context lock. The C++ wrapper
// (CivetServer.cpp) and conduit's web server run unchanged on top of it.
#ifndef VERIF_SIMWEB_HPP
#define VERIF_SIMWEB_HPP
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace simweb {
struct Frame { int bits; std::string data; int64_t delay; bool well_formed; };
struct Got { int opcode; std::string data; };
struct Client {                     // one scripted peer
    int id = 0; bool ws = false; int64_t arrive = 0;
    std::string method, uri, body; int read_fault = 0;       // 1: the body never arrives
    bool handshake_fails = false;
    std::vector<Frame> frames; int64_t stay = -1;             // -1: stays until the server stops
    int64_t break_at = -1;                                    // from then on nothing reaches the peer
    int64_t slow = 0;                                         // a write takes that long
    // what happened
    std::vector<Got> got; std::string resp; int handled = -1;
    bool served = false, ready = false, closing = false, closed = false, done = false;
    int64_t t_ready = -1, t_closing = -1;
};
extern std::vector<std::unique_ptr<Client>> clients;
extern bool fail_start;             // the next mg_start cannot bind
extern int live_contexts;
extern int64_t slow_total;          // time spent in slow writes so far
extern thread_local int writes, failed_writes;   // of this thread
// while a thread is inside conduit's web code every k-th allocation is a scheduling point
extern thread_local int in_api; extern int alloc_every;
struct Api { Api() { in_api++; } ~Api() { in_api--; } };
void reset();
}
#endif
