// Deterministic simulation core: one choice stream decides everything.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// The only source of randomness. Value 0 is always the simplest outcome
// (no fault, keep running the same task, smallest input).
uint32_t choose(uint32_t n);                 // 0..n-1
inline int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }
// true with probability num/den; 0 (=false) is the simple outcome
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
template <class C> const typename C::value_type &pick(const C &c) { return c[choose((uint32_t)c.size())]; }
std::vector<int> permutation(int n);

// ---------------------------------------------------------------- log, stats
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);      // fault kinds, probes
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // one-line description of the run
bool tracing();
void trace_only(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // never hashed

// ---------------------------------------------------------------- verdicts
// Ends the run at once as a violation of class `cls`.
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run at once as a harness error (never a violation)
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Ends the run at once, successfully
[[noreturn]] void finish_run();

// ---------------------------------------------------------------- tasks
struct TaskLocal {           // state that belongs to one simulated process
    void *err = nullptr, *warn = nullptr, *info = nullptr; // conduit handlers
    uint32_t rnd = 1;
};
int  spawn(const std::string &name, std::function<void()> fn, int rank = -1);
void run_tasks();                    // from the main thread: until all tasks end
bool in_task();
int  self();                         // task id, -1 on the main thread
int  my_rank();                      // simulated process of the current task, -1 none
extern thread_local int in_scheduler; // >0 while this thread is inside the scheduler
void yield(const char *where);       // scheduling point
// block until pred() holds; where is used in deadlock reports
void block(const char *where, std::function<bool()> pred);
// block until pred() or the simulated clock reaches `deadline`; true if pred
bool block_until(const char *where, std::function<bool()> pred, int64_t deadline);
int64_t now();                       // simulated nanoseconds
void advance(int64_t ns);            // clock jump
void sleep_ns(int64_t ns);
// what to do when nothing can run: return true to accept (run ends normally)
extern std::function<bool(const std::string &)> on_deadlock;
extern const char *deadlock_class;
extern uint64_t max_steps;
void set_process_crashed(int rank);  // tasks of that rank never run again

// events the scheduler may execute instead of running a task
struct EventSource {
    virtual ~EventSource() {}
    virtual int  pending() = 0;      // number of events that may happen now
    virtual void fire(int i) = 0;
};
void add_source(EventSource *);

struct SchedConfig {
    int mode = 0;         // 0 sticky-random, 1 priority (PCT-like), 2 uniform random, 3 run to block
    int stick = 200;      // of 256
    int event_bias = 0;   // 0 none, 1 events first, 2 events last
    int slow_task = -1;   // this task is starved while anything else can run
};
extern SchedConfig sched;
void draw_schedule_config(int ntasks);

// ---------------------------------------------------------------- registry
struct Scenario { const char *prop; const char *name; void (*fn)(); int weight; };
void register_scenario(const char *prop, const char *name, void (*fn)(), int weight = 1);
struct Reg { Reg(const char *p, const char *n, void (*f)(), int w = 1) { register_scenario(p, n, f, w); } };
#define SCENARIO(PROP, NAME, W) \
    static void scn_##PROP##_##NAME(); \
    static ::sim::Reg reg_##PROP##_##NAME(#PROP, #NAME, scn_##PROP##_##NAME, W); \
    static void scn_##PROP##_##NAME()

const char *current_prop();
const char *current_scenario();
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
} // namespace sim
#endif
