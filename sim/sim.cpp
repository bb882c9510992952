#include "sim.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <algorithm>
#include <set>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <execinfo.h>
#include <malloc.h>
#include "conduit_utils.hpp"

namespace simfs { void enable(bool); void reset_run(); }

namespace sim {

// ------------------------------------------------------------------ shared
static const uint32_t MAXC = 1u << 20;
struct Shared {
    uint32_t nchoices;
    int status;             // 0 running, 1 ok, 2 violation, 3 harness error
    char vclass[160];
    char vmsg[6000];
    char sample[3000];
    uint64_t loghash, schedhash, steps, events;
    int64_t simtime;
    uint32_t nstats;
    struct { char name[56]; uint64_t v; } stats[384];
    uint32_t v[MAXC];
    uint32_t n[MAXC];
    // the next run, as asked for by the controlling process
    sem_t req, done;
    int scenario; uint64_t seed; int replay; uint32_t nreplay; int wstatus;
    char rundir[400], tracefile[400];
    uint32_t rv[MAXC];
};
static Shared *S = nullptr;
static int trace_fd = -1;

// ------------------------------------------------------------------ choices
static uint64_t prng_state;
static uint64_t next64() {
    uint64_t z = (prng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static bool replaying = false;
uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t i = S->nchoices, v;
    if (i >= MAXC) harness_error("choice stream too long");
    if (replaying) v = i < S->nreplay ? S->rv[i] % n : 0;
    else v = (uint32_t)(((next64() >> 32) * (uint64_t)n) >> 32);
    S->v[i] = v; S->n[i] = n; S->nchoices = i + 1;
    return v;
}
std::vector<int> permutation(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) { int j = i + (int)choose(n - i); std::swap(p[i], p[j]); }
    return p;
}

// ------------------------------------------------------------------ log
uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static void raw_write(int fd, const char *b, size_t n) {
    while (n) { long k = syscall(SYS_write, fd, b, n); if (k <= 0) return; b += k; n -= k; }
}
bool tracing() { return trace_fd >= 0; }
void logf(const char *fmt, ...) {
    char b[2048];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if (k < 0) return;
    if (k > (int)sizeof b - 2) k = sizeof b - 2;
    char pre[64];
    int pk = snprintf(pre, sizeof pre, "%llu t=%lld [%d] ", (unsigned long long)S->events, (long long)now(), self());
    S->events++;
    S->loghash = fnv(pre, pk, S->loghash);
    S->loghash = fnv(b, k, S->loghash);
    if (trace_fd >= 0) { b[k++] = '\n'; raw_write(trace_fd, pre, pk); raw_write(trace_fd, b, k); }
}
void trace_only(const char *fmt, ...) {
    if (trace_fd < 0) return;
    char b[4096];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if (k > (int)sizeof b - 2) k = sizeof b - 2;
    b[k++] = '\n'; raw_write(trace_fd, b, k);
}
void count(const char *name, uint64_t n) {
    for (uint32_t i = 0; i < S->nstats; i++)
        if (!strncmp(S->stats[i].name, name, sizeof S->stats[i].name - 1)) { S->stats[i].v += n; return; }
    if (S->nstats >= sizeof S->stats / sizeof S->stats[0]) return;
    auto &e = S->stats[S->nstats];
    strncpy(e.name, name, sizeof e.name - 1); e.v = n;
    S->nstats++;
}
void sample(const char *fmt, ...) {
    size_t l = strlen(S->sample);
    if (l + 4 >= sizeof S->sample) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->sample + l, sizeof S->sample - l, fmt, ap);
    va_end(ap);
}

// ------------------------------------------------------------------ verdicts
static void end_child(int status) {
    S->status = status;
    S->simtime = now();
    _exit(0);
}
void fail(const char *cls, const char *fmt, ...) {
    if (S->status == 0) {
        strncpy(S->vclass, cls, sizeof S->vclass - 1);
        va_list ap; va_start(ap, fmt);
        vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap);
        va_end(ap);
        logf("VIOLATION %s: %.900s", cls, S->vmsg);
        end_child(2);
    }
    _exit(0);
}
void harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap);
    va_end(ap);
    strncpy(S->vclass, "harness-error", sizeof S->vclass - 1);
    end_child(3);
    _exit(0);
}
void finish_run() { logf("finish"); end_child(1); _exit(0); }

// ------------------------------------------------------------------ tasks
struct Task {
    int id; int rank; std::string name; std::function<void()> fn;
    pthread_t th; sem_t sem;
    bool done = false, started = false, crashed = false;
    std::function<bool()> pred; const char *where = "start";
    int64_t deadline = -1;   // -1 none
    bool timed_out = false;
    int prio = 0;
    TaskLocal tl;
};
static std::vector<std::unique_ptr<Task>> tasks;
static thread_local Task *cur = nullptr;
static sem_t main_sem;
static int64_t clock_ns = 0;
static std::vector<EventSource *> sources;
SchedConfig sched;
std::function<bool(const std::string &)> on_deadlock;
const char *deadlock_class = "deadlock";
uint64_t max_steps = 400000;
static bool tasks_active = false;

bool in_task() { return cur != nullptr; }
int self() { return cur ? cur->id : -1; }
int my_rank() { return cur ? cur->rank : -1; }
int64_t now() { return clock_ns; }
void advance(int64_t ns) { clock_ns += ns; }
void add_source(EventSource *s) { sources.push_back(s); }
void set_process_crashed(int rank) { for (auto &t : tasks) if (t->rank == rank) t->crashed = true; }

static void save_locals(Task *t) {
    t->tl.err = (void *)conduit::utils::error_handler();
    t->tl.warn = (void *)conduit::utils::warning_handler();
    t->tl.info = (void *)conduit::utils::info_handler();
}
typedef void (*Handler)(const std::string &, const std::string &, int);
static void load_locals(Task *t) {
    conduit::utils::set_error_handler((Handler)t->tl.err);
    conduit::utils::set_warning_handler((Handler)t->tl.warn);
    conduit::utils::set_info_handler((Handler)t->tl.info);
}
static void *task_main(void *a) {
    Task *t = (Task *)a;
    cur = t;
    while (sem_wait(&t->sem) != 0) {}
    load_locals(t);
    extern void run_task_body(Task *);
    run_task_body(t);
    return nullptr;
}
static Task *pick_next(Task *me);
static void switch_to(Task *me, Task *nx) {
    // me may be null (main) or finished
    if (me && !me->done) save_locals(me);
    sem_post(&nx->sem);
}
void run_task_body(Task *t) {
    try { t->fn(); }
    catch (const std::exception &e) { fail("uncaught-exception", "task %s (rank %d): %s", t->name.c_str(), t->rank, e.what()); }
    catch (...) { fail("uncaught-exception", "task %s: non-std exception", t->name.c_str()); }
    t->done = true;
    logf("task %s done", t->name.c_str());
    Task *nx = pick_next(t);
    if (!nx) sem_post(&main_sem);
    else switch_to(t, nx);
}
int spawn(const std::string &name, std::function<void()> fn, int rank) {
    std::unique_ptr<Task> t(new Task);
    t->id = (int)tasks.size(); t->rank = rank; t->name = name; t->fn = fn;
    t->tl.rnd = 12345;
    sem_init(&t->sem, 0, 0);
    // a new simulated process starts with the handlers current at spawn time
    t->tl.err = (void *)conduit::utils::error_handler();
    t->tl.warn = (void *)conduit::utils::warning_handler();
    t->tl.info = (void *)conduit::utils::info_handler();
    t->prio = (int)t->id;
    Task *p = t.get();
    tasks.push_back(std::move(t));
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
    if (pthread_create(&p->th, &at, task_main, p)) harness_error("pthread_create");
    pthread_attr_destroy(&at);
    return p->id;
}
static std::string dump_tasks() {
    std::string s;
    for (auto &t : tasks) {
        if (t->done) continue;
        s += t->name + (t->crashed ? "(crashed)" : "") + " in " + t->where + "; ";
    }
    return s;
}
static bool runnable(Task *t) {
    if (t->done || t->crashed) return false;
    if (!t->pred) return true;
    if (t->deadline >= 0 && clock_ns >= t->deadline) { t->timed_out = true; return true; }
    t->timed_out = false;
    return t->pred();
}
static Task *pick_next(Task *me) {
    for (;;) {
        if (++S->steps > max_steps) fail("step-limit", "no end after %llu scheduling steps: %s", (unsigned long long)max_steps, dump_tasks().c_str());
        struct Cand { Task *t; EventSource *s; int i; };
        std::vector<Cand> c;
        std::vector<Cand> ev;
        if (me && runnable(me)) c.push_back({me, nullptr, 0});
        for (auto &t : tasks) if (t.get() != me && runnable(t.get())) c.push_back({t.get(), nullptr, 0});
        for (auto s : sources) { int k = s->pending(); for (int i = 0; i < k; i++) ev.push_back({nullptr, s, i}); }
        bool alldone = true;
        for (auto &t : tasks) if (!t->done && !t->crashed) alldone = false;
        if (alldone) return nullptr;
        if (sched.slow_task >= 0 && c.size() + ev.size() > 1) {
            std::vector<Cand> d;
            for (auto &x : c) if (x.t->id != sched.slow_task) d.push_back(x);
            if (!d.empty() || !ev.empty()) c.swap(d);
        }
        if (sched.event_bias == 2 && !c.empty()) ev.clear();
        if (sched.event_bias == 1 && !ev.empty()) c.clear();
        c.insert(c.end(), ev.begin(), ev.end());
        if (c.empty()) {
            // advance the simulated clock to the next deadline
            int64_t nd = -1;
            for (auto &t : tasks) if (!t->done && !t->crashed && t->deadline >= 0 && (nd < 0 || t->deadline < nd)) nd = t->deadline;
            if (nd >= 0) { clock_ns = std::max(clock_ns, nd); continue; }
            std::string d = dump_tasks();
            if (on_deadlock && on_deadlock(d)) { logf("accepted deadlock"); finish_run(); }
            fail(deadlock_class, "nothing can make progress: %s", d.c_str());
        }
        size_t k = 0;
        if (c.size() > 1) {
            switch (sched.mode) {
            case 3: k = 0; break;
            case 2: k = choose((uint32_t)c.size()); break;
            case 1: {
                uint32_t v = choose(24);
                // highest priority runs; now and then it is demoted
                auto prio = [&](const Cand &x) { return x.t ? x.t->prio * 2 : 1; };
                for (size_t i = 1; i < c.size(); i++) if (prio(c[i]) > prio(c[k])) k = i;
                if (v == 23) {
                    if (c[k].t) { int lo = 0; for (auto &t : tasks) lo = std::min(lo, t->prio); c[k].t->prio = lo - 1; }
                    k = choose((uint32_t)c.size());
                }
                break; }
            default: {
                uint32_t v = choose(256);
                if ((int)v >= sched.stick) k = v % c.size();
                break; }
            }
        }
        Cand x = c[k];
        if (x.t) {
            uint32_t id = (uint32_t)x.t->id;
            if (x.t != me) { S->schedhash = fnv(&id, sizeof id, S->schedhash); S->schedhash = fnv(x.t->where, strlen(x.t->where), S->schedhash); }
            return x.t;
        }
        x.s->fire(x.i);
    }
}
thread_local int in_scheduler = 0;
static void reschedule() {
    struct Mark { Mark() { in_scheduler++; } ~Mark() { in_scheduler--; } } mark;
    Task *me = cur;
    Task *nx = pick_next(me);
    if (!nx) harness_error("reschedule: no task");
    if (nx == me) return;
    switch_to(me, nx);
    while (sem_wait(&me->sem) != 0) {}
    load_locals(me);
}
void yield(const char *where) {
    if (!cur) return;
    clock_ns += 1000;
    cur->where = where; cur->pred = nullptr; cur->deadline = -1;
    reschedule();
}
void block(const char *where, std::function<bool()> pred) {
    if (!cur) { if (!pred()) harness_error("block on main thread"); return; }
    clock_ns += 1000;
    cur->where = where; cur->pred = pred; cur->deadline = -1;
    reschedule();
    cur->pred = nullptr;
}
bool block_until(const char *where, std::function<bool()> pred, int64_t deadline) {
    if (!cur) harness_error("block_until on main thread");
    cur->where = where; cur->pred = pred; cur->deadline = deadline; cur->timed_out = false;
    reschedule();
    bool to = cur->timed_out;
    cur->pred = nullptr; cur->deadline = -1;
    return !to || pred();
}
void sleep_ns(int64_t ns) {
    if (!cur) { clock_ns += ns; return; }
    block_until("sleep", [] { return false; }, clock_ns + ns);
}
void run_tasks() {
    tasks_active = true;
    sem_init(&main_sem, 0, 0);
    Task *nx = pick_next(nullptr);
    if (!nx) return;
    void *e = (void *)conduit::utils::error_handler(), *w = (void *)conduit::utils::warning_handler(), *i = (void *)conduit::utils::info_handler();
    sem_post(&nx->sem);
    while (sem_wait(&main_sem) != 0) {}
    // threads of finished tasks are past their last user code
    for (auto &t : tasks) if (t->done) pthread_join(t->th, nullptr);
    tasks.clear();
    sources.clear();
    conduit::utils::set_error_handler((Handler)e);
    conduit::utils::set_warning_handler((Handler)w);
    conduit::utils::set_info_handler((Handler)i);
    tasks_active = false;
    sched = SchedConfig();
}
void draw_schedule_config(int ntasks) {
    static const int sticks[] = {256, 240, 200, 128, 0};
    sched.mode = (int)choose(4);
    if (sched.mode == 3) sched.mode = 2;     // 0,1,2
    sched.stick = sticks[choose(5)];
    sched.event_bias = (int)choose(4);
    if (sched.event_bias == 3) sched.event_bias = 0;
    sched.slow_task = chance(1, 4) ? (int)choose(ntasks) : -1;
    if (sched.mode == 1)
        for (auto &t : tasks) t->prio = (int)choose(8) - 4;
}

// ------------------------------------------------------------------ registry
static std::vector<Scenario> &registry() { static std::vector<Scenario> r; return r; }
void register_scenario(const char *p, const char *n, void (*f)(), int w) { registry().push_back({p, n, f, w}); }
static const Scenario *active = nullptr;
const char *current_prop() { return active ? active->prop : ""; }
const char *current_scenario() { return active ? active->name : ""; }

// ------------------------------------------------------------------ running
static std::string scratch_base;
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Outcome {
    int status; std::string cls, msg, sample; uint64_t loghash, schedhash, steps, events; int64_t simtime;
    std::vector<uint32_t> choices, bounds;
    std::map<std::string, uint64_t> stats;
};
static void on_terminate() {
    std::string m = "std::terminate called";
    try { std::exception_ptr p = std::current_exception(); if (p) std::rethrow_exception(p); }
    catch (const std::exception &e) { m += std::string(": ") + e.what(); }
    catch (...) {}
    void *bt[60]; int k = backtrace(bt, 60);
    if (trace_fd >= 0) backtrace_symbols_fd(bt, k, trace_fd);
    fail("terminate", "%s", m.c_str());
}
static void on_segv_trace(int sig) {
    void *bt[60]; int k = backtrace(bt, 60);
    if (trace_fd >= 0) backtrace_symbols_fd(bt, k, trace_fd);
    signal(sig, SIG_DFL); raise(sig);
}
static void rm_rf(const std::string &d) {
    // only ever below our own scratch base
    if (d.find("/verif-sim.") == std::string::npos) return;
    pid_t p = fork();
    if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)0); _exit(1); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
}
static void clean_dir(const std::string &d);
// Every run is forked from a process that does nothing but fork runs, so all runs start from the same memory image:
// even what a run reads from freed or uninitialised memory is the same when it is repeated.
[[noreturn]] static void child_main() {
    const Scenario &sc = registry()[S->scenario];
    prng_state = S->seed; replaying = S->replay; active = &sc;
    if (S->tracefile[0]) trace_fd = (int)syscall(SYS_open, S->tracefile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    struct rlimit rl; rl.rlim_cur = 10; rl.rlim_max = 11; setrlimit(RLIMIT_CPU, &rl);
    alarm(90);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef VERIF_ASAN
    rl.rlim_cur = rl.rlim_max = 12ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    if (chdir(S->rundir) != 0) { S->status = 3; _exit(0); }
    std::set_terminate(on_terminate);
    if (trace_fd >= 0) { signal(SIGSEGV, on_segv_trace); signal(SIGABRT, on_segv_trace); signal(SIGBUS, on_segv_trace); signal(SIGFPE, on_segv_trace); }
    // the code under test prints; keep the checks' stdout clean
    int nul = (int)syscall(SYS_open, "/dev/null", O_WRONLY);
    if (trace_fd < 0) { dup2(nul, 1); dup2(nul, 2); } else { dup2(trace_fd, 1); dup2(trace_fd, 2); }
    syscall(SYS_close, nul);
    simfs::reset_run();
    try { sc.fn(); }
    catch (const std::exception &e) { fail("uncaught-exception", "%s", e.what()); }
    finish_run();
}
[[noreturn]] static void zygote_main() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        while (sem_wait(&S->req) != 0) {}
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_main(); }
        int st = 0;
        if (p < 0) { S->status = 3; st = 0; } else while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        S->wstatus = st;
        sem_post(&S->done);
    }
}
static pid_t zygote = -1;
static std::string to_trace;
// Runs one scenario in a fresh child. choices==nullptr: generate from seed.
static Outcome run_once(const Scenario &sc, uint64_t seed, const std::vector<uint32_t> *choices) {
    std::string rundir = scratch_base + "/run";
    mkdir(rundir.c_str(), 0700);
    S->nchoices = 0; S->status = 0; S->vclass[0] = 0; S->vmsg[0] = 0; S->sample[0] = 0;
    S->loghash = 1469598103934665603ull; S->schedhash = S->loghash; S->steps = S->events = 0; S->simtime = 0; S->nstats = 0;
    memset(S->stats, 0, sizeof S->stats);
    S->scenario = -1; S->seed = seed; S->replay = choices != nullptr; S->nreplay = 0;
    for (size_t i = 0; i < registry().size(); i++) if (!strcmp(registry()[i].prop, sc.prop) && !strcmp(registry()[i].name, sc.name)) S->scenario = (int)i;
    if (choices) { S->nreplay = (uint32_t)std::min<size_t>(choices->size(), MAXC); memcpy(S->rv, choices->data(), S->nreplay * 4ull); }
    snprintf(S->rundir, sizeof S->rundir, "%s", rundir.c_str()); snprintf(S->tracefile, sizeof S->tracefile, "%s", to_trace.c_str());
    fflush(stdout);
    sem_post(&S->req);
    while (sem_wait(&S->done) != 0) {}
    int st = S->wstatus;
    Outcome o;
    o.status = S->status; o.cls = S->vclass; o.msg = S->vmsg; o.sample = S->sample;
    if (o.status == 0 || WIFSIGNALED(st)) {
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            o.status = 2;
            if (sg == SIGALRM) { o.cls = "hang"; o.msg = "the run was still not finished after 90 s without using its CPU limit: a lock or call outside the simulator blocks"; }
            else if (sg == SIGXCPU || (sg == SIGKILL)) { o.cls = "cpu-limit"; o.msg = "run used more than 10 s of CPU (endless loop) or was killed"; if (sg == SIGKILL) { o.status = 3; } }
            else { o.cls = std::string("crash:") + (sg == SIGSEGV || sg == SIGBUS ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : strsignal(sg)); o.msg = std::string("the simulated system died with ") + strsignal(sg); }
        } else if (WIFEXITED(st) && o.status == 0) {
            o.status = 2; o.cls = "exit"; o.msg = "the code under test ended the process with status " + std::to_string(WEXITSTATUS(st));
        }
    }
    o.loghash = S->loghash; o.schedhash = S->schedhash; o.steps = S->steps; o.events = S->events; o.simtime = S->simtime;
    uint32_t nc = S->nchoices;
    o.choices.assign(S->v, S->v + nc); o.bounds.assign(S->n, S->n + nc);
    for (uint32_t i = 0; i < S->nstats; i++) o.stats[S->stats[i].name] += S->stats[i].v;
    clean_dir(rundir);
    return o;
}
} // namespace sim
#include <dirent.h>
namespace sim {
static void clean_dir(const std::string &d) {
    DIR *dd = opendir(d.c_str());
    if (!dd) return;
    bool deep = false;
    while (struct dirent *e = readdir(dd)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string q = d + "/" + e->d_name;
        if (e->d_type == DT_DIR) deep = true;
        else unlink(q.c_str());
    }
    closedir(dd);
    if (deep) rm_rf(d);
}
static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static uint64_t run_seed(uint64_t base, const char *prop, uint64_t i) {
    uint64_t h = fnv(&base, sizeof base); h = fnv(prop, strlen(prop), h); h = fnv(&i, sizeof i, h);
    return h;
}
static std::vector<const Scenario *> scenarios_of(const std::string &prop) {
    std::vector<const Scenario *> r;
    for (auto &s : registry()) if (prop == s.prop) r.push_back(&s);
    std::sort(r.begin(), r.end(), [](const Scenario *a, const Scenario *b) { return strcmp(a->name, b->name) < 0; });
    return r;
}
static const Scenario *scenario_for(const std::vector<const Scenario *> &v, uint64_t i) {
    int tot = 0;
    for (auto s : v) tot += s->weight;
    int k = (int)(i % tot);
    for (auto s : v) { if (k < s->weight) return s; k -= s->weight; }
    return v[0];
}
static std::string outcome_json(const Outcome &o, const Scenario &sc, uint64_t idx, uint64_t seed) {
    std::string j = "{\"index\":" + std::to_string(idx) + ",\"seed\":\"" + std::to_string(seed) + "\",\"scenario\":\"" + sc.name +
        "\",\"status\":" + std::to_string(o.status) + ",\"class\":\"" + jesc(o.cls) + "\",\"msg\":\"" + jesc(o.msg) + "\",\"loghash\":\"" + std::to_string(o.loghash) +
        "\",\"nchoices\":" + std::to_string(o.choices.size()) + ",\"sample\":\"" + jesc(o.sample) + "\"}";
    return j;
}
static std::vector<uint32_t> trim(std::vector<uint32_t> c) { while (!c.empty() && c.back() == 0) c.pop_back(); return c; }

static int cmd_batch(int argc, char **argv) {
    // batch PROP BASESEED START STRIDE MAXRUNS DEADLINE_S HASHFILE [scenario]
    std::string prop = argv[0];
    uint64_t base = strtoull(argv[1], 0, 10), start = strtoull(argv[2], 0, 10), stride = strtoull(argv[3], 0, 10), maxr = strtoull(argv[4], 0, 10);
    double dl = atof(argv[5]);
    const char *hf = argv[6];
    auto sv = scenarios_of(prop);
    if (argc > 7) { decltype(sv) w; for (auto s : sv) if (!strcmp(s->name, argv[7])) w.push_back(s); sv = w; }
    if (sv.empty()) { printf("{\"error\":\"no scenario\"}\n"); return 3; }
    double t0 = wall();
    std::map<std::string, uint64_t> stats;
    std::vector<uint64_t> hashes;
    uint64_t runs = 0, steps = 0, events = 0; int64_t simtime = 0;
    int viol = 0;
    int detchecks = 0;
    std::vector<std::string> samples;
    for (uint64_t k = 0; k < maxr; k++) {
        if (wall() - t0 > dl) break;
        uint64_t i = start + k * stride;
        const Scenario *sc = scenario_for(sv, i);
        uint64_t seed = run_seed(base, prop.c_str(), i);
        Outcome o = run_once(*sc, seed, nullptr);
        runs++; steps += o.steps; events += o.events; simtime += o.simtime;
        for (auto &s : o.stats) stats[s.first] += s.second;
        stats[std::string("scenario.") + sc->name]++;
        uint64_t hh = fnv(&o.loghash, 8, o.schedhash);
        if (o.events >= 2) hashes.push_back(hh);
        if (o.status == 1 && k % 23 == 0) {   // determinism self-test: same seed again, same log
            Outcome o2 = run_once(*sc, seed, nullptr);
            detchecks++;
            if (o2.loghash != o.loghash || o2.schedhash != o.schedhash) {
                printf("{\"nondeterministic\":%s}\n", outcome_json(o, *sc, i, seed).c_str()); fflush(stdout); return 3;
            }
        }
        if (o.status == 1 && samples.size() < 2 && !o.sample.empty()) samples.push_back(o.sample);
        if (o.status != 1) {
            printf("%s\n", outcome_json(o, *sc, i, seed).c_str()); fflush(stdout);
            if (o.status == 3) return 3;
            if (++viol >= 20) break;
        }
    }
    FILE *f = fopen(hf, "wb");
    if (f) { fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); }
    std::string j = "{\"summary\":true,\"runs\":" + std::to_string(runs) + ",\"steps\":" + std::to_string(steps) + ",\"events\":" + std::to_string(events) +
        ",\"simtime_ns\":" + std::to_string(simtime) + ",\"determinism_rechecks\":" + std::to_string(detchecks) + ",\"wall\":" + std::to_string(wall() - t0) + ",\"stats\":{";
    bool first = true;
    for (auto &s : stats) { if (!first) j += ","; first = false; j += "\"" + jesc(s.first) + "\":" + std::to_string(s.second); }
    j += "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + std::string("\"") + jesc(samples[i]) + "\"";
    j += "]}";
    printf("%s\n", j.c_str());
    return 0;
}
// shrink the choice list while the violation class stays the same
static std::vector<uint32_t> shrink(const Scenario &sc, std::vector<uint32_t> best, const std::string &cls, double budget, int &tries) {
    double t0 = wall();
    best = trim(best);
    auto ok = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> *out) {
        tries++;
        Outcome o = run_once(sc, 0, &c);
        if (o.status == 2 && o.cls == cls) { if (out) *out = trim(o.choices); return true; }
        return false;
    };
    auto left = [&] { return wall() - t0 < budget; };
    auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // truncate
        for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) {
            while (best.size() > k && left()) {
                std::vector<uint32_t> c(best.begin(), best.end() - k), o;
                if (ok(c, &o) && better(o, best)) { best = o; progress = true; } else break;
            }
        }
        // delete chunks
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
            for (size_t i = 0; i + k <= best.size() && left();) {
                std::vector<uint32_t> c(best), o;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (ok(c, &o) && better(o, best)) { best = o; progress = true; } else i += k;
            }
            if (k == 1) break;
        }
        // zero chunks
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
            for (size_t i = 0; i < best.size() && left(); i += k) {
                std::vector<uint32_t> c(best), o;
                bool any = false;
                for (size_t j = i; j < std::min(best.size(), i + k); j++) { if (c[j]) any = true; c[j] = 0; }
                if (any && ok(c, &o) && better(o, best)) { best = o; progress = true; }
            }
            if (k == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < best.size() && left(); i++) {
            while (i < best.size() && best[i] > 1 && left()) {
                std::vector<uint32_t> c(best), o;
                c[i] /= 2;
                if (ok(c, &o) && better(o, best)) { best = o; progress = true; continue; }
                c = best; c[i]--;
                if (ok(c, &o) && better(o, best)) { best = o; progress = true; continue; }
                break;
            }
        }
    }
    return best;
}
static int cmd_shrink(int argc, char **argv) {
    // shrink PROP SCENARIO SEED BUDGET_S OUTFILE
    std::string prop = argv[0]; const Scenario *sc = nullptr;
    for (auto s : scenarios_of(prop)) if (!strcmp(s->name, argv[1])) sc = s;
    if (!sc) return 3;
    uint64_t seed = strtoull(argv[2], 0, 10);
    Outcome a = run_once(*sc, seed, nullptr), b = run_once(*sc, seed, nullptr);
    if (a.status != 2 || b.status != 2 || a.cls != b.cls) { printf("{\"reproduced\":false,\"a\":\"%s\",\"b\":\"%s\"}\n", jesc(a.cls).c_str(), jesc(b.cls).c_str()); return 2; }
    int tries = 0;
    std::vector<uint32_t> c = shrink(*sc, a.choices, a.cls, atof(argv[3]), tries);
    // final: record with trace
    std::string tracefile = std::string(argv[4]) + ".trace";
    to_trace = tracefile; if (to_trace[0] != '/') { char cw[300]; to_trace = std::string(getcwd(cw, sizeof cw)) + "/" + to_trace; }
    Outcome o = run_once(*sc, 0, &c);
    to_trace.clear();
    if (o.status != 2 || o.cls != a.cls) { printf("{\"reproduced\":false,\"stage\":\"final\"}\n"); return 2; }
    Outcome o3 = run_once(*sc, 0, &c);
    FILE *f = fopen(argv[4], "w");
    if (!f) return 3;
    fprintf(f, "{\"property\":\"%s\",\"scenario\":\"%s\",\"seed\":\"%llu\",\"class\":\"%s\",\"msg\":\"%s\",\n \"run\":\"%s\",\n \"loghash\":\"%llu\",\"original_choices\":%zu,\"shrink_runs\":%d,\n \"choices\":[",
            sc->prop, sc->name, (unsigned long long)seed, jesc(o3.cls).c_str(), jesc(o3.msg).c_str(), jesc(o3.sample).c_str(), (unsigned long long)o3.loghash, a.choices.size(), tries);
    for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%u", i ? "," : "", c[i]);
    fprintf(f, "]}\n");
    fclose(f);
    printf("{\"reproduced\":true,\"class\":\"%s\",\"msg\":\"%s\",\"nchoices\":%zu,\"from\":%zu}\n", jesc(o3.cls).c_str(), jesc(o3.msg).c_str(), c.size(), a.choices.size());
    return 0;
}
static int cmd_replay(int argc, char **argv) {
    // replay PROP SCENARIO CHOICES(comma, or @file)  [tracefile]
    std::string prop = argv[0]; const Scenario *sc = nullptr;
    for (auto s : scenarios_of(prop)) if (!strcmp(s->name, argv[1])) sc = s;
    if (!sc) return 3;
    std::vector<uint32_t> c;
    std::string arg = argv[2];
    if (!arg.empty() && arg[0] == '@') {
        FILE *f = fopen(arg.c_str() + 1, "r"); if (!f) return 3;
        unsigned v; while (fscanf(f, "%u%*[, \n]", &v) == 1) c.push_back(v);
        fclose(f);
    } else {
        const char *p = arg.c_str();
        while (*p) { char *e; c.push_back((uint32_t)strtoul(p, &e, 10)); p = *e ? e + 1 : e; }
    }
    if (argc > 3) { to_trace = argv[3]; if (to_trace[0] != '/') { char cw[300]; to_trace = std::string(getcwd(cw, sizeof cw)) + "/" + to_trace; } }
    Outcome o = run_once(*sc, 0, &c);
    printf("%s\n", outcome_json(o, *sc, 0, 0).c_str());
    return o.status == 2 ? 1 : o.status == 1 ? 0 : 3;
}
static int cmd_one(int argc, char **argv) {
    // one PROP SCENARIO SEED|iINDEX[:BASE] [tracefile]
    std::string prop = argv[0]; const Scenario *sc = nullptr;
    for (auto s : scenarios_of(prop)) if (!strcmp(s->name, argv[1])) sc = s;
    if (!sc) return 3;
    uint64_t seed = argv[2][0] == 'i' ? run_seed(1, prop.c_str(), strtoull(argv[2] + 1, 0, 10)) : strtoull(argv[2], 0, 10);
    if (argc > 3) { to_trace = argv[3]; if (to_trace[0] != '/') { char cw[300]; to_trace = std::string(getcwd(cw, sizeof cw)) + "/" + to_trace; } }
    Outcome o = run_once(*sc, seed, nullptr);
    printf("%s\n", outcome_json(o, *sc, 0, seed).c_str());
    for (auto &s : o.stats) printf("  %s=%llu\n", s.first.c_str(), (unsigned long long)s.second);
    return o.status == 2 ? 1 : o.status == 1 ? 0 : 3;
}
} // namespace sim
int main(int argc, char **argv) {
    using namespace sim;
    static char argbuf[1 << 20]; static char *args[64]; static char scratch[300];
    const int ARGFD = 190;
    if (!getenv("VERIF_SIM_CHILD")) {
        // the same memory layout for every run: fixed addresses, arguments and environment
        int fd = memfd_create("args", 0);
        const char *b = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        bool ok = write(fd, b, strlen(b) + 1) > 0;
        for (int i = 0; i < argc; i++) ok = write(fd, argv[i], strlen(argv[i]) + 1) > 0 && ok;
        if (!ok || dup2(fd, ARGFD) < 0) { perror("args"); return 3; }
        static const char *env[] = {"VERIF_SIM_CHILD=1", "MALLOC_PERTURB_=165", "MALLOC_ARENA_MAX=1", "HDF5_USE_FILE_LOCKING=BEST_EFFORT", "LC_ALL=C", "TZ=UTC", "PATH=/usr/bin:/bin", nullptr};
        char *av[] = {(char *)"sim", nullptr};
        personality(ADDR_NO_RANDOMIZE);
        execve("/proc/self/exe", av, (char **)env);
        perror("exec"); return 3;
    }
    lseek(ARGFD, 0, SEEK_SET);
    ssize_t an = read(ARGFD, argbuf, sizeof argbuf - 1), ap = 0;
    if (an > 0) { // absent under a debugger: then argv is used as it is
        snprintf(scratch, sizeof scratch, "%.290s", argbuf); ap = (ssize_t)strlen(argbuf) + 1;
        argc = 0; for (; ap < an && argc < 63; ap += (ssize_t)strlen(argbuf + ap) + 1) args[argc++] = argbuf + ap;
        args[argc] = nullptr; argv = args;
    } else snprintf(scratch, sizeof scratch, "/dev/shm");
    syscall(SYS_close, ARGFD);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    { void *bt[4]; backtrace(bt, 4); }
    sem_init(&S->req, 1, 0); sem_init(&S->done, 1, 0);
    zygote = fork();
    if (zygote == 0) zygote_main();
    char t[400]; snprintf(t, sizeof t, "%s/verif-sim.XXXXXX", scratch);
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    scratch_base = t;
    int rc = 3;
    if (argc >= 9 && !strcmp(argv[1], "batch")) rc = cmd_batch(argc - 2, argv + 2);
    else if (argc >= 7 && !strcmp(argv[1], "shrink")) rc = cmd_shrink(argc - 2, argv + 2);
    else if (argc >= 5 && !strcmp(argv[1], "replay")) rc = cmd_replay(argc - 2, argv + 2);
    else if (argc >= 5 && !strcmp(argv[1], "one")) rc = cmd_one(argc - 2, argv + 2);
    else if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto &s : registry()) printf("%s %s %d\n", s.prop, s.name, s.weight); rc = 0; }
    else fprintf(stderr, "usage: batch|shrink|replay|one|list\n");
    kill(zygote, SIGKILL);
    rm_rf(scratch_base);
    return rc;
}
