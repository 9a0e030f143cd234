#include "sched.hpp"
#include "shm.hpp"
extern "C" char __data_start, _end, __executable_start;
namespace sim {
namespace {
uint64_t site_of(const void* ret) { return (uint64_t)(static_cast<const char*>(ret) - &__executable_start); }
Sched* S = nullptr;            // non-null while the threads run
thread_local int self = -1;

void hand_over(int to)
{
    S->running = to;
    int me = self;
    sem_post(&S->sem[to]);
    while (sem_wait(&S->sem[me]) != 0) {}
}
int64_t pick_quantum(Run& r, int style)
{
    if (S->budget <= 0) return 300000;
    switch (style) {
        case 0: return 1 + r.pick(40);
        case 1: return 1 + r.pick(400);
        case 2: return 1 + r.pick(4000);
        default: switch (r.pick(4)) { case 0: return 300000; case 1: return 1 + r.pick(30); case 2: return 1 + r.pick(300); default: return 1 + r.pick(3000); }
    }
}
// another unfinished thread, by a choice of the tape; -1 if there is none
int pick_other(Run& r)
{
    int c[max_threads], k = 0;
    for (int i = 1; i <= S->n; ++i) { int t = (self + i + S->n) % S->n; if (t != self && !S->done[t]) c[k++] = t; }
    return k ? c[r.pick((uint32_t)k)] : -1;
}
void preempt(const char* why, uint64_t site)
{
    InSim g;
    int to = pick_other(*S->r);
    --S->budget;
    S->quantum = pick_quantum(*S->r, S->style);
    if (to < 0) return;
    ++S->switches; ++S->inside;
    distinct(set_sites, site);
    cur->note(mix(site, (uint64_t)self << 8 | (uint64_t)to));
    ev("thread %d is preempted (%s) after %llu steps, thread %d goes on", self, why, (unsigned long long)(steps - cur->steps_at_start), to);
    hand_over(to);
}
void step()
{
    if (!S || self < 0) return;
    S->idle = 0;
    if (--S->quantum <= 0) preempt("time", site_of(step_pc));
}
// the running thread waits for another one
void yield_blocked(const char* what)
{
    InSim g;
    if (!S || self < 0) violate_exit("deadlock", "%s blocks although only one thread is running", what);
    int to = -1;
    for (int i = 1; i < S->n; ++i) { int t = (self + i) % S->n; if (!S->done[t]) { to = t; break; } }
    if (to < 0 || ++S->idle > 1000) violate_exit("deadlock", "all threads are waiting (%s)", what);
    ev("thread %d waits (%s), thread %d goes on", self, what, to);
    SIM_COUNT("blocked_on_lock");
    ++S->switches;
    hand_over(to);
}
// accesses to writable global data, and to parts of shared objects that were written
void access(uintptr_t a, bool store)
{
    if (in_sim || !S || self < 0) return;
    struct Guard { Guard() { ++in_sim; } ~Guard() { --in_sim; } } guard;   // std functions below may be instrumented
    if (!S->hot_rate) return;
    const uintptr_t key = a & ~(uintptr_t)7;
    auto known = S->seen.find(key);
    if (!(a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end)) {
        if (S->shared.empty() || (!store && !S->written)) return;
        auto it = std::upper_bound(S->shared.begin(), S->shared.end(), Range{a, a});
        if (it == S->shared.begin() || a >= (--it)->b) return;
        if (store) S->written = true;
        else if (known == S->seen.end() || !known->second.stored) return;
    }
    if (S->hot_budget <= 0) return;
    auto& k = known == S->seen.end() ? S->seen[key] : known->second;
    k.stored |= store;
    if (++k.n > (k.stored ? 60 : 3)) return;
    --S->hot_budget;
    if (!cur->chance(1, (uint32_t)S->hot_rate)) return;
    ++S->hot_switches;
    preempt("shared memory", site_of(step_pc));
}

struct Start { void (*body)(void*, int); void* arg; int id; };
void* thread_main(void* a)
{
    auto* x = static_cast<Start*>(a);
    self = x->id;
    while (sem_wait(&S->sem[self]) != 0) {}
    in_sim = 0;
    x->body(x->arg, x->id);
    in_sim = 1;
    S->done[self] = true;
    ev("thread %d has finished", self);
    int to = pick_other(*S->r);
    if (to >= 0) { S->quantum = pick_quantum(*S->r, S->style); ++S->switches; S->running = to; sem_post(&S->sem[to]); }
    else sem_post(&S->main);
    return nullptr;
}
std::map<void*, int> once_running;
bool simulated() { return S && self >= 0 && !in_sim; }
} // namespace

void run_threads(Sched& s, void (*body)(void*, int), void* arg)
{
    InSim g;
    Run& r = *s.r;
    sem_init(&s.main, 0, 0);
    for (int t = 0; t < s.n; ++t) sem_init(&s.sem[t], 0, 0);
    S = &s;
    pthread_t id[max_threads]; Start start[max_threads];
    for (int t = 0; t < s.n; ++t) { start[t] = {body, arg, t}; if (pthread_create(&id[t], nullptr, thread_main, &start[t]) != 0) violate_exit("harness", "pthread_create failed"); }
    int first = (int)r.pick((uint32_t)s.n);
    s.quantum = pick_quantum(r, s.style);
    s.running = first;
    on_step = step;
    sem_post(&s.sem[first]);
    while (sem_wait(&s.main) != 0) {}
    for (int t = 0; t < s.n; ++t) pthread_join(id[t], nullptr);
    on_step = nullptr;
    S = nullptr;
}
} // namespace sim

// ------------------------------------------- blocking primitives ----------
extern "C" {
// guards of function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    char* b = reinterpret_cast<char*>(g);
    while (!__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
        if (!b[1]) { b[1] = 1; return 1; }
        sim::yield_blocked("initialisation of a static variable");
    }
    return 0;
}
void __cxa_guard_release(uint64_t* g) { char* b = reinterpret_cast<char*>(g); b[1] = 0; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t* g) { reinterpret_cast<char*>(g)[1] = 0; }

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!sim::simulated()) return __real_pthread_mutex_lock(m);
    for (;;) { int x = pthread_mutex_trylock(m); if (x != EBUSY) return x; sim::yield_blocked("mutex"); }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!sim::simulated()) return __real_pthread_rwlock_rdlock(m);
    for (;;) { int x = pthread_rwlock_tryrdlock(m); if (x != EBUSY) return x; sim::yield_blocked("read lock"); }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!sim::simulated()) return __real_pthread_rwlock_wrlock(m);
    for (;;) { int x = pthread_rwlock_trywrlock(m); if (x != EBUSY) return x; sim::yield_blocked("write lock"); }
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* c, void (*f)())
{
    if (!sim::simulated()) return __real_pthread_once(c, f);
    for (;;) {
        { sim::InSim g; if (!sim::once_running[c]) break; }
        sim::yield_blocked("call_once");
    }
    { sim::InSim g; sim::once_running[c] = 1; }
    struct End { void* c; ~End() { sim::InSim g; sim::once_running[c] = 0; } } end{c};
    return __real_pthread_once(c, f);
}
// accesses to memory (objects compiled with trace-loads, trace-stores)
#define SIM_MEM(n) \
    void __sanitizer_cov_load##n(void* p) { sim::step_pc = __builtin_return_address(0); sim::access((uintptr_t)p, false); } \
    void __sanitizer_cov_store##n(void* p) { sim::step_pc = __builtin_return_address(0); sim::access((uintptr_t)p, true); }
SIM_MEM(1) SIM_MEM(2) SIM_MEM(4) SIM_MEM(8) SIM_MEM(16)
}
