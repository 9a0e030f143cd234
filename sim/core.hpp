// Deterministic simulator core: choice tape, event log, step clock, faults,
// allocation watch, violation reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <memory>
#include <atomic>

namespace sim {

// ---------------------------------------------------------------- PRNG ----
struct Rng {
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x);
    explicit Rng(uint64_t seed = 0);
    uint64_t next();
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- tape ----
// Every decision of a run (program, schedule, faults) is one entry of the tape.
// Fresh run: entries come from the seeded PRNG and are recorded.
// Replay: entries come from a file; entry 0 is always the simplest choice and
// is what is returned past the end of the tape.
class Tape {
public:
    void start_fresh(uint64_t seed, uint32_t* store, uint32_t cap);
    void start_replay(const uint32_t* vals, uint32_t n, uint32_t* store, uint32_t cap);
    uint32_t pick(uint32_t n);                 // [0,n)
    int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
    bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; } // 0 => false
    uint64_t wide();                           // 64 random bits, 0 simplest
    uint32_t used() const { return n_; }
    // picks are also appended to *record; with echo they mostly repeat those of
    // *echo, so that something similar is generated again
    std::vector<uint32_t>* record = nullptr;
    const std::vector<uint32_t>* echo = nullptr;
    size_t echo_at = 0;
private:
    uint32_t raw(uint32_t n);
    Rng rng_;
    bool replay_ = false;
    const uint32_t* src_ = nullptr;
    uint32_t src_n_ = 0;
    uint32_t* store_ = nullptr;
    uint32_t cap_ = 0;
    uint32_t n_ = 0;
};

// ----------------------------------------------------------------- run ----
struct Run {
    Tape tape;
    uint64_t hash = 0;        // hash of the whole event log
    uint64_t shape = 0;       // property-defined "distinct state/schedule" hash
    bool nontrivial = false;  // set by the property: the run really exercised it
    bool verbose = false;
    bool want_sample = false;
    std::string trace;
    bool violated = false;
    std::string vclass, vmsg;
    uint64_t steps_at_start = 0;
    std::vector<void*> arena; // memory owned by the run
    std::vector<void (*)()> dummy;
    std::vector<std::pair<void (*)(void*), void*>> cleanups;

    uint32_t pick(uint32_t n) { return tape.pick(n); }
    bool chance(uint32_t a, uint32_t b) { return tape.chance(a, b); }
    int range(int lo, int hi) { return tape.range(lo, hi); }
    void note(uint64_t x) { shape = mix(shape, x); }
};

extern Run* cur;              // current run (one per process at a time)

void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Records the first violation of this run.
void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// As violate, but ends the run at once (process exit), for states from which
// the library could not be unwound (e.g. endless loop).
[[noreturn]] void violate_exit(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// exact-size heap copy of an array, so that ASan sees any read outside it
void* arena_copy(const void* p, size_t bytes);
struct Block { void* p; size_t n, unit; bool z; };              // characters or integers printed from the arena
extern bool text_must_be_valid;                                // the last text generated may not be altered
extern std::vector<Block>* block_recorder;                     // set: keep() and friends append to it
template <class T> T* arena_array(const T* p, size_t n)
{ return static_cast<T*>(arena_copy(p, n * sizeof(T))); }
template <class T, class... A> T* make(A&&... a)
{
    T* p = new T(static_cast<A&&>(a)...);
    cur->cleanups.push_back({[](void* q) { delete static_cast<T*>(q); }, p});
    return p;
}

// --------------------------------------------------------------- stats ----
struct Stat { std::atomic<uint64_t>* c; explicit Stat(const char* name); void add(uint64_t n = 1) { c->fetch_add(n, std::memory_order_relaxed); } };
#define SIM_COUNT(name) do { static ::sim::Stat st_(name); st_.add(); } while (0)
#define SIM_COUNT_N(name, n) do { static ::sim::Stat st_(name); st_.add(n); } while (0)
void count_dyn(const char* name, uint64_t n = 1);
// inserts into one of the shared distinct-hash sets
void distinct(int set, uint64_t h);
enum { set_runs = 0, set_shapes = 1, set_sites = 2, num_sets = 3 };

// ---------------------------------------------------------- step clock ----
extern uint64_t steps;        // basic blocks executed in instrumented code
extern uint64_t step_limit;   // exceeding it is reported as lack of progress
extern const char* step_limit_what;
struct StepBudget {
    uint64_t saved; const char* what;
    StepBudget(uint64_t n, const char* w) : saved(step_limit), what(step_limit_what)
    { step_limit = steps + n; step_limit_what = w; }
    ~StepBudget() { step_limit = saved; step_limit_what = what; }
};
extern void (*on_step)();     // called at every instrumented basic block (threads)
extern const void* step_pc;   // where (only while on_step is set)

// --------------------------------------------------------- allocations ----
// sim code that runs inside a library call brackets itself with InSim so that
// its own allocations are neither counted nor made to fail.
extern __thread int in_sim;
struct InSim { __attribute__((always_inline)) InSim() { ++in_sim; } __attribute__((always_inline)) ~InSim() { --in_sim; } };
struct OutSim { int s; OutSim() : s(in_sim) { in_sim = 0; } ~OutSim() { in_sim = s; } };

struct AllocWatch {           // active while in library code under test
    static void begin();      // start watching (clears counters)
    static void end();
    static uint64_t allocs(); // number of allocations seen
    static uint64_t live();   // of those, not yet freed
    static void fail_at(int64_t nth);     // the nth (0-based) operator new throws; -1 none
    static void fail_from(int64_t nth);   // nth and all later ones throw
    static uint64_t failures();
};

// ------------------------------------------------------------ property ----
struct Property {
    const char* id;
    const char* rule;
    void (*run)(Run&);
    uint64_t quick_runs;
    uint64_t thorough_runs;
    uint32_t batch;                       // runs per process history
    const char* real_components;
    const char* stub_components;
    const char* shape_name;               // what `shape` distinguishes
};
extern const Property property;

} // namespace sim
