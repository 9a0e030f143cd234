#include "core.hpp"
#include "shm.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>

namespace sim {

uint64_t Rng::splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) { for (auto& v : s) v = splitmix(seed); }
uint64_t Rng::next()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
    return Rng::splitmix(x);
}

void Tape::start_fresh(uint64_t seed, uint32_t* store, uint32_t cap)
{ rng_ = Rng(seed); replay_ = false; store_ = store; cap_ = cap; n_ = 0; }
void Tape::start_replay(const uint32_t* v, uint32_t n, uint32_t* store, uint32_t cap)
{ replay_ = true; src_ = v; src_n_ = n; store_ = store; cap_ = cap; n_ = 0; }
uint32_t Tape::pick(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v;
    if (echo && echo_at < echo->size()) {
        v = (*echo)[echo_at++] % n;
        if (raw(6) == 5) v = raw(n);
    } else v = raw(n);
    if (record) record->push_back(v);
    return v;
}
uint32_t Tape::raw(uint32_t n)
{
    uint32_t v;
    if (replay_) v = n_ < src_n_ ? src_[n_] % n : 0;
    else v = (uint32_t)((rng_.next() >> 32) * (uint64_t)n >> 32);
    if (n_ < cap_) store_[n_] = v;
    ++n_;
    shm->tape_len.store(n_ < cap_ ? n_ : cap_, std::memory_order_relaxed);
    return v;
}
uint64_t Tape::wide()
{
    // 0xffffffff choices per half (pick excludes the top value, harmless)
    uint64_t hi = pick(0xffffffffu), lo = pick(0xffffffffu);
    return hi << 32 | lo;
}

Run* cur = nullptr;

static uint64_t fnv(uint64_t h, const char* p, size_t n)
{
    for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 0x100000001b3ull; }
    return h;
}

void ev(const char* fmt, ...)
{
    InSim guard;
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    cur->hash = fnv(cur->hash ? cur->hash : 0xcbf29ce484222325ull, buf, (size_t)n + 1);
    if (cur->verbose || cur->want_sample) { cur->trace.append("  ").append(buf, (size_t)n).push_back('\n'); }
    if (cur->verbose) shm_set_trace(cur->trace);
}

static void record(const char* cls, const char* msg)
{
    cur->violated = true; cur->vclass = cls; cur->vmsg = msg;
    shm_set_violation(cls, msg);
}
void violate(const char* cls, const char* fmt, ...)
{
    InSim guard;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    ev("VIOLATION %s: %s", cls, buf);
    if (cur->violated) return;
    record(cls, buf);
}
void violate_exit(const char* cls, const char* fmt, ...)
{
    InSim guard;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    ev("VIOLATION %s: %s", cls, buf);
    if (!cur->violated) record(cls, buf);
    shm->final_hash = cur->hash;
    _exit(exit_violation);
}

bool text_must_be_valid = false;
std::vector<Block>* block_recorder = nullptr;
void* arena_copy(const void* p, size_t bytes)
{
    InSim guard;
    void* r = malloc(bytes ? bytes : 1);
    // zero-length views still get a valid address one past which nothing is readable
    if (bytes) memcpy(r, p, bytes);
    cur->arena.push_back(r);
    return bytes ? r : static_cast<char*>(r) + 1;
}

// --------------------------------------------------------------- stats ----
Stat::Stat(const char* name) : c(shm_stat(name)) {}
void count_dyn(const char* name, uint64_t n) { shm_stat(name)->fetch_add(n, std::memory_order_relaxed); }
void distinct(int set, uint64_t h) { shm_distinct(set, h); }

// ---------------------------------------------------------- step clock ----
uint64_t steps = 0;
uint64_t step_limit = ~0ull;
const char* step_limit_what = "";
void (*on_step)() = nullptr;
const void* step_pc = nullptr;
__thread int in_sim = 0;

// --------------------------------------------------------- allocations ----
namespace {
bool watch = false;
uint64_t n_alloc = 0, n_new = 0, n_fail = 0;
int64_t fail_nth = -1, fail_since = -1;
constexpr size_t live_cap = 4096;
const volatile void* live_tab[live_cap];
size_t live_n = 0;

void on_malloc(const volatile void* p, size_t)
{
    if (!watch || in_sim) return;
    ++n_alloc;
    if (live_n < live_cap) live_tab[live_n++] = p;
}
void on_free(const volatile void* p)
{
    if (!watch) return;
    for (size_t i = live_n; i-- > 0;)
        if (live_tab[i] == p) { live_tab[i] = live_tab[--live_n]; return; }
}
struct Hooks { Hooks() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } } hooks;
} // namespace

void AllocWatch::begin() { n_alloc = n_new = n_fail = 0; live_n = 0; fail_nth = fail_since = -1; watch = true; }
void AllocWatch::end() { watch = false; fail_nth = fail_since = -1; }
uint64_t AllocWatch::allocs() { return n_alloc; }
uint64_t AllocWatch::live() { return live_n; }
void AllocWatch::fail_at(int64_t n) { fail_nth = n; }
void AllocWatch::fail_from(int64_t n) { fail_since = n; }
uint64_t AllocWatch::failures() { return n_fail; }

void* sim_new(size_t n)
{
    if (watch && !in_sim) {
        int64_t i = (int64_t)n_new++;
        if (i == fail_nth || (fail_since >= 0 && i >= fail_since)) {
            ++n_fail;
            SIM_COUNT("fault.alloc_failure");
            throw std::bad_alloc();
        }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
} // namespace sim

void* operator new(size_t n) { return sim::sim_new(n); }
void* operator new[](size_t n) { return sim::sim_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; ++x) *x = ++n;
    sim::num_guards = n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    if (sim::in_sim) return;      // simulator/user code nested in a library call
    uint64_t s = ++sim::steps;
    if (sim::shm) { uint8_t* c = &sim::shm->cov[*guard & (sim::cov_size - 1)]; if (!*c) *c = 1; }
    if (__builtin_expect(s > sim::step_limit, 0)) {
        sim::step_limit = ~0ull;
        sim::violate_exit("no_progress", "step budget exceeded: %s", sim::step_limit_what);
    }
    if (sim::on_step) { sim::step_pc = __builtin_return_address(0); sim::on_step(); }
}
