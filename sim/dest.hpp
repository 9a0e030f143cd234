// Simulated destination: a user-defined strf::destination whose buffer sizes,
// failures and exceptions are decided by the tape.
#pragma once
#include "core.hpp"
#include <strf.hpp>
#include <string>
#include <cstring>
#include <cstdlib>

extern "C" char __executable_start;

namespace sim {

struct SimError { int id; };              // what simulated user code throws

inline uint64_t site_of(const void* ret)
{ return (uint64_t)(static_cast<const char*>(ret) - &__executable_start); }

template <class C> using Text = std::vector<C>;

template <class C> std::string show(const C* p, size_t n, size_t max = 160)
{
    std::string s; char b[16];
    for (size_t i = 0; i < n && i < max; ++i) {
        auto c = (uint32_t)(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char8_t>, char,
                 std::conditional_t<std::is_same_v<C, char16_t>, short, std::conditional_t<std::is_same_v<C, char32_t>, int, C>>>>)p[i];
        if (c >= 0x20 && c < 0x7f && c != '\\') s += (char)c;
        else { snprintf(b, sizeof b, "\\{%x}", c); s += b; }
    }
    if (n > max) s += "...";
    return s;
}
template <class C> std::string show(const Text<C>& t, size_t max = 160) { return show(t.data(), t.size(), max); }

template <class C> uint64_t hash_text(const Text<C>& t)
{
    uint64_t h = 14695981039346656037ull;
    for (C c : t) { h ^= (uint64_t)c; h *= 1099511628211ull; }
    return h;
}

// Where the refreshes of one SimDest come from
struct Schedule {
    Run* run = nullptr;        // null: one ample buffer (reference execution)
    int fail_at = -1;          // the n-th refresh turns the destination bad
    int throw_at = -1;         // the n-th refresh throws SimError{throw_id}
    int throw_id = 0;
    int keep_good_on_throw = 0;
    int initial = -1;          // fixed initial size, -1: from tape
    int fixed = -1;            // fixed size after every refresh, -1: from tape
    uint64_t sub = 0;          // nonzero: sizes are derived from this seed
    uint64_t max_refresh = 200000;
    void (*on_refresh)(void*, int n) = nullptr; // e.g. a nested print
    void* on_refresh_arg = nullptr;
};

// picks derived from one seed, so that two executions can have the same schedule
struct SubPick { Rng g; explicit SubPick(uint64_t s) : g(s) {} uint32_t pick(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((g.next() >> 32) * (uint64_t)n >> 32); } };

template <class R> size_t pick_initial(R& r)
{
    switch (r.pick(6)) {
        case 0: return 64;
        case 1: return 0;
        case 2: return r.pick(8);
        case 3: return r.pick(64);
        case 4: return 64 + r.pick(64);
        default: return r.pick(300);
    }
}
template <class R> size_t pick_refresh(R& r, size_t least = 64)
{
    switch (r.pick(6)) {
        case 0: case 1: return least;
        case 2: return least + r.pick(8);
        case 3: return least + r.pick(64);
        case 4: return least + r.pick(20);
        default: return least + r.pick(700);
    }
}

template <class C, unsigned Log2 = 6>
class SimDest : public strf::output_buffer<C, Log2> {
    using base = strf::output_buffer<C, Log2>;
    static constexpr size_t ample = 1 << 14;
    static constexpr size_t least = (size_t)1 << Log2;
public:
    explicit SimDest(const Schedule& s) : base(nullptr, (C*)nullptr), sc_(s), sub_(s.sub)
    {
        InSim g;
        if (sc_.run || sc_.sub || sc_.initial >= 0) new_buffer(sc_.initial >= 0 ? (size_t)sc_.initial : sc_.sub ? pick_initial(sub_) : pick_initial(*sc_.run));
        else new_buffer(ample);
    }
    ~SimDest() override { InSim g; free(raw_); }

    void recycle() override
    {
        InSim g;
        int n = refreshes_++;
        if (site_count) distinct(set_sites, site_of(__builtin_return_address(0)));
        C* p = this->buffer_ptr();
        if (p < buf_ || p > buf_ + cap_)
            violate_exit("wrote_outside", "buffer pointer moved outside the buffer: offset %td of %zu", p - buf_, cap_);
        size_t used = (size_t)(p - buf_);
        if ((uint64_t)refreshes_ > sc_.max_refresh)
            violate_exit("no_progress", "more than %llu buffer refreshes", (unsigned long long)sc_.max_refresh);
        if (!this->good()) {
            ++refreshes_bad_;
            if (cap_ < least) { free(raw_); new_buffer(least); }
            this->set_buffer_ptr(buf_);      // scratch; content dropped
            return;
        }
        if (cap_ - used >= least) eager_ = true;
        out_.insert(out_.end(), buf_, p);
        free(raw_); raw_ = nullptr; cap_ = 0;
        bool thr = n == sc_.throw_at, bad = n == sc_.fail_at;
        size_t next = bad || thr ? least : sc_.fixed >= 0 ? (size_t)sc_.fixed : sc_.sub ? pick_refresh(sub_, least) : sc_.run ? pick_refresh(*sc_.run, least) : ample;
        new_buffer(next);
        if (sc_.run) { ev("refresh #%d: took %zu, next buffer %zu%s", n, used, next, thr ? ", throws" : bad ? ", turns bad" : "");
                       cur->note((uint64_t)used << 20 ^ next); }
        if (sc_.on_refresh) sc_.on_refresh(sc_.on_refresh_arg, n);
        if (bad) { SIM_COUNT("fault.destination_turns_bad"); this->set_good(false); steps_at_bad = steps; }
        if (thr) { SIM_COUNT("fault.destination_throws"); if (!sc_.keep_good_on_throw) this->set_good(false); throw SimError{sc_.throw_id}; }
    }

    // takes what is pending (call once, at the end)
    const Text<C>& finish()
    {
        InSim g;
        C* p = this->buffer_ptr();
        if (p < buf_ || p > buf_ + cap_) violate_exit("wrote_outside", "buffer pointer left outside the buffer");
        if (this->good()) { out_.insert(out_.end(), buf_, p); this->set_buffer_ptr(buf_); }
        return out_;
    }
    // what was delivered and what is pending
    Text<C> snapshot() const
    {
        InSim g;
        Text<C> t = out_;
        if (this->good()) t.insert(t.end(), buf_, this->buffer_ptr());
        return t;
    }
    void make_bad() { this->set_good(false); steps_at_bad = steps; }
    const Text<C>& delivered() const { return out_; }
    int refreshes() const { return refreshes_; }
    int refreshes_bad() const { return refreshes_bad_; }
    bool eager() const { return eager_; }
    bool site_count = true;
    uint64_t steps_at_bad = 0;
private:
    void new_buffer(size_t n)
    {
        raw_ = static_cast<C*>(malloc(n * sizeof(C) + (n == 0)));
        // fresh memory has a recognisable content: an advance over characters
        // that were never written shows up in the delivered text
        if (n) memset(raw_, 0xEE, n * sizeof(C));
        buf_ = n ? raw_ : reinterpret_cast<C*>(reinterpret_cast<char*>(raw_));
        if (n == 0) buf_ = raw_;
        cap_ = n;
        this->set_buffer_ptr(buf_);
        this->set_buffer_end(buf_ + n);
    }
    Schedule sc_;
    SubPick sub_;
    C* raw_ = nullptr; C* buf_ = nullptr; size_t cap_ = 0;
    Text<C> out_;
    int refreshes_ = 0, refreshes_bad_ = 0;
    bool eager_ = false;
};

// what became of a destination made by a SimCreator
template <class C> struct Created { Text<C> text; size_t asked = 0; bool sized = false, made = false, good = false; int refreshes = 0, finished = 0; };
template <class C> struct CreateArg { Schedule s; Created<C>* out; };
template <class C> class CreatedDest final : public SimDest<C> {
public:
    CreatedDest(const CreateArg<C>& a) : SimDest<C>(a.s), o_(a.out) { o_->made = true; }
    int finish() { ++o_->finished; settle(); return 4711; }
    ~CreatedDest() override { if (!o_->finished) settle(); }
private:
    void settle() { InSim g; o_->text = this->snapshot(); o_->refreshes = this->refreshes(); o_->good = this->good(); }
    Created<C>* o_;
};
// user-defined destination creator: the reserved size becomes the first buffer
template <class C> struct SimCreator {
    using char_type = C; using destination_type = CreatedDest<C>; using sized_destination_type = CreatedDest<C>;
    Schedule s; Created<C>* out; void (*on_create)() = nullptr; size_t max = 1 << 22;
    CreateArg<C> create() const { if (on_create) on_create(); return {s, out}; }
    CreateArg<C> create(size_t n) const
    {
        if (on_create) on_create();
        Schedule t = s; t.initial = (int)(n < max ? n : max);
        out->asked = n; out->sized = true;
        return {t, out};
    }
};

} // namespace sim
