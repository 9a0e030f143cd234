// C04: string destinations build exactly the text and survive allocation failure.
#include "history.hpp"
#include "targets.hpp"
namespace sim {
namespace {
// a user's allocator: every allocation may be made to throw the user's error
struct AllocState { int64_t live = 0; int64_t count = 0; int64_t fail_at = -1; bool from = false; int failures = 0; bool active = false; } as;
template <class T> struct SimAlloc {
    using value_type = T;
    SimAlloc() = default;
    template <class U> SimAlloc(const SimAlloc<U>&) {}
    T* allocate(size_t n)
    {
        InSim g;
        if (as.active) {
            int64_t i = as.count++;
            if (as.fail_at >= 0 && (i == as.fail_at || (as.from && i > as.fail_at))) { ++as.failures; SIM_COUNT("fault.user_allocator_throws"); throw SimError{77}; }
        }
        ++as.live;
        return static_cast<T*>(malloc(n * sizeof(T)));
    }
    void deallocate(T* p, size_t) { InSim g; --as.live; free(p); }
    template <class U> bool operator==(const SimAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const SimAlloc<U>&) const { return false; }
};
template <class C> struct SimTraits : std::char_traits<C> {};

struct Fault { int kind = 0; int64_t at = -1; };   // 0 none 1 the nth fails 2 the nth and all later fail

template <class C, class Str> struct Watch {       // one watched piece of library code
    static constexpr bool user = !std::is_same_v<typename Str::allocator_type, std::allocator<C>>;
    Watch(const Fault& f)
    {
        if (user) { as.count = 0; as.failures = 0; as.active = true; as.fail_at = f.kind ? f.at : -1; as.from = f.kind == 2; }
        AllocWatch::begin();
        if (!user && f.kind == 1) AllocWatch::fail_at(f.at);
        if (!user && f.kind == 2) AllocWatch::fail_from(f.at);
    }
    void faults_off() { as.fail_at = -1; AllocWatch::fail_at(-1); AllocWatch::fail_from(-1); }
    ~Watch() { AllocWatch::end(); as.active = false; }
    bool failed() const { return user ? as.failures > 0 : AllocWatch::failures() > 0; }
    int64_t live() const { return user ? as.live : (int64_t)AllocWatch::live(); }
    int64_t count() const { return user ? as.count : (int64_t)AllocWatch::allocs(); }
};

template <class C, class Str> Text<C> text_of(const Str& s) { InSim g; return Text<C>(s.data(), s.data() + s.size()); }

// f() is library code: returns whether an allocation error reached us
template <class F> int guarded(F&& f)
{
    try { f(); return 0; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const SimError& e) { return e.id == 77 ? 2 : 3; }
    catch (const std::length_error&) { return 4; }
    catch (...) { return 5; }
}

template <class C, class Str> void check_exc(int e, const Watch<C, Str>& w)
{
    if (w.failed() && e != (w.user ? 2 : 1)) violate("error_lost", "an allocation failed but %s", e == 0 ? "no exception reached the caller" : "another exception reached the caller");
    if (!w.failed() && e != 0) violate("spurious_exception", "exception kind %d although no allocation failed", e);
}
template <class C, class Str> void leak(const Watch<C, Str>& w, int64_t allowed)
{
    if (w.live() != allowed) violate("leak", "%ld allocations still live, expected %ld", (long)w.live(), (long)allowed);
}

// whole print calls
template <class C, class Str> void calls(Run& r)
{
    GenOpt o; o.max_fill = r.chance(1, 3) ? 1500 : 150; o.max_text = r.chance(1, 3) ? 1500 : 200;
    auto* p = gen_program<C>(r, o);
    auto ref = reference_text(*p);
    int split = (int)r.pick(2), policy = (int)r.pick(3), form = (int)r.pick(3);
    size_t reserve = r.pick((uint32_t)ref.size() * 2 + 80);
    const Text<C> before0 = gen_plain<C>(r, 400);
    const size_t spare = r.chance(1, 2) ? r.pick(500) : 0;
    int64_t seen = 0;
    auto once = [&](const Fault& f) {
    ev("form %d policy %d reserve %zu fault %d at %ld", form, policy, reserve, f.kind, (long)f.at);
    StepBudget b(60'000'000, "print to a string");
    if (form == 0) {
        const auto& syn = strf::to_basic_string<C, typename Str::traits_type, typename Str::allocator_type>;
        Text<C> got; int e;
        {
            Watch<C, Str> w(f);
            e = guarded([&] {
                Str s = policy == 0 ? call_program<C>(syn, *p, split) : policy == 1 ? call_program<C>(syn.reserve(reserve), *p, split) : call_program<C>(syn.reserve_calc(), *p, split);
                got = text_of<C>(s);
            });
            check_exc(e, w);
            leak(w, 0);
            seen = w.count();
            r.note((uint64_t)w.count() << 8 | (uint64_t)f.kind << 4 | (uint64_t)e);
        }
        if (e == 0 && !r.violated && got != ref) violate("text_differs", "%s", diff_str(got, ref).c_str());
        if (e) r.nontrivial = true;
    } else {
        Str s;
        Text<C> before = before0;
        { InSim g; s.assign(before.data(), before.size()); if (spare) s.reserve(s.size() + spare); }
        Text<C> want = form == 1 ? before : Text<C>();
        append_text(want, ref);
        int e; bool failed;
        Text<C> got;
        {
            Watch<C, Str> w(f);
            e = guarded([&] {
                auto syn = form == 1 ? strf::append(s) : strf::assign(s);
                if (policy == 0) call_program<C>(syn, *p, split); else if (policy == 1) call_program<C>(syn.reserve(reserve), *p, split); else call_program<C>(syn.reserve_calc(), *p, split);
            });
            got = text_of<C>(s);
            failed = w.failed();
            seen = w.count();
            check_exc(e, w);
            r.note((uint64_t)w.count() << 8 | (uint64_t)f.kind << 4 | (uint64_t)e | (uint64_t)form << 60);
            w.faults_off();
            if (e == 0 && !r.violated && got != want) violate("text_differs", "%s", diff_str(got, want).c_str());
            if (e && !is_prefix(got, want)) violate("not_prefix", "after the failure: %s", diff_str(got, want).c_str());
            if (e && form == 1 && got.size() < before.size()) violate("content_lost", "the previous content was lost");
            if (!r.violated) {           // the target is still usable
                size_t n = got.size();
                const C x[] = {'o', 'k', 0};
                if (guarded([&] { strf::append(s)(x); })) violate("unusable", "append to the same string fails after a failure");
                auto t = text_of<C>(s);
                { InSim g; append_text(got, Text<C>{'o', 'k'}); }
                if (!r.violated && t != got) violate("unusable", "later append: %s", diff_str(t, got).c_str());
                (void)n;
            }
            { Str z; s.swap(z); }
            leak(w, 0);
        }
        if (failed) r.nontrivial = true;
    }
    if (!r.violated) { auto again = reference_text(*p); if (again != ref) violate("later_print_differs", "%s", diff_str(again, ref).c_str()); }
    };
    // without fault first, which tells how many allocations there are to fail
    once(Fault{});
    const int64_t total = seen;
    for (int rep = r.range(1, 2); rep-- && total && !r.violated;)
        once(Fault{1 + (int)r.pick(2), (int64_t)r.pick((uint32_t)total)});
}

// writer objects
template <class C, class Str> void objects(Run& r)
{
    HistOpt ho; ho.max_ops = 6; ho.gen.max_fill = 120; ho.gen.max_text = 150;
    auto h = gen_history<C>(r, ho);
    auto h2 = gen_history<C>(r, ho, 0);
    int kind = (int)r.pick(4);
    bool finish = !r.chance(1, 4);
    bool go_on = r.chance(1, 2);
    size_t n = r.pick(4) ? r.pick(400) : 0;
    Text<C> before = gen_plain<C>(r, 300);
    int64_t seen = 0;
    auto once = [&](const Fault& f) {
    static const char* const names[] = {"string_appender", "string_appender(reserve)", "string_maker", "sized_string_maker"};
    ev("%s(%zu) finish %d fault %d at %ld", names[kind], n, finish, f.kind, (long)f.at);
    Text<C> want;
    seen = 0;
    using Tr = typename Str::traits_type; using Al = typename Str::allocator_type;
    StepBudget b(60'000'000, "print to a string");
    Watch<C, Str>* wp = nullptr;
    auto drive = [&](auto& d) -> int {
        for (auto& x : h) {
            { InSim g; append_text(want, x.text); }
            int e = guarded([&] { perform(x, d); });
            if (e) return e;
            if (!d.good()) { violate("bad_by_itself", "turned bad without an error"); return 0; }
        }
        return 0;
    };
    auto ignored = [&](auto& d) { for (auto& x : h2) if (!r.violated) { int e = guarded([&] { perform(x, d); }); if (e) violate("not_ignored", "output to a finished or failed writer throws (%d)", e); } };
    if (kind <= 1) {
        Str s; { InSim g; s.assign(before.data(), before.size()); }
        const Text<C> pre = before;
        Text<C> got; int e = 0; bool finished = false;
        {
            Watch<C, Str> w(f); wp = &w;
            e = guarded([&] {
                auto body = [&](auto& d) {
                    int x = drive(d);
                    if (x == 0 && !w.failed() && finish) { x = guarded([&] { d.finish(); }); finished = x == 0; if (d.good()) violate("good_after_finish", "the writer is good after finish()"); }
                    check_exc(x, w);
                    if (x || finished) {
                        auto t = text_of<C>(s);
                        if (d.good()) violate("good_after_failure", "the appender is good after an allocation failure");
                        w.faults_off();
                        if (go_on) ignored(d);
                        if (text_of<C>(s) != t) violate("not_ignored", "output to a finished or failed writer changed the string");
                    }
                };
                if (kind == 0) { strf::basic_string_appender<C, Tr, Al> d(s); body(d); }
                else { strf::basic_string_appender<C, Tr, Al> d(s, n); body(d); }
            });
            // a failure in the constructor's reserve, or swallowed by the destructor
            if (e && !(kind == 1 && w.failed())) violate("spurious_exception", "exception kind %d", e);
            got = text_of<C>(s);
            seen = w.count();
            Text<C> full; { InSim g; full = pre; append_text(full, want); }
            if (!w.failed() && got != full) violate("text_differs", "%s", diff_str(got, full).c_str());
            if (w.failed() && !(is_prefix(got, full) && got.size() >= pre.size())) violate("not_prefix", "%s", diff_str(got, full).c_str());
            if (w.failed()) r.nontrivial = true;
            r.note((uint64_t)w.count() << 8 | (uint64_t)f.kind << 4 | (uint64_t)kind | (uint64_t)w.failed() << 40);
            { Str z; s.swap(z); }
            leak(w, 0);
        }
    } else {
        Watch<C, Str> w(f); wp = &w;
        Text<C> got; bool have = false;
        int e = guarded([&] {
            auto body = [&](auto& d) {
                int x = drive(d);
                if (x == 0 && !r.violated && finish) {
                    x = guarded([&] { Str s = d.finish(); got = text_of<C>(s); have = true;
                        if (go_on) { ignored(d); if (text_of<C>(s) != got) violate("not_ignored", "output after finish() changed the returned string"); } });
                    if (x == 0 && d.good()) violate("good_after_finish", "the writer is good after finish()");
                }
                check_exc(x, w);
                if (x && !d.good()) { w.faults_off(); if (go_on) { ignored(d); guarded([&] { Str s = d.finish(); if (!text_of<C>(s).empty()) violate("not_ignored", "finish() of a failed maker returns text"); }); } }
            };
            if (kind == 2) { strf::basic_string_maker<C, Tr, Al> d; body(d); }
            else { strf::basic_sized_string_maker<C, Tr, Al> d(n); body(d); }
        });
        if (e && !(kind == 3 && w.failed())) violate("spurious_exception", "exception kind %d", e);
        if (have && got != want) violate("text_differs", "%s", diff_str(got, want).c_str());
        leak(w, 0);
        seen = w.count();
        if (w.failed()) r.nontrivial = true;
        r.note((uint64_t)w.count() << 8 | (uint64_t)f.kind << 4 | (uint64_t)kind | (uint64_t)w.failed() << 40);
    }
    };
    once(Fault{});
    const int64_t total = seen;
    for (int rep = r.range(1, 2); rep-- && total && !r.violated;)
        once(Fault{1 + (int)r.pick(2), (int64_t)r.pick((uint32_t)total)});
}
template <class C> void go(Run& r)
{
    as = AllocState{};
    bool user = r.chance(1, 3), obj = r.chance(1, 3);
    using S1 = std::basic_string<C>;
    using S2 = std::basic_string<C, SimTraits<C>, SimAlloc<C>>;
    ev("%s %s", char_name<C>(), user ? "user's allocator and traits" : "std::allocator");
    if (obj) { if (user) objects<C, S2>(r); else objects<C, S1>(r); }
    else { if (user) calls<C, S2>(r); else calls<C, S1>(r); }
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C04",
    "A run prints a random program, or a history of prints and low-level writes, to a new, appended or assigned string (every reservation policy, the writer classes, a user's allocator and traits) while the n-th allocation, or the n-th and all later ones, fail; the string is compared with the reference text (a prefix of it after a failure), the error must reach the caller, and no allocation may remain. Non-trivial: an allocation failed.",
    run, 200000, 4000000, 100,
    "strf as a whole; string_maker, sized_string_maker, string_appender, reserve policies; std::basic_string",
    "operator new and a user allocator, with seeded failures",
    "(number of allocations, kind of failure, outcome)"
};
}
