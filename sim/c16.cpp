// C16: printing needs no dynamic memory unless the destination does.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
#include <strf/locale.hpp>
namespace sim {
namespace {
// the string's own allocator: what it gives out is not the library's
uint64_t own = 0;
template <class T> struct OwnAlloc {
    using value_type = T;
    OwnAlloc() = default;
    template <class U> OwnAlloc(const OwnAlloc<U>&) {}
    T* allocate(size_t n) { InSim g; ++own; return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { InSim g; free(p); }
    template <class U> bool operator==(const OwnAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const OwnAlloc<U>&) const { return false; }
};
template <class C> using OwnStr = std::basic_string<C, std::char_traits<C>, OwnAlloc<C>>;

int64_t calls_seen = 0;
void seen(void*, Point) { ++calls_seen; }
void refreshed(void*, int) { ++calls_seen; }

// f() is library code that must not allocate; with `broke`, every allocation fails
template <class F> bool no_alloc(const char* what, bool broke, F&& f)
{
    const char* e = nullptr;
    uint64_t n, fails, live;
    {
        HookScope h(seen, nullptr);
        AllocWatch::begin();
        if (broke) AllocWatch::fail_from(0);
        try { f(); }
        catch (const std::bad_alloc&) { e = "bad_alloc"; }
        catch (const SimError&) { e = "the destination's exception"; }
        catch (...) { e = "an exception"; }
        n = AllocWatch::allocs(); fails = AllocWatch::failures(); live = AllocWatch::live();
        AllocWatch::end();
    }
    SIM_COUNT("watched_calls");
    if (broke) SIM_COUNT("fault.every_allocation_would_fail");
    if (n || fails) violate("allocates", "%s: %llu allocations%s%s", what, (unsigned long long)(n + fails), e ? ", then " : "", e ? e : "");
    else if (live) violate("allocates", "%s: %llu blocks left", what, (unsigned long long)live);
    else if (e && strcmp(e, "the destination's exception")) violate("fails", "%s: %s reached the caller", what, e);
    return !e;
}

template <class C> struct Print {
    Run& r; const Program<C>* p; UNotifier* note;
    int split = 0, policy = 0, line = 0; size_t reserve = 0; bool broke = false;
    template <class S> auto with_facets(const S& syn) { return syn.with(strf::transcoding_error_notifier_ptr{note}, TrNote{tr_point, nullptr}); }
    template <class S> auto call(const S& syn)
    { auto s = with_facets(syn); return line ? call_program_line<C>(s, *p, split) : call_program<C>(s, *p, split); }
    template <class S> void call_reserving(const S& syn)
    { if (policy == 0) call(syn.no_reserve()); else if (policy == 1) call(syn.reserve(reserve)); else call(syn.reserve_calc()); }
    bool have = false; Text<C> first;      // what the first complete execution delivered
    void complete(const char* what, Text<C> t)
    {
        if (line && !t.empty()) t.pop_back();
        if (have && t != first) violate("text_differs", "%s: %s", what, diff_str(t, first).c_str());
        if (!have) { first = std::move(t); have = true; }
    }
    void prefix(const char* what, const Text<C>& t)
    { Text<C> f = first; if (line) f.push_back((C)'\n'); if (have && !is_prefix(t, f)) violate("text_differs", "%s: %s", what, diff_str(t, f).c_str()); }

    void to_user()
    {
        Schedule s; s.sub = 1 + r.pick(1u << 30); s.on_refresh = refreshed;
        if (r.chance(1, 3)) s.throw_at = (int)r.pick(4);
        else if (r.chance(1, 3)) s.fail_at = (int)r.pick(4);
        s.throw_id = 9;
        SimDest<C> d(s);
        bool ok = no_alloc("print to a user destination", broke, [&] { call(strf::to(d)); });
        Text<C> t = d.snapshot();
        if (r.violated) return;
        if (ok && d.good()) complete("user destination", t); else { r.note(t.size()); prefix("user destination", t); }
    }
    void to_creator()
    {
        Created<C> c;
        SimCreator<C> cr; cr.s.sub = 1 + r.pick(1u << 30); cr.out = &c;
        strf::printing_syntax<SimCreator<C>> syn{cr};
        no_alloc("print to a created destination", broke, [&] { call_reserving(syn); });
        if (!r.violated) complete("created destination", c.text);
    }
    void to_array()
    {
        size_t cap = r.pick(3) ? 40000 : r.pick(400);
        const bool z = r.chance(1, 2);
        auto* a = static_cast<C*>(malloc((cap + 1) * sizeof(C)));
        cur->arena.push_back(a);
        bool trunc = false; C* end = a;
        no_alloc(z ? "print to a C string" : "print to an array", broke, [&] {
            if (z) { auto x = call(strf::to(a, cap + 1)); trunc = x.truncated; end = x.ptr; }
            else { auto x = call(strf::to_range(a, cap)); trunc = x.truncated; end = x.ptr; }
        });
        if (r.violated) return;
        if (trunc) prefix("array", Text<C>(a, end)); else complete("array", Text<C>(a, end));
    }
    void to_streambuf()
    {
        if constexpr (!std::is_same_v<C, char8_t>) {
            // char_traits<char16_t> cannot pass U+FFFF through overflow()
            SimStreambuf<C> sb(std::is_same_v<C, char16_t> ? 0 : (int)r.pick(3), r.pick(30), r.pick(3) ? 0 : 1, r.pick(300), false);
            typename std::remove_cv_t<decltype(strf::to(sb)())> res{};
            no_alloc("print to a stream buffer", broke, [&] { res = call(strf::to(sb)); });
            if (r.violated) return;
            if (res.success) complete("stream buffer", sb.taken()); else prefix("stream buffer", sb.taken());
        }
    }
    void to_file()
    {
        if (std::is_same_v<C, wchar_t> && r.chance(1, 2)) {          // a wide stream, its orientation already set
            if constexpr (std::is_same_v<C, wchar_t>) {
                FILE* f;
                { InSim g; f = fopen("/dev/null", "w"); if (f) { setvbuf(f, nullptr, _IONBF, 0); fputwc(L'x', f); } }
                if (!f) return;
                no_alloc("print to a wide C stream", broke, [&] { call(strf::wto(f)); });
                InSim g; fclose(f);
            }
            return;
        }
        SimFile f; if (!r.pick(3)) f.fail_at = r.pick(900);
        if (!f.open(r.pick(2) ? _IONBF : _IOFBF, 1 + r.pick(200))) return;
        bool ok = false; 
        no_alloc("print to a C stream", broke, [&] { ok = call(strf::to<C>(f.f)).success; });
        f.close();
        if (r.violated) return;
        Text<C> t((const C*)f.got.data(), (const C*)f.got.data() + f.got.size() / sizeof(C));
        if (ok && !f.faults) complete("C stream", t); else prefix("C stream", t);
    }
    void discard()
    {
        strf::discarder<C> d;
        no_alloc("print to a discarder", broke, [&] { call(strf::to(d)); });
    }
    void measure()
    {
        no_alloc("size calculation", broke, [&] { program_size(*p); });
        for (auto* n : p->nodes) {
            if (r.violated) return;
            no_alloc(n->kind, broke, [&] {
                pre_nn a; n->measure(&a);
                pre_yn b; n->measure(&b);
                pre_ny c{strf::width_t(32767)}; n->measure(&c);
                pre_yy d; n->measure(&d);
            });
        }
    }
    void node_paths()
    {
        for (auto* n : p->nodes) for (int path = 0; path < num_paths && !r.violated; ++path) {
            Schedule s; s.sub = 1 + r.pick(1u << 30);
            SimDest<C> d(s);
            no_alloc(n->desc.c_str(), broke, [&] { n->print(d, path); });
        }
    }
    // strings whose own memory comes from elsewhere
    void to_own_string()
    {
        OwnStr<C> s, t;
        if (r.chance(1, 2)) { InSim g; s.assign(r.pick(80), (C)'='); }
        const size_t before = s.size();
        int form = (int)r.pick(3);
        own = 0;
        no_alloc("print to a string", broke, [&] {
            if (form == 0) call_reserving(strf::append(s));
            else if (form == 1) call_reserving(strf::assign(s));
            else {
                const auto& syn = strf::to_basic_string<C, std::char_traits<C>, OwnAlloc<C>>;
                t = policy == 0 ? call(syn.no_reserve()) : policy == 1 ? call(syn.reserve(reserve)) : call(syn.reserve_calc());
            }
        });
        if (r.violated) return;
        if (form == 0) complete("append", Text<C>(s.data() + before, s.data() + s.size()));
        else if (form == 1) complete("assign", Text<C>(s.data(), s.data() + s.size()));
        else complete("to_string", Text<C>(t.data(), t.data() + t.size()));
        SIM_COUNT_N("allocations_of_the_string", own);
    }
};
template <class C> void transcoders(Run& r)
{
    GenOpt o; o.max_text = r.chance(1, 8) ? 5000 : 400;
    UNotifier note;
    auto go = [&](auto s) {
        using S = decltype(s);
        auto t = keep(gen_text<S>(r, o, o.max_text));
        auto from = pick_charset<S>(r); auto to = pick_charset<C>(r);
        std::vector<C> out(t.size() * 4 + 8);
        const bool broke = r.chance(1, 2);
        no_alloc("transcoding", broke, [&] {
            auto tr = strf::find_transcoder(from, to);
            if (auto f = tr.transcode_func()) f(t.data(), t.data() + t.size(), out.data(), out.data() + out.size(), &note, strf::transcode_flags::none);
            if (auto f = tr.transcode_size_func()) f(t.data(), t.data() + t.size(), 1 << 20, strf::transcode_flags::none);
            Schedule sc; sc.sub = 1;
            SimDest<C> d(sc);
            strf::to(d).with(to)(strf::transcode(t, from));
        });
        r.note(mix((uint64_t)from.id(), (uint64_t)to.id()));
    };
    switch (r.pick(4)) { case 0: go(char()); break; case 1: go(char16_t()); break; case 2: go(char32_t()); break; default: go(char8_t()); break; }
    no_alloc("locale_numpunct", r.chance(1, 2), [] { (void)strf::locale_numpunct(); });
}
template <class C> void go(Run& r)
{
    if (r.chance(1, 16)) { transcoders<C>(r); r.nontrivial = true; return; }
    GenOpt o; o.groups = r.pick(4) ? 0x1f : 0x3f; o.depth = 1;
    UNotifier note; o.notifier = &note; o.tr.fn = tr_point;
    if (r.chance(1, 6)) o.max_fill = r.chance(1, 4) ? 20000 : 3000;
    if (r.chance(1, 6)) o.max_text = r.chance(1, 8) ? 30000 : 2000;
    auto* p = gen_program<C>(r, o);
    StepBudget b(400'000'000, "prints of a program");
    Print<C> x{r, p, &note};
    int64_t n0 = calls_seen;
    for (int k = r.range(3, 6); k-- && !r.violated;) {
        x.split = (int)r.pick(2); x.policy = (int)r.pick(3); x.line = (int)r.pick(2); x.broke = r.chance(1, 2); x.reserve = r.pick(3000);
        const uint32_t way = r.pick(9);
        static const char* const names[] = {"to.user", "to.creator", "to.array", "to.streambuf", "to.file", "to.discarder", "measure", "to.node", "to.string"};
        count_dyn(names[way]);
        ev("%s policy %d reserve %zu line %d split %d%s", names[way], x.policy, x.reserve, x.line, x.split, x.broke ? ", every allocation fails" : "");
        switch (way) {
            case 0: x.to_user(); break;
            case 1: x.to_creator(); break;
            case 2: x.to_array(); break;
            case 3: x.to_streambuf(); break;
            case 4: x.to_file(); break;
            case 5: x.discard(); break;
            case 6: x.measure(); break;
            case 7: x.node_paths(); break;
            default: x.to_own_string(); break;
        }
        r.note(way * 8 + (uint64_t)x.policy * 2 + x.broke);
    }
    if (r.violated) return;
    auto ref = reference_text(*p);
    if (x.have && x.first != ref) violate("text_differs", "%s", diff_str(x.first, ref).c_str());
    if (!ref.empty()) r.nontrivial = true;
    r.note(hash_text(ref));
    SIM_COUNT_N("user_callbacks", (uint64_t)(calls_seen - n0));
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C16",
    "A run prints a random program (with user printables, facets and notifiers) in three to six seeded ways — user destination, created destination under each reservation policy, array, C string, stream buffer, C stream, discarder, string with an allocator of its own, size and width calculation, printer objects, raw transcoding — while the heap is watched and, in half of the cases, every allocation would fail; destinations may turn bad or throw. No allocation may happen and the texts must agree with each other and with a print made afterwards. Non-trivial: the text is not empty.",
    run, 200000, 4000000, 100,
    "strf as a whole; all destinations and reservation policies; glibc stdio; libstdc++ strings and stream buffers",
    "the heap (every allocation made by the library is seen and may fail), user destinations, devices behind streams",
    "(ways of printing, policies, text)"
};
}
