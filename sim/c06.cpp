// C06: a failed destination stops the printing.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
namespace sim {
namespace {
// an endless range; the end is never reached
uint64_t g_derefs = 0;
struct Endless {
    using value_type = int; using difference_type = ptrdiff_t; using pointer = const int*; using reference = int; using iterator_category = std::forward_iterator_tag;
    unsigned i; bool end;
    int operator*() const { ++g_derefs; return (int)(i * 7u); }
    Endless& operator++() { ++i; return *this; }
    Endless operator++(int) { auto t = *this; ++i; return t; }
    bool operator==(const Endless& o) const { return end && o.end; }
    bool operator!=(const Endless& o) const { return !(*this == o); }
};
template <class C> struct EndlessStr {
    using value_type = std::basic_string_view<C>; using difference_type = ptrdiff_t; using pointer = const value_type*; using reference = value_type; using iterator_category = std::forward_iterator_tag;
    unsigned i; bool end; const C* p;
    value_type operator*() const { ++g_derefs; return value_type(p, i % 5); }
    EndlessStr& operator++() { ++i; return *this; }
    EndlessStr operator++(int) { auto t = *this; ++i; return t; }
    bool operator==(const EndlessStr& o) const { return end && o.end; }
    bool operator!=(const EndlessStr& o) const { return !(*this == o); }
};
struct Fn { auto operator()(int x) const { return strf::hex((unsigned)x).p(5); } };
template <class C> struct FnJoin { C c; auto operator()(int x) const { return strf::join(c, x, c) > 9; } };

// a range with a view type that strf accepts
template <class It> auto rng(It b, It e) { return strf::range(b, e); }

constexpr int huge = 2'000'000'000;
template <class C> Node<C>* gen_endless(Run& r, const GenOpt& o)
{
    static const C seps[4][4] = {{}, {(C)',', (C)' '}, {(C)';'}, {(C)'-', (C)'-', (C)'-'}};
    const C* sep = seps[r.pick(4)];
    Endless b{r.pick(1000), false}, e{0, true};
    static const C chars[6] = {(C)'a', (C)'b', (C)'c', (C)'d', (C)'e', 0};
    EndlessStr<C> sb{r.pick(5), false, chars}, se{0, true, chars};
    switch (r.pick(8)) {
        case 0: return mk<C>(r, o, "endless.range", strf::range(b, e));
        case 1: return mk<C>(r, o, "endless.sep", strf::separated_range(b, e, sep));
        case 2: return mk<C>(r, o, "endless.fmt", +strf::fmt_range(b, e).set_alignment_format(pick_align(r, 300)));
        case 3: return mk<C>(r, o, "endless.fmt.sep", strf::fmt_separated_range(b, e, sep).set_alignment_format(pick_align(r, 300)));
        case 4: return mk<C>(r, o, "endless.fn", strf::range(b, e, Fn{}));
        case 5: return mk<C>(r, o, "endless.fn.sep", strf::separated_range(b, e, sep, FnJoin<C>{(C)'|'}));
        case 6: return mk<C>(r, o, "endless.str.sep", strf::separated_range(sb, se, sep));
        default: return mk<C>(r, o, "endless.join", strf::join(strf::range(b, e), (C)'.').set_alignment_format(pick_align(r, 60)));
    }
}
template <class C> Node<C>* gen_huge(Run& r, GenOpt o)
{
    o.max_fill = huge;
    switch (r.pick(8)) {
        case 0: case 1: case 2: return gen_endless<C>(r, o);
        case 3: return mk<C>(r, o, "huge.multi", strf::multi((C)'x', huge - r.pick(5)).set_alignment_format(pick_align(r, 30)));
        case 4: return mk<C>(r, o, "huge.multi32", strf::multi((char32_t)pick_codepoint(r), huge - r.pick(5)));
        case 5: return mk<C>(r, o, "huge.float", strf::fixed(1.5).p(huge - (int)r.pick(5)));
        case 6: return mk<C>(r, o, "huge.float.sci", +strf::sci(-2.25e100).p(huge - (int)r.pick(5)));
        default: return mk<C>(r, o, "huge.int", strf::hex(255).p(huge - (int)r.pick(5)));
    }
}
template <class C> Program<C>* gen_huge_program(Run& r)
{
    GenOpt o;
    auto* p = make<Program<C>>();
    p->shape = (int)r.pick(num_shapes);
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        bool h = r.chance(1, 2);
        Node<C>* x = h ? gen_huge<C>(r, o) : gen_node<C>(r, o);
        if (h) count_kind(x->kind);
        // the size of an endless range cannot be calculated
        static const int ways[3] = {0, 1, 4};
        p->nodes.push_back(x);
        p->paths.push_back(h ? ways[r.pick(3)] : (int)r.pick(num_paths));
        p->anys.push_back({x, p->paths.back()});
    }
    if (p->shape == 4) {
        Text<C> t;
        int k = r.range(1, 8);
        for (int i = 0; i < k; ++i) {
            auto lit = gen_text<C>(r, o, 50);
            for (C& c : lit) if (c == (C)'{' || c == 0) c = (C)'.';
            t.insert(t.end(), lit.begin(), lit.end());
            static const char* const ph[] = {"{}", "{0}", "{1}", "{2}", "{{", "{-note}", "{7}"};
            for (const char* q = ph[r.pick(7)]; *q; ++q) t.push_back((C)*q);
        }
        auto sv = keep(t);
        p->tr_text.assign(sv.begin(), sv.end());
    }
    if (p->shape == 6) { p->sep = gen_text<C>(r, o, 70); for (C& c : p->sep) if (c == 0) c = (C)'0'; }
    p->sep.push_back(0);
    // (an aligned join measures its content up to its width before it prints)
    p->width = pick_count(r, 400);
    p->align = (int)r.pick(3);
    p->fill = pick_fill(r);
    std::string d = p->describe();
    ev("%s program %s", char_name<C>(), d.c_str());
    return p;
}
uint64_t max_after = 0;
// work allowed after the failure: nothing in it depends on what was still to
// be printed, except for a bounded number of steps per argument
constexpr uint64_t work_limit = 60'000;

template <class C> void simulated(Run& r)
{
    auto* p = gen_huge_program<C>(r);
    Text<C> ref; bool complete;
    {
        Schedule s; s.fail_at = 3;
        SimDest<C> d(s); d.site_count = false;
        StepBudget b(60'000'000, "reference print to a destination that fails");
        print_program(*p, d);
        complete = d.good();
        ref = d.finish();
        // everything delivered before it failed
    }
    ev("reference: %zu characters%s", ref.size(), complete ? "" : " so far");
    for (int rep = r.range(1, 3); rep-- && !r.violated;) {
        Schedule sc; sc.run = &r;
        bool at_start = r.chance(1, 10);
        switch (r.pick(4)) {
            case 0: sc.initial = r.range(0, 200); sc.fixed = 64; break;
            case 1: sc.initial = 0; sc.fixed = 64; break;
            default: break;
        }
        sc.fail_at = (int)(r.pick(3) ? r.pick(6) : r.pick(20));
        SimDest<C> d(sc);
        if (at_start) { ev("bad from the start"); d.make_bad(); }
        uint64_t derefs0 = 0;
        {
            StepBudget b(60'000'000, "print to a destination that fails");
            print_program(*p, d);
            (void)derefs0;
        }
        auto got = d.finish();
        bool bad = !d.good();
        if (!bad) {
            if (!complete) { if (!is_prefix(ref, got)) violate("text_differs", "%s", diff_str(got, ref).c_str()); }
            else if (got != ref) violate("text_differs", "%s", diff_str(got, ref).c_str());
            ev("completed, %zu characters", got.size());
            continue;
        }
        r.nontrivial = true;
        uint64_t after = steps - d.steps_at_bad;
        if (after > max_after) { max_after = after; if (getenv("SIM_MAX")) fprintf(stderr, "%lu %s\n", after, p->describe().c_str()); }
        ev("failed at refresh %d after %zu characters; %d refreshes, %llu steps afterwards", sc.fail_at, got.size(), d.refreshes_bad(), (unsigned long long)after);
        SIM_COUNT_N("steps_after_failure", after);
        if (after > work_limit) violate("unbounded_work", "%llu steps after the destination failed", (unsigned long long)after);
        if (d.refreshes_bad() > 64 + 8 * (int)p->nodes.size()) violate("unbounded_work", "%d refreshes of a failed destination", d.refreshes_bad());
        if (at_start && !got.empty()) violate("delivered_when_bad", "a destination bad from the start received text");
        size_t m = std::min(got.size(), ref.size());
        if (!std::equal(got.begin(), got.begin() + (ptrdiff_t)m, ref.begin())) violate("not_prefix", "%s", diff_str(got, ref).c_str());
        if (complete && got.size() > ref.size()) violate("not_prefix", "%zu characters delivered of %zu", got.size(), ref.size());
        // later prints are ignored too
        int more = (int)r.pick(3);
        for (int i = 0; i < more && !r.violated; ++i) {
            auto* q = r.chance(1, 2) ? p : gen_huge_program<C>(r);
            uint64_t s0 = steps;
            { StepBudget b(60'000'000, "print to a failed destination"); print_program(*q, d); }
            if (steps - s0 > work_limit) violate("unbounded_work", "%llu steps for a print to a failed destination", (unsigned long long)(steps - s0));
            if (d.good()) violate("good_again", "the destination turned good again");
            if (d.finish() != got) violate("delivered_when_bad", "a later print was delivered to a failed destination");
        }
    }
}
// the library's own destinations, failing when full or when the device fails
template <class C> void real(Run& r)
{
    auto* p = gen_huge_program<C>(r);
    Text<C> ref;
    {
        Schedule s; s.fail_at = 1;
        SimDest<C> d(s); d.site_count = false;
        StepBudget b(60'000'000, "reference print to a destination that fails");
        print_program(*p, d);
        ref = d.finish();
    }
    size_t cap = r.pick(3) ? r.pick(300) : r.pick(3000);
    // text delivered before the failure is at most cap, so the whole print is bounded
    StepBudget b(work_limit + 400 * (cap + 64), "print to a destination that fails after few characters");
    Text<C> got; bool failed = false;
    uint32_t kind = r.pick(6);
    ev("kind %u capacity %zu", kind, cap);
    switch (kind) {
        case 0: {
            C* a = static_cast<C*>(malloc((cap + 1) * sizeof(C))); cur->arena.push_back(a);
            auto x = strf::to(a, cap + 1)(prog_p<C>{p}); got.assign(a, x.ptr); failed = x.truncated; break; }
        case 1: {
            C* a = static_cast<C*>(malloc((cap + 1) * sizeof(C))); cur->arena.push_back(a);
            auto x = strf::to_range(a, cap)(prog_p<C>{p}); got.assign(a, x.ptr); failed = x.truncated; break; }
        case 2: case 3: {
            SimFile f; f.fail_at = (int64_t)(cap * sizeof(C)); f.open(_IONBF, 0);
            auto x = strf::to<C>(f.f)(prog_p<C>{p}); f.close(); failed = !x.success;
            got.resize(f.got.size() / sizeof(C)); memcpy(got.data(), f.got.data(), got.size() * sizeof(C)); break; }
        case 4: {
            SimStreambuf<C> sb(0, 0, SimStreambuf<C>::f_refuse, cap, false);
            auto x = strf::to(static_cast<std::basic_streambuf<C>&>(sb))(prog_p<C>{p}); got = sb.taken(); failed = !x.success; break; }
        default: {
            strf::discarder<C> d;
            strf::to(d)(prog_p<C>{p});
            if (d.good()) violate("good_again", "the discarder is good");
            failed = true; break; }
    }
    ev("kept %zu characters, failed %d", got.size(), failed);
    if (failed) r.nontrivial = true;
    size_t m = std::min(got.size(), ref.size());
    if (!std::equal(got.begin(), got.begin() + (ptrdiff_t)m, ref.begin())) violate("not_prefix", "%s", diff_str(got, ref).c_str());
    if (got.size() > cap) violate("not_prefix", "%zu characters kept of %zu that fit", got.size(), cap);
}
void run(Run& r)
{
    bool sim = r.pick(4) != 3;
    with_char_type(r.pick(5), [&](auto c) { using C = decltype(c); if (sim) simulated<C>(r); else real<C>(r); });
}
}
const Property property{
    "C06",
    "A run prints a random program with endless ranges, repetitions and precisions of two thousand million, and maximal widths to a destination that turns bad at the n-th refresh (or is bad from the start), or to one of the library's destinations that fills up or whose device fails; what was delivered must be a prefix of the reference, later prints are ignored, and the instrumented steps executed after the failure stay below a fixed limit. Non-trivial: the destination failed.",
    run, 90000, 3000000, 100,
    "strf as a whole and all its destinations",
    "destination, device and stream buffer that fail at a seeded point; endless iterators",
    "sequences of (characters taken, size of the next buffer) at the refreshes of a run"
};
}
