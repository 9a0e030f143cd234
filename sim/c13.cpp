// C13: prints nested inside user callbacks of other prints.
#include "gen.hpp"
#include <map>
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
#include "rawtrans.hpp"
namespace sim {
namespace {
constexpr int max_depth = 3, num_inner = 4;
enum { i_sim, i_tight, i_failing, i_bad, i_string, i_array, i_discard, i_size, i_streambuf, num_inner_kinds };
struct Pending { uint64_t when; int inner; int kind; uint64_t sub; };
// one inner print of a type-erased program
struct InnerBase { virtual void go(Pending&) = 0; virtual ~InnerBase() = default; };
struct State {
    Run* r; int depth = 0; uint64_t calls[max_depth + 1] = {};
    std::vector<Pending> plan[max_depth + 1];       // sorted by `when`, per depth
    size_t next[max_depth + 1] = {};
    InnerBase* inner[num_inner] = {};
    uint64_t nested = 0; Point last = Point::num;
} *st;
void hook(void*, Point p)
{
    State& s = *st;
    const int d = s.depth;
    if (d >= max_depth || cur->violated) return;
    uint64_t i = s.calls[d]++;
    while (s.next[d] < s.plan[d].size() && s.plan[d][s.next[d]].when < i) ++s.next[d];
    if (s.next[d] >= s.plan[d].size() || s.plan[d][s.next[d]].when != i) return;
    Pending q = s.plan[d][s.next[d]++];
    { InSim g;
      ev("%*scall %llu of user code (%s): prints inner program %d, way %d", 2 * d, "", (unsigned long long)i, point_name(p), q.inner, q.kind);
      cur->note(mix((uint64_t)p << 16 | (uint64_t)q.kind << 8 | (uint64_t)d, (uint64_t)q.inner));
      static const char* const names[] = {"nested_in.iterator_deref", "nested_in.iterator_incr", "nested_in.iterator_equal", "nested_in.transform", "nested_in.make_printer", "nested_in.printer", "nested_in.inside_printer", "nested_in.override_facet", "nested_in.notifier", "nested_in.tr_notifier", "nested_in.refresh", "nested_in.create", "nested_in.allocator"};
      count_dyn(names[(int)p]); }
    ++s.nested;
    OutSim o;
    ++s.depth;
    s.inner[q.inner]->go(q);
    --s.depth;
}
void refresh_hook(void*, int) { user_point(Point::refresh); }
void create_hook() { user_point(Point::create); }
template <class C> struct Inner : InnerBase {
    const Program<C>* p; Text<C> ref; const char* what;
    void check(const Text<C>& got, bool whole)
    {
        InSim g;
        if (whole ? got != ref : !is_prefix(got, ref)) violate("inner_differs", "inner print (%s): %s", what, diff_str(got, ref).c_str());
    }
    void go(Pending& q) override
    {
        switch (q.kind) {
            case i_sim: case i_tight: case i_failing: case i_bad: {
                Schedule s; s.sub = q.sub; s.on_refresh = refresh_hook;
                if (q.kind == i_tight) { s.initial = (int)(q.sub % 100); s.fixed = 64; }
                if (q.kind == i_failing) { s.fail_at = (int)(q.sub % 4); SIM_COUNT("fault.inner_destination_fails"); }
                SimDest<C> d(s); d.site_count = false;
                if (q.kind == i_bad) d.make_bad();
                print_program(*p, d);
                Text<C> got; { InSim g; got = d.snapshot(); }
                check(got, d.good());
                break; }
            case i_string: {
                auto s = strf::to_basic_string<C>(prog_p<C>{p});
                Text<C> got; { InSim g; got.assign(s.begin(), s.end()); }
                check(got, true);
                break; }
            case i_array: {
                C buf[301]; size_t cap = q.sub % 300;
                auto x = strf::to_range(buf, cap)(prog_p<C>{p});
                Text<C> got; { InSim g; got.assign(buf, x.ptr); }
                check(got, !x.truncated);
                break; }
            case i_discard: { strf::discarder<C> d; print_program(*p, d); break; }
            case i_size: {
                ptrdiff_t n = program_size(*p);
                if (n < (ptrdiff_t)ref.size()) violate("inner_size", "inner size calculation: %td for %zu characters", n, ref.size());
                break; }
            default: {
                SimStreambuf<C> sb(0, 0, SimStreambuf<C>::f_none, 0, false);
                strf::to(static_cast<std::basic_streambuf<C>&>(sb))(prog_p<C>{p});
                Text<C> got; { InSim g; got = sb.taken(); }
                check(got, true);
                break; }
        }
    }
};
// calls of the transcoding functions themselves
struct InnerRaw : InnerBase {
    const Raw* raw; std::map<uint64_t, std::vector<uint32_t>> ref;
    static constexpr uint64_t subs = 3;
    std::vector<uint32_t> once(uint64_t sub) const
    {
        std::vector<uint32_t> v;
        { InSim g; v.reserve(4000); }
        raw->go(v, sub, refresh_hook);
        return v;
    }
    void prepare() { HookScope h(nullptr, nullptr); for (uint64_t i = 1; i <= subs; ++i) ref[i] = once(i); }
    void go(Pending& q) override
    {
        uint64_t sub = 1 + q.sub % subs;
        auto v = once(sub);
        InSim g;
        if (v != ref[sub]) violate("inner_differs", "nested transcoding differs from the same one done separately (%zu and %zu values)", v.size(), ref[sub].size());
    }
};
template <class C> Program<C>* some_program(Run& r, UNotifier* note, int depth)
{
    static const uint32_t focus[] = {1u << g_user | 1u << g_xstr, 0x3f, 1u << g_user | 1u << g_xstr, 0x3f, 1u << g_int, 1u << g_float, 1u << g_str, 1u << g_misc};
    GenOpt o; o.groups = focus[r.pick(8)]; o.max_fill = 120; o.max_text = 120;
    o.notifier = note; o.tr.fn = tr_point; o.depth = depth;
    return gen_program<C>(r, o, 3);
}
template <class C> void reference(Text<C>& ref, const Program<C>& p)
{
    HookScope h(nullptr, nullptr);
    inner_separately = true;
    ref = reference_text(p);
    inner_separately = false;
}
template <class C, class D> void go(Run& r)
{
    UNotifier note;
    // often the nested programs differ from the outer one in few values only, so that they meet in the same code
    std::vector<uint32_t> picks;
    r.tape.record = &picks;
    auto* p = some_program<C>(r, &note, 2);
    r.tape.record = nullptr;
    auto similar = [&](auto c, int depth) {
        if (r.chance(1, 2)) { r.tape.echo = &picks; r.tape.echo_at = 0; }
        auto* x = some_program<decltype(c)>(r, &note, depth);
        r.tape.echo = nullptr;
        return x;
    };
    auto* q = similar(D(), 1);
    auto* q2 = similar(C(), 0);
    State s; s.r = &r; st = &s;
    Inner<C> self; Inner<D> other; Inner<C> third;
    self.p = p; other.p = q; third.p = q2;
    self.what = "the same program"; other.what = "another program"; third.what = "a third program";
    StepBudget b(200'000'000, "nested prints");
    reference(self.ref, *p); reference(other.ref, *q); reference(third.ref, *q2);
    InnerRaw trans; trans.raw = gen_any_raw(r, &note); trans.prepare();
    s.inner[3] = &trans;
    s.inner[0] = &self; s.inner[1] = &other; s.inner[2] = &third;
    ev("references: %zu, %zu and %zu characters", self.ref.size(), other.ref.size(), third.ref.size());
    static const int targets[] = {0, 1, 2, 3, 4, 5, 2, 2, 0, 3, 6, 0};
    const int target = targets[r.pick(12)];
    const uint64_t sub = 1 + r.pick(1u << 30);
    const int fail_at = r.chance(1, 4) ? (int)r.pick(4) : -1;
    const int policy = (int)r.pick(3);
    const size_t cap = r.pick(600);
    auto once = [&](const char* what) {
        Text<C> got; bool whole = true;
        HookScope h(hook, nullptr);
        switch (target) {
            case 0: case 1: case 2: {
                Schedule sc; sc.sub = sub; sc.on_refresh = refresh_hook; sc.fail_at = fail_at;
                if (target == 2) { sc.initial = (int)(sub / 2 % (sub & 1 ? 200 : 24)); sc.fixed = 64; }
                SimDest<C> d(sc);
                print_program(*p, d);
                got = d.snapshot(); whole = d.good();
                break; }
            case 3: {
                Created<C> c;
                SimCreator<C> cr; cr.s.sub = sub; cr.s.on_refresh = refresh_hook; cr.out = &c; cr.on_create = create_hook;
                strf::printing_syntax<SimCreator<C>> syn{cr};
                if (policy == 0) call_program<C>(syn, *p, 1); else if (policy == 1) call_program<C>(syn.reserve(cap), *p, 1); else call_program<C>(syn.reserve_calc(), *p, 1);
                got = c.text;
                break; }
            case 4: {
                auto t = policy == 0 ? call_program<C>(strf::to_basic_string<C>, *p, 1) : call_program<C>(strf::to_basic_string<C>.reserve_calc(), *p, 1);
                got.assign(t.begin(), t.end());
                break; }
            case 6: {
                auto v = trans.once(1);
                if (v != trans.ref[1]) violate("outer_differs", "outer transcoding %s differs (%zu and %zu values)", what, v.size(), trans.ref[1].size());
                whole = false;
                break; }
            default: {
                C buf[700];
                auto x = call_program<C>(strf::to_range(buf, cap), *p, 1);
                got.assign(buf, x.ptr); whole = !x.truncated;
                break; }
        }
        if (whole ? got != self.ref : !is_prefix(got, self.ref)) violate("outer_differs", "outer print %s: %s", what, diff_str(got, self.ref).c_str());
        ev("outer print: %zu characters%s", got.size(), whole ? "" : ", failed or truncated");
    };
    once("without nested prints in callbacks");
    for (int rep = r.range(1, 2); rep-- && !r.violated;) {
        uint64_t n = s.calls[0];
        for (int d = 0; d <= max_depth; ++d) { s.calls[d] = 0; s.next[d] = 0; s.plan[d].clear(); }
        const bool dense = r.chance(1, 3);                    // the same nested print in each of many calls
        if (dense) {
            const int from = (int)r.pick((uint32_t)std::min<uint64_t>(n + 1, 40)), inner = (int)r.pick(num_inner), kind = (int)r.pick(3);
            const uint64_t step = 1 + r.pick(3), in_sub = 1 + r.pick(1u << 30);
            for (uint64_t i = 0; i < 40; ++i) s.plan[0].push_back({(uint64_t)from + i * step, inner, kind, in_sub});
        }
        for (int d = dense; d < max_depth; ++d) {
            int k = r.range(d == 0 ? 1 : 0, 5);
            std::vector<uint64_t> at;
            for (int i = 0; i < k; ++i) at.push_back(r.pick((uint32_t)std::min<uint64_t>(n + 2, 4000)));
            std::sort(at.begin(), at.end());
            at.erase(std::unique(at.begin(), at.end()), at.end());
            for (uint64_t w : at) s.plan[d].push_back({w, (int)r.pick(num_inner), (int)r.pick(num_inner_kinds), 1 + r.pick(1u << 30)});
        }
        once("with nested prints");
        if (s.nested) r.nontrivial = true;
    }
    SIM_COUNT_N("nested_prints", s.nested);
    for (auto& v : s.plan) v.clear();
    if (!r.violated) once("afterwards");
    st = nullptr;
}
void run(Run& r)
{
    switch (r.pick(6)) {
        case 0: go<char, char>(r); break;
        case 1: go<char, char16_t>(r); break;
        case 2: go<char16_t, char>(r); break;
        case 3: go<wchar_t, char32_t>(r); break;
        case 4: go<char32_t, wchar_t>(r); break;
        default: go<char8_t, char>(r); break;
    }
}
}
const Property property{
    "C13",
    "A run prints a random program whose user callbacks (iterators, transforms, printable types, override facets, notifiers, buffer refreshes, destination creators) at seeded calls print other programs, or the same one, to good, tight, failing, bad or discarding destinations, up to three levels deep; printable types also print into the destination they are given. Calls of the transcoding functions themselves take part on both sides. Each inner and the outer text must equal the one printed separately. Non-trivial: at least one print was nested in a callback.",
    run, 300000, 2500000, 100,
    "strf as a whole and its destinations",
    "user extensions that print at seeded calls",
    "sequences of (kind of callback, way and program of the nested print, depth)"
};
}
