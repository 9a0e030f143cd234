// C08: a calculated size is enough; reserving never changes the text.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
namespace sim {
namespace {
// a node (or program) printed into a destination that has room for `size`
template <class C, class F> void fits(Run& r, const char* what, ptrdiff_t size, const Text<C>& ref, F&& print)
{
    if (size < (ptrdiff_t)ref.size()) { violate("size_too_small", "%s: calculated %td, printed %zu characters", what, size, ref.size()); return; }
    if (size > 40'000'000) { violate("size_absurd", "%s: calculated %td, printed %zu characters", what, size, ref.size()); return; }
    Schedule s; s.initial = (int)size; s.fixed = 64;
    SimDest<C> d(s);
    print(d);
    if (d.refreshes()) violate("asked_for_more", "%s: %d refreshes although the destination had the calculated %td characters of space (%zu printed)", what, d.refreshes(), size, ref.size());
    auto& got = d.finish();
    if (got != ref) violate("text_differs", "%s: %s", what, diff_str(got, ref).c_str());
    r.note(mix((uint64_t)size, ref.size()));
    SIM_COUNT_N("characters_reserved", (uint64_t)size);
    SIM_COUNT_N("characters_printed", ref.size());
}
template <class C> void nodes(Run& r, const Program<C>& p)
{
    for (auto* n : p.nodes) {
        Text<C> ref;
        { SimDest<C> d{Schedule{}}; d.site_count = false; n->print(d, 0); ref = d.finish(); }
        ptrdiff_t size = n->size();
        for (int path = 0; path < num_paths && !r.violated; ++path)
            fits<C>(r, n->desc.c_str(), size, ref, [&](auto& d) { n->print(d, path); });
        // size and width asked for together, with any width limit
        int lim = r.pick(3) ? (int)r.pick(200) : (int)r.pick(32768);
        pre_yy pre{strf::width_t(lim)};
        n->measure(&pre);
        if (pre.accumulated_ssize() < (ptrdiff_t)ref.size()) violate("size_too_small", "%s, size together with width (limit %d): calculated %td, printed %zu characters", n->desc.c_str(), lim, pre.accumulated_ssize(), ref.size());
        pre_yy pre2;
        n->measure(&pre2);
        if (pre2.accumulated_ssize() < (ptrdiff_t)ref.size()) violate("size_too_small", "%s, size together with width: calculated %td, printed %zu characters", n->desc.c_str(), pre2.accumulated_ssize(), ref.size());
        if (r.violated) return;
    }
}
template <class C> void creators(Run& r, const Program<C>& p, const Text<C>& ref0)
{
    for (int rep = 0; rep < 4 && !r.violated; ++rep) {
        int policy = rep < 2 ? 2 : (int)r.pick(3), split = (int)r.pick(2), line = (int)r.pick(2);
        size_t reserve = r.pick((uint32_t)ref0.size() * 2 + 80);
        Text<C> ref = ref0;
        if (line) ref.push_back((C)'\n');
        Created<C> c;
        SimCreator<C> cr; cr.s.sub = 1 + r.pick(1u << 30); cr.out = &c;
        ev("creator: policy %d reserve %zu split %d line %d", policy, reserve, split, line);
        strf::printing_syntax<SimCreator<C>> syn{cr};
        auto call = [&](const auto& s) { int x = line ? call_program_line<C>(s, p, split) : call_program<C>(s, p, split); if (x != 4711) violate("result_lost", "the result of finish() was not returned"); };
        switch (policy) {
            case 0: if (r.pick(2)) call(syn); else call(syn.reserve(1).no_reserve()); break;
            case 1: call(syn.reserve(reserve)); break;
            default: if (r.pick(2)) call(syn.reserve_calc()); else call(syn.reserve(3).reserve_calc()); break;
        }
        if (!c.made || c.finished != 1) violate("not_finished", "finish() was called %d times", c.finished);
        if (c.sized != (policy != 0)) violate("wrong_policy", "policy %d: creation %s a size", policy, c.sized ? "with" : "without");
        if (policy == 1 && c.asked != reserve) violate("wrong_policy", "reserve(%zu) asked for %zu", reserve, c.asked);
        if (policy == 2 && c.asked < ref.size()) violate("size_too_small", "calculated %zu, printed %zu characters", c.asked, ref.size());
        if (policy == 2 && c.refreshes) violate("asked_for_more", "%d refreshes although the calculated %zu characters were reserved (%zu printed)", c.refreshes, c.asked, ref.size());
        if (c.text != ref) violate("text_differs", "policy %d: %s", policy, diff_str(c.text, ref).c_str());
    }
}
template <class C> void strings(Run& r, const Program<C>& p, const Text<C>& ref0)
{
    const int split = (int)r.pick(2), line = (int)r.pick(2);
    Text<C> ref = ref0;
    if (line) ref.push_back((C)'\n');
    auto call = [&](const auto& s) { return line ? call_program_line<C>(s, p, split) : call_program<C>(s, p, split); };
    for (int form = 0; form < 3 && !r.violated; ++form) {
        ev("string form %d split %d line %d, every allocation after the reservation fails", form, split, line);
        Text<C> got; int e = 0; uint64_t fails = 0;
        std::basic_string<C> s;
        if (form) s.assign(r.pick(60), (C)'=');
        const size_t before = s.size();
        AllocWatch::begin();
        AllocWatch::fail_from(1);
        try {
            if (form == 0) { auto t = call(strf::to_basic_string<C>.reserve_calc()); InSim g; got.assign(t.begin(), t.end()); }
            else if (form == 1) { call(strf::append(s).reserve_calc()); InSim g; got.assign(s.begin() + (ptrdiff_t)before, s.end()); }
            else { call(strf::assign(s).reserve_calc()); InSim g; got.assign(s.begin(), s.end()); }
        } catch (const std::bad_alloc&) { e = 1; }
        fails = AllocWatch::failures();
        AllocWatch::end();
        if (e) violate("needs_more_memory", "form %d: the print failed although the calculated reservation had succeeded (%zu characters)", form, ref.size());
        else if (fails) violate("needs_more_memory", "form %d: %llu allocations after the reservation", form, (unsigned long long)fails);
        else if (got != ref) violate("text_differs", "%s", diff_str(got, ref).c_str());
        // and the other policies deliver the same text
        std::basic_string<C> u = call(strf::to_basic_string<C>.reserve(r.pick((uint32_t)ref.size() * 2 + 80)));
        if (!r.violated && Text<C>(u.begin(), u.end()) != ref) violate("text_differs", "reserve(n): %s", diff_str(Text<C>(u.begin(), u.end()), ref).c_str());
        std::basic_string<C> v = call(strf::to_basic_string<C>);
        if (!r.violated && Text<C>(v.begin(), v.end()) != ref) violate("text_differs", "no reservation: %s", diff_str(Text<C>(v.begin(), v.end()), ref).c_str());
    }
}
template <class C> void go(Run& r)
{
    GenOpt o; o.groups = r.pick(4) ? 0x1f : 0x3f; o.depth = 1;
    UNotifier note; if (r.chance(1, 3)) { o.notifier = &note; o.tr.fn = tr_point; }
    if (r.chance(1, 6)) o.max_fill = 3000;
    if (r.chance(1, 60)) o.max_text = 70000;
    auto* p = gen_program<C>(r, o);
    StepBudget b(200'000'000, "prints of a program");
    auto ref = reference_text(*p);
    ev("reference: %zu characters", ref.size());
    if (!ref.empty()) r.nontrivial = true;
    nodes(r, *p);
    if (r.violated) return;
    fits<C>(r, "whole program", program_size(*p), ref, [&](auto& d) { print_program(*p, d); });
    if (!r.violated) creators(r, *p, ref);
    if (!r.violated && r.pick(2)) strings(r, *p, ref);
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C08",
    "A run measures every printable of a random program and the program itself (size alone, and size together with width under seeded width limits), prints each by five ways into a destination with exactly the calculated space, which must not be refreshed, and prints the program through a creator and to strings under every reservation policy with and without end of line, with every allocation after the calculated reservation failing. Non-trivial: the text is not empty.",
    run, 100000, 2500000, 100,
    "strf as a whole; string destinations, reservation policies",
    "destination with exactly the calculated space, recording destination creator, operator new that fails after the reservation",
    "multisets of (calculated size, printed size)"
};
}
