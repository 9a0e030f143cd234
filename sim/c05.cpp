// C05: fixed-size arrays are never overrun, truncation is reported exactly.
#include "history.hpp"
namespace sim {
namespace {
template <class C> struct Arr {
    C* p; size_t n;
    Arr(size_t n_) : n(n_)
    {
        p = static_cast<C*>(malloc(n * sizeof(C) + (n == 0)));
        memset(p, 0x7f, n * sizeof(C) + (n == 0));
        cur->arena.push_back(p);
    }
    Text<C> copy() const { return Text<C>(p, p + n); }
};
template <class C, class R>
void verify(Run& r, const Arr<C>& a, size_t cap, const R& res, const Text<C>& ref, bool z)
{
    if (res.ptr < a.p || res.ptr > a.p + cap) { violate("result_outside", "result pointer outside the array"); return; }
    Text<C> got((const C*)a.p, (const C*)res.ptr);
    ev("capacity %zu, text %zu, kept %zu, truncated %d", cap, ref.size(), got.size(), res.truncated);
    r.note(cap << 24 ^ ref.size() << 2 ^ (uint64_t)res.truncated);
    if (z && *res.ptr != C()) violate("no_terminator", "the returned pointer does not designate a terminator");
    bool fits = ref.size() <= cap;
    if (res.truncated == fits) violate("truncated_flag", "truncated is %d for %zu characters in %zu", res.truncated, ref.size(), cap);
    else if (fits && got != ref) violate("text_differs", "%s", diff_str(got, ref).c_str());
    else if (!is_prefix(got, ref)) violate("not_prefix", "%s", diff_str(got, ref).c_str());
    if (!fits && got.size() + 64 < cap) violate("lost_more", "only %zu of %zu characters that fit were kept", got.size(), cap);
    if (!fits) { r.nontrivial = true; SIM_COUNT("fault.array_too_small"); }
    else if (ref.size() == cap) { r.nontrivial = true; SIM_COUNT("exact_fit"); }
}
template <class C> size_t pick_cap(Run& r, size_t text)
{
    switch (r.pick(7)) {
        case 0: return text;
        case 1: return text ? text - 1 : 0;
        case 2: return text + 1;
        case 3: return r.pick((uint32_t)text + 1);
        case 4: return r.pick(70);
        case 5: return 0;
        default: return text + r.pick(100);
    }
}
template <class C, class P> auto with_args(const P& syn, const Program<C>& p, int split)
{
    // the program as one argument, or its parts as separate arguments
    const auto& a = p.anys;
    if (split && p.shape <= 1) {
        if (a.size() == 1) return syn(a[0]);
        if (a.size() == 2) return syn(a[0], a[1]);
        if (a.size() == 3) return syn(a[0], a[1], a[2]);
        return syn(a[0], a[1], a[2], a[3]);
    }
    return syn(prog_p<C>{&p});
}
template <size_t N, class C> void in_array(Run& r, const Program<C>& p, const Text<C>& ref, bool z)
{
    struct A { C x[N]; };
    Arr<C> a(N);
    A& arr = *reinterpret_cast<A*>(a.p);
    if (z) verify(r, a, N - 1, with_args<C>(strf::to(arr.x), p, 1), ref, true);
    else verify(r, a, N, with_args<C>(strf::to_range(arr.x), p, 1), ref, false);
}
template <class C> void go(Run& r)
{
    GenOpt o;
    uint32_t mode = r.pick(8);
    if (mode <= 4) {                                   // one print call
        o.max_fill = 150;
        auto* p = gen_program<C>(r, o);
        auto ref = reference_text(*p);
        if (mode == 4) {
            bool z = r.chance(1, 2);
            switch (r.pick(6)) {
                case 0: in_array<1>(r, *p, ref, z); break;
                case 1: in_array<2>(r, *p, ref, z); break;
                case 2: in_array<17>(r, *p, ref, z); break;
                case 3: in_array<63>(r, *p, ref, z); break;
                case 4: in_array<64>(r, *p, ref, z); break;
                default: in_array<129>(r, *p, ref, z); break;
            }
            return;
        }
        for (int rep = r.range(1, 3); rep-- && !r.violated;) {
            size_t cap = pick_cap<C>(r, ref.size());
            bool z = mode < 2;
            int split = (int)r.pick(2);
            Arr<C> a(cap + z);
            StepBudget b(60'000'000, "print to an array");
            switch (mode) {
                case 0: verify(r, a, cap, with_args<C>(strf::to(a.p, a.n), *p, split), ref, true); break;
                case 1: verify(r, a, cap, with_args<C>(strf::to(a.p, a.p + a.n), *p, split), ref, true); break;
                case 2: verify(r, a, cap, with_args<C>(strf::to_range(a.p, a.n), *p, split), ref, false); break;
                default: verify(r, a, cap, with_args<C>(strf::to_range(a.p, a.p + a.n), *p, split), ref, false); break;
            }
        }
        return;
    }
    // a destination object used for several prints, also after truncation
    HistOpt ho; ho.requests = false; ho.max_ops = 5; ho.gen.max_fill = 100;
    auto h = gen_history<C>(r, ho);
    auto ref = history_text(h);
    size_t cap = pick_cap<C>(r, ref.size());
    Text<C> sofar;
    auto after = [&](auto& d, const auto& a, const auto& res, auto finish) {
        ho.requests = true;
        auto h2 = gen_history<C>(r, ho, 0);
        auto before = a.copy();
        for (auto& x : h2) if (!r.violated) perform(x, d);
        auto res2 = finish();
        if (a.copy() != before) violate("changed_later", "output after truncation or finish() changed the array");
        if (res2.ptr != res.ptr || res2.truncated != true) violate("result_changed_later", "the result changed after truncation");
    };
    if (mode <= 6) {
        Arr<C> a(cap + 1);
        strf::basic_cstr_destination<C> d(a.p, a.n);
        size_t frozen = 0; bool bad = false; Text<C> at_bad;
        for (auto& x : h) {
            perform(x, d); append_text(sofar, x.text);
            if (!bad && !d.good()) { bad = true; at_bad = a.copy(); if (sofar.size() <= cap) violate("truncated_flag", "bad after %zu characters in %zu", sofar.size(), cap); }
            else if (bad && a.copy() != at_bad) violate("changed_later", "output after truncation changed the array");
        }
        (void)frozen;
        auto res = d.finish();
        verify(r, a, cap, res, ref, true);
        if (r.violated) return;
        auto snap = a.copy();
        HistOpt h3 = ho; h3.requests = true;
        auto h2 = gen_history<C>(r, h3, 0);
        for (auto& x : h2) if (!r.violated) perform(x, d);
        if (a.copy() != snap) violate("changed_later", "output after finish() changed the array");
        if (d.good()) violate("good_after_finish", "good after finish()");
        auto res2 = d.finish();
        if (res2.ptr != res.ptr || a.copy() != snap) violate("result_changed_later", "a second finish() gives another result");
    } else {
        Arr<C> a(cap);
        strf::array_destination<C> d(a.p, a.n);
        for (auto& x : h) if (!r.violated) perform(x, d);
        auto res = d.finish();
        verify(r, a, cap, res, ref, false);
        if (!r.violated && res.truncated) after(d, a, res, [&] { return d.finish(); });
    }
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C05",
    "A run prints a random program, or a history of prints and low-level writes, into an exact-size heap array through to(), to_range(), cstr_destination or array_destination with a capacity chosen around the text's length; the result is compared with the text printed into an ample destination. Output continues after truncation and after finish(). Non-trivial: truncated, or an exact fit.",
    run, 200000, 4000000, 100,
    "strf as a whole; basic_cstr_destination, array_destination, to(), to_range()",
    "none (the fault is the space running out, at a seeded position)",
    "(capacity, text length, truncated)"
};
}
