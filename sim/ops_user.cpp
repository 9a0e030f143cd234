#include "gen.hpp"
#include "user.hpp"
namespace sim {
template <> Node<SIM_CHAR>* gen_user<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR; using SV = std::basic_string_view<C>;
    auto ints = [&](int max) {
        int n = (int)r.pick((uint32_t)max + 1);
        std::vector<int> v;
        for (int i = 0; i < n; ++i) v.push_back(r.pick(2) ? (int)r.pick(1000) : (int)r.tape.wide());
        return std::basic_string_view<int, std::char_traits<int>>(arena_array<int>(v.data(), v.size()), v.size());
    };
    auto strs = [&](int max) {
        int n = (int)r.pick((uint32_t)max + 1);
        std::vector<SV> t; for (int i = 0; i < n; ++i) t.push_back(keep(gen_text<C>(r, o, 60)));
        return std::pair<SV*, int>(arena_array<SV>(t.data(), t.size()), n);
    };
    auto sep = [&]() -> const C* {
        switch (r.pick(3)) { case 0: return keep_z(Text<C>{(C)',', (C)' '}); case 1: return keep_z(Text<C>{}); default: return keep_z(gen_text<C>(r, o, 90)); }
    };
    auto desc = [](size_t n) { return "n=" + std::to_string(n); };
    using II = UIter<int>; using SI = UIter<SV>;
    auto text = [&] {
        up_text<C> x{keep(gen_text<C>(r, o, 90)), keep(gen_text<C>(r, o, 60)), (int)r.pick(1000), nullptr};
        if (o.depth > 0) {
            GenOpt q = o; --q.depth;
            auto* p = gen_program<C>(r, q, 2);
            x.inner = p;
            count_dyn("nested_in_printable");
        }
        return x;
    };
    switch (r.pick(17)) {
        case 0: { auto v = ints(20); return mk<C>(r, o, "user.range", strf::range(II(v.data()), II(v.data() + v.size())), desc(v.size())); }
        case 1: { auto v = ints(20); return mk<C>(r, o, "user.range.sep", strf::separated_range(II(v.data()), II(v.data() + v.size()), sep()), desc(v.size())); }
        case 2: { auto v = ints(20); return mk<C>(r, o, "user.range.fmt", +strf::fmt_range(II(v.data()), II(v.data() + v.size())).set_alignment_format(pick_align(r, 30)), desc(v.size())); }
        case 3: { auto v = ints(20); return mk<C>(r, o, "user.range.fmt.sep", strf::fmt_separated_range(II(v.data()), II(v.data() + v.size()), sep()).set_alignment_format(pick_align(r, 30)), desc(v.size())); }
        case 4: { auto v = ints(20); return mk<C>(r, o, "user.range.fn", strf::range(II(v.data()), II(v.data() + v.size()), UHex{}), desc(v.size())); }
        case 5: { auto v = ints(20); return mk<C>(r, o, "user.range.fn.sep", strf::separated_range(II(v.data()), II(v.data() + v.size()), sep(), UJoin<C>((C)'|')), desc(v.size())); }
        case 6: { auto [p, n] = strs(8); return mk<C>(r, o, "user.range.str.sep", strf::separated_range(SI(p), SI(p + n), sep()), desc((size_t)n)); }
        case 7: { auto [p, n] = strs(8); return mk<C>(r, o, "user.range.str.fmt", strf::fmt_range(SI(p), SI(p + n)).set_alignment_format(pick_align(r, 40)), desc((size_t)n)); }
        case 8: case 9: { auto x = text(); return mk<C>(r, o, "user.printable", x, show(x.a.data(), x.a.size(), 40)); }
        case 10: { auto x = text(); return mk<C>(r, o, "user.printable.join", strf::join((C)'<', x, strf::hex(x.n), (C)'>').set_alignment_format(pick_align(r, o.max_fill)), show(x.a.data(), x.a.size(), 40)); }
        case 11: { up_join<C> x{keep(gen_text<C>(r, o, 90)), (int)r.pick(1000)}; return mk<C>(r, o, "user.delegate", x); }
        case 12: { up_join<C> x{keep(gen_text<C>(r, o, 90)), (int)r.pick(1000)}; return mk<C>(r, o, "user.delegate.align", strf::fmt(x).set_alignment_format(pick_align(r, o.max_fill))); }
        case 13: { auto v = ints(10); auto x = text(); return mk<C>(r, o, "user.tr", strf::tr(keep_z(Text<C>{(C)'a', (C)'{', (C)'}', (C)'{', (C)'9', (C)'}', (C)'{', (C)'0', (C)'}', (C)'{', (C)'}', (C)'{'}),
                        strf::range(II(v.data()), II(v.data() + v.size())), x), desc(v.size())); }
        case 14: { auto x = text(); auto v = ints(10); return mk<C>(r, o, "user.inner_facets", strf::with(pick_numpunct<10>(r))(!strf::dec(1234567), x, strf::range(II(v.data()), II(v.data() + v.size()), UHex{}))); }
        case 15: {
            auto p = strf::join((C)'a', true, strf::fmt(false).set_alignment_format(pick_align(r, o.max_fill)), up_over{(int)r.pick(1000)});
            auto fp = strf::pack(bool_facet{}, over_facet{}, strf::transcoding_error_notifier_ptr{o.notifier}, o.tr);
            Node<C>* n = make<NodeImpl<C, decltype(p), decltype(fp)>>(p, fp);
            n->kind = "user.override"; n->desc = "user.override";
            return n; }
        default: {
            auto x = text(); auto a = pick_align(r, o.max_fill), b = pick_align(r, 90);
            auto v = ints(10);
            return mk<C>(r, o, "user.join.nested", strf::join(strf::join(x, strf::separated_range(II(v.data()), II(v.data() + v.size()), sep())).set_alignment_format(b), up_over{3}, (C)'.').set_alignment_format(a)); }
    }
}
} // namespace sim
