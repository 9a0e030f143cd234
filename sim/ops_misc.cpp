#include "gen.hpp"
namespace sim {
namespace {
template <class C> struct ToHex { auto operator()(int x) const { return strf::hex(x); } };
template <class C> struct ToJoin { C c; auto operator()(int x) const { return strf::join(c, x, c); } };
template <class C> Text<C> sep_text(Run& r, const GenOpt& o)
{
    switch (r.pick(4)) {
        case 0: return {(C)','};
        case 1: return {};
        case 2: { Text<C> t; t.push_back((C)','); t.push_back((C)' '); return t; }
        default: return gen_text<C>(r, o, 90);
    }
}
}
template <> Node<SIM_CHAR>* gen_misc<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    auto ints = [&](int max) {
        int n = (int)r.pick((uint32_t)max + 1);
        std::vector<int> v;
        for (int i = 0; i < n; ++i) v.push_back(r.pick(2) ? (int)r.pick(1000) : (int)r.tape.wide());
        auto* p = arena_array<int>(v.data(), v.size());
        if (block_recorder) block_recorder->push_back({p, v.size(), sizeof(int), false});
        return std::basic_string_view<int, std::char_traits<int>>(p, v.size());
    };
    auto desc = [](size_t n) { return "n=" + std::to_string(n); };
    switch (r.pick(16)) {
        case 0: return mk<C>(r, o, "bool", (bool)r.pick(2));
        case 1: return mk<C>(r, o, "bool.align", strf::fmt((bool)r.pick(2)).set_alignment_format(pick_align(r, o.max_fill)));
        case 2: { auto v = ints(40); return mk<C>(r, o, "range", strf::range(v.data(), v.data() + v.size()), desc(v.size())); }
        case 3: { auto v = ints(40); auto s = keep_z(sep_text<C>(r, o)); return mk<C>(r, o, "range.sep", strf::separated_range(v.data(), v.data() + v.size(), s), desc(v.size())); }
        case 4: { auto v = ints(30); strf::int_format f; f.base = r.pick(2) ? 16 : 10; f.showbase = r.pick(2); f.punctuate = r.pick(2); f.precision = pick_count(r, 20);
                  return mk<C>(r, o, "range.fmt", strf::fmt_range(v.data(), v.data() + v.size()).set_int_format(f).set_alignment_format(pick_align(r, 30)), desc(v.size())); }
        case 5: { auto v = ints(30); auto s = keep_z(sep_text<C>(r, o)); return mk<C>(r, o, "range.fmt.sep", +strf::fmt_separated_range(v.data(), v.data() + v.size(), s).set_alignment_format(pick_align(r, 30)), desc(v.size())); }
        case 6: { auto v = ints(30); return mk<C>(r, o, "range.fn", strf::range(v.data(), v.data() + v.size(), ToHex<C>{}), desc(v.size())); }
        case 7: { auto v = ints(30); auto s = keep_z(sep_text<C>(r, o)); return mk<C>(r, o, "range.fn.sep", strf::separated_range(v.data(), v.data() + v.size(), s, ToJoin<C>{(C)'|'}), desc(v.size())); }
        case 8: {
            int n = (int)r.pick(8); using SV = std::basic_string_view<C>;
            std::vector<SV> t; for (int i = 0; i < n; ++i) t.push_back(keep(gen_text<C>(r, o, 60)));
            SV* p = arena_array<SV>(t.data(), t.size());
            auto s = keep_z(sep_text<C>(r, o));
            return mk<C>(r, o, "range.str.sep", strf::separated_range(p, p + n, s), desc((size_t)n)); }
        case 9: {
            int n = (int)r.pick(8); using SV = std::basic_string_view<C>;
            std::vector<SV> t; for (int i = 0; i < n; ++i) t.push_back(keep(gen_text<C>(r, o, 60)));
            SV* p = arena_array<SV>(t.data(), t.size());
            return mk<C>(r, o, "range.str.fmt", strf::fmt_range(p, p + n).set_alignment_format(pick_align(r, 40)), desc((size_t)n)); }
        case 10: { auto t = gen_text<C>(r, o, o.max_text); return mk<C>(r, o, "join", strf::join(keep(t), (int)r.pick(1000), (C)'x', 1.5), show(t, 40)); }
        case 11: { auto t = gen_text<C>(r, o, o.max_text); auto a = pick_align(r, o.max_fill);
                   return mk<C>(r, o, "join.align", strf::join(keep(t), strf::hex((int)r.pick(1000)), strf::sani(keep(t))).set_alignment_format(a), show(t, 40)); }
        case 12: { auto t = gen_text<C>(r, o, 60); auto a = pick_align(r, o.max_fill), b = pick_align(r, o.max_fill);
                   return mk<C>(r, o, "join.nested", strf::join((C)'<', strf::join(keep(t), strf::fmt(true).set_alignment_format(b), (int)r.pick(99)).set_alignment_format(a), (C)'>'), show(t, 40)); }
        case 13: { auto t = gen_text<C>(r, o, 60);
                   return mk<C>(r, o, "inner_facets", strf::with(pick_numpunct<10>(r), pick_case(r))(!strf::dec(1234567), keep(t), true, !strf::fmt(1e10)), show(t, 40)); }
        case 14: { auto v = ints(10); auto a = pick_align(r, o.max_fill); auto s = keep_z(sep_text<C>(r, o));
                   return mk<C>(r, o, "join.range", strf::join(strf::separated_range(v.data(), v.data() + v.size(), s), (C)';').set_alignment_format(a), desc(v.size())); }
        default: {
            Text<C> t; int n = r.range(0, 6);
            for (int i = 0; i < n; ++i) {
                auto lit = gen_text<C>(r, o, 40);
                for (C& c : lit) if (c == (C)'{' || c == 0) c = (C)'.';
                t.insert(t.end(), lit.begin(), lit.end());
                static const char* const ph[] = {"{}", "{0}", "{1}", "{2}", "{{", "{-comment}", "{name}", "{99}", "{"};
                for (const char* q = ph[r.pick(9)]; *q; ++q) t.push_back((C)*q);
            }
            auto u = gen_text<C>(r, o, 60);
            return mk<C>(r, o, "tr", strf::tr(keep(t), (int)r.pick(1000), keep(u), strf::fmt((C)'c').set_alignment_format(pick_align(r, 90))), show(t, 60)); }
    }
}
} // namespace sim
