#include "gen.hpp"
namespace sim {
namespace {
template <class I> I pick_int2(Run& r)
{
    using L = std::numeric_limits<I>;
    switch (r.pick(6)) {
        case 0: return (I)r.pick(10);
        case 1: return (I)r.pick(100000);
        case 2: return L::max();
        case 3: return L::min();
        case 4: return (I)(0 - (I)r.pick(100000));
        default: return (I)(r.tape.wide() >> r.pick(64));
    }
}
template <int B> auto fmt_bare(Run& r)          // sign or base prefix only
{
    strf::int_format_no_pad0_nor_punct<B> f;
    if (B == 10) f.sign = pick_sign(r); else f.showbase = r.pick(2);
    return f;
}
template <int B, bool P> auto fmt_based(Run& r, const GenOpt& o)
{
    strf::int_format_static_base_and_punct<B, P> f;
    f.precision = pick_count(r, o.max_fill);
    f.pad0width = pick_count(r, o.max_fill);
    f.sign = B == 10 ? pick_sign(r) : strf::showsign::negative_only;
    f.showbase = B != 10 && r.pick(2);
    return f;
}
}
// integers: formats and value types that ops_int.cpp does not have
template <> Node<SIM_CHAR>* gen_int2<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR; using LL = long long; using ULL = unsigned long long;
    auto D = [](long long v) { return std::to_string(v); };
    auto A = [&] { return pick_align(r, o.max_fill); };
    switch (r.pick(20)) {
        case 0: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "dec.bare", strf::fmt(v).set_int_format(fmt_bare<10>(r)), D(v)); }
        case 1: { auto v = pick_int2<ULL>(r); return mk<C>(r, o, "hex.bare", strf::fmt(v).set_int_format(fmt_bare<16>(r)), D((LL)v)); }
        case 2: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "oct.bare", strf::fmt(v).set_int_format(fmt_bare<8>(r)), D(v)); }
        case 3: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "bin.bare", strf::fmt(v).set_int_format(fmt_bare<2>(r)), D(v)); }
        case 4: { auto v = pick_int2<int>(r); return mk<C>(r, o, "dec.bare.align", strf::fmt(v).set_int_format(fmt_bare<10>(r)).set_alignment_format(A()), D(v)); }
        case 5: { auto v = pick_int2<ULL>(r); return mk<C>(r, o, "hex.bare.align", strf::fmt(v).set_int_format(fmt_bare<16>(r)).set_alignment_format(A()), D((LL)v)); }
        case 6: { auto v = pick_int2<ULL>(r); return mk<C>(r, o, "oct.bare.align", strf::fmt(v).set_int_format(fmt_bare<8>(r)).set_alignment_format(A()), D((LL)v)); }
        case 7: { auto v = pick_int2<ULL>(r); return mk<C>(r, o, "bin.bare.align", strf::fmt(v).set_int_format(fmt_bare<2>(r)).set_alignment_format(A()), D((LL)v)); }
        case 8: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "oct.prec", strf::fmt(v).set_int_format(fmt_based<8, false>(r, o)), D(v)); }
        case 9: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "bin.prec", strf::fmt(v).set_int_format(fmt_based<2, false>(r, o)), D(v)); }
        case 10: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "dec.prec.align", strf::fmt(v).set_int_format(fmt_based<10, false>(r, o)).set_alignment_format(A()), D(v)); }
        case 11: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "hex.prec.align", strf::fmt(v).set_int_format(fmt_based<16, false>(r, o)).set_alignment_format(A()), D(v)); }
        case 12: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "oct.prec.align", strf::fmt(v).set_int_format(fmt_based<8, false>(r, o)).set_alignment_format(A()), D(v)); }
        case 13: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "hex.punct", strf::fmt(v).set_int_format(fmt_based<16, true>(r, o)), D(v)); }
        case 14: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "oct.punct.align", strf::fmt(v).set_int_format(fmt_based<8, true>(r, o)).set_alignment_format(A()), D(v)); }
        case 15: { auto v = pick_int2<LL>(r); return mk<C>(r, o, "bin.punct.align", strf::fmt(v).set_int_format(fmt_based<2, true>(r, o)).set_alignment_format(A()), D(v)); }
        case 16: { auto v = pick_int2<LL>(r); strf::int_format f; static const int bs[] = {10, 16, 8, 2}; f.base = bs[r.pick(4)];
                  f.precision = pick_count(r, o.max_fill); f.pad0width = pick_count(r, o.max_fill); f.sign = pick_sign(r); f.showbase = r.pick(2); f.punctuate = r.pick(2);
                  return mk<C>(r, o, "int.dynamic", strf::fmt(v).set_int_format(f), D(v)); }
        case 17: { auto v = pick_int2<short>(r); return mk<C>(r, o, "short.punct.align", strf::fmt(v).set_int_format(fmt_based<10, true>(r, o)).set_alignment_format(A()), D(v)); }
        case 18: { auto v = pick_int2<unsigned short>(r); return mk<C>(r, o, "ushort", v, D(v)); }
        default: { auto v = pick_int2<signed char>(r); return mk<C>(r, o, "schar.align", strf::fmt(v).set_alignment_format(A()), D(v)); }
    }
}
} // namespace sim
