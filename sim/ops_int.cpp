#include "gen.hpp"
namespace sim {
namespace {
template <class I> I pick_int(Run& r)
{
    using L = std::numeric_limits<I>;
    switch (r.pick(6)) {
        case 0: return (I)r.pick(10);
        case 1: return (I)r.pick(100000);
        case 2: return L::max();
        case 3: return L::min();
        case 4: return (I)(0 - (I)r.pick(100000));
        default: return (I)(r.tape.wide() >> r.pick(64));
    }
}
template <class F> void set_fmt(Run& r, const GenOpt& o, F& f, bool based)
{
    f.precision = pick_count(r, o.max_fill);
    f.pad0width = pick_count(r, o.max_fill);
    f.sign = pick_sign(r);
    f.showbase = based && r.pick(2);
}
}
template <> Node<SIM_CHAR>* gen_int<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    auto D = [](long long v) { return std::to_string(v); };
    switch (r.pick(18)) {
        case 0: { int v = pick_int<int>(r); return mk<C>(r, o, "int", v, D(v)); }
        case 1: { auto v = pick_int<unsigned long long>(r); return mk<C>(r, o, "ulonglong", v, D((long long)v)); }
        case 2: { auto v = pick_int<long long>(r); return mk<C>(r, o, "int.align", strf::fmt(v).set_alignment_format(pick_align(r, o.max_fill)), D(v)); }
        case 3: { auto v = pick_int<int>(r); return mk<C>(r, o, "int.plus", +strf::dec(v), D(v)); }
        case 4: { auto v = pick_int<unsigned>(r); auto f = strf::hex(v); return r.pick(2) ? mk<C>(r, o, "hex", *strf::hex(v), D(v)) : mk<C>(r, o, "hex", f, D(v)); }
        case 5: { auto v = pick_int<long long>(r); strf::int_format_static_base_and_punct<10, false> f; set_fmt(r, o, f, false);
                  return mk<C>(r, o, "dec.prec", strf::fmt(v).set_int_format(f), D(v)); }
        case 6: { auto v = pick_int<long long>(r); strf::int_format_static_base_and_punct<10, true> f; set_fmt(r, o, f, false);
                  return mk<C>(r, o, "dec.punct", strf::fmt(v).set_int_format(f), D(v)); }
        case 7: { auto v = pick_int<long long>(r); strf::int_format_static_base_and_punct<10, true> f; set_fmt(r, o, f, false);
                  return mk<C>(r, o, "dec.punct.align", strf::fmt(v).set_int_format(f).set_alignment_format(pick_align(r, o.max_fill)), D(v)); }
        case 8: { auto v = pick_int<unsigned long long>(r); strf::int_format_static_base_and_punct<16, true> f; set_fmt(r, o, f, true);
                  return mk<C>(r, o, "hex.punct.align", strf::fmt(v).set_int_format(f).set_alignment_format(pick_align(r, o.max_fill)), D((long long)v)); }
        case 9: { auto v = pick_int<long long>(r); strf::int_format_static_base_and_punct<8, true> f; set_fmt(r, o, f, true);
                  return mk<C>(r, o, "oct.punct", strf::fmt(v).set_int_format(f), D(v)); }
        case 10: { auto v = pick_int<long long>(r); strf::int_format_static_base_and_punct<2, true> f; set_fmt(r, o, f, true);
                  return mk<C>(r, o, "bin.punct", strf::fmt(v).set_int_format(f), D(v)); }
        case 11: { auto v = pick_int<short>(r); strf::int_format_static_base_and_punct<2, false> f; set_fmt(r, o, f, true);
                  return mk<C>(r, o, "bin.align", strf::fmt(v).set_int_format(f).set_alignment_format(pick_align(r, o.max_fill)), D(v)); }
        case 12: case 13: { auto v = pick_int<long long>(r); strf::int_format f; static const int bs[] = {10, 16, 8, 2}; f.base = bs[r.pick(4)];
                  f.precision = pick_count(r, o.max_fill); f.pad0width = pick_count(r, o.max_fill); f.sign = pick_sign(r); f.showbase = r.pick(2); f.punctuate = r.pick(2);
                  return mk<C>(r, o, "int.dynamic.align", strf::fmt(v).set_int_format(f).set_alignment_format(pick_align(r, o.max_fill)), D(v)); }
        case 14: { const void* p = reinterpret_cast<const void*>((uintptr_t)(r.tape.wide() >> r.pick(64))); return mk<C>(r, o, "pointer", p); }
        case 15: { const void* p = reinterpret_cast<const void*>((uintptr_t)(r.tape.wide() >> r.pick(64))); return mk<C>(r, o, "pointer.align", strf::fmt(p).set_alignment_format(pick_align(r, o.max_fill))); }
        case 16: { auto v = pick_int<unsigned char>(r); strf::int_format_static_base_and_punct<16, false> f; set_fmt(r, o, f, true);
                  return mk<C>(r, o, "hex.prec", strf::fmt((unsigned)v).set_int_format(f), D(v)); }
        default: { auto v = pick_int<unsigned long>(r); return mk<C>(r, o, "dec.punct0", !strf::dec(v), D((long long)v)); }
    }
}
} // namespace sim
