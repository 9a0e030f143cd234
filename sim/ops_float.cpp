#include "gen.hpp"
namespace sim {
namespace {
template <class F> F pick_float(Run& r)
{
    using L = std::numeric_limits<F>;
    switch (r.pick(14)) {
        case 12: case 13: {                    // all nines and halves: rounding changes the number of digits
            static const char* const m[] = {"9", "95", "99", "995", "9995", "99999", "9.5", "1.5", "5", "49", "999999999", "4999999"};
            char b[40]; snprintf(b, sizeof b, "%s%se%d", r.pick(2) ? "-" : "", m[r.pick(12)], r.range(-12, 12) * (r.pick(8) ? 1 : 9));
            return (F)strtod(b, nullptr);
        }
        case 0: if (r.pick(2)) return (F)(r.tape.wide() >> r.pick(64)); return (F)r.pick(100);   // whole numbers of any length
        case 1: return (F)r.pick(100000) / (F)1000;
        case 2: return -(F)r.pick(100000) / (F)7;
        case 3: return L::max();
        case 4: return L::denorm_min();
        case 5: return r.pick(2) ? L::infinity() : -L::infinity();
        case 6: return r.pick(2) ? L::quiet_NaN() : -L::quiet_NaN();
        case 7: return r.pick(2) ? (F)0.0 : (F)-0.0;
        case 8: return (F)std::ldexp(1.0, r.range(-60, 100));
        case 9: return (F)((double)r.tape.wide() * std::pow(10.0, r.range(-30, 20)));
        default: {
            if constexpr (sizeof(F) == 4) { uint32_t u = (uint32_t)r.tape.wide(); float f; memcpy(&f, &u, 4); return f; }
            else { uint64_t u = r.tape.wide(); double f; memcpy(&f, &u, 8); return f; }
        }
    }
}
template <class F> void set_ff(Run& r, const GenOpt& o, F& f)
{
    switch (r.pick(6)) {
        case 0: case 1: f.precision = (decltype(f.precision))-1; break;
        case 2: f.precision = (decltype(f.precision))r.pick(8); break;
        default: f.precision = (decltype(f.precision))pick_count(r, o.max_fill); break;
    }
    f.pad0width = r.pick(2) ? (decltype(f.pad0width))pick_count(r, o.max_fill) : 0;
    f.notation = (strf::float_notation)r.pick(4);
    f.sign = pick_sign(r);
    f.showpoint = r.pick(2);
}
template <class F> std::string ds(F v) { char b[40]; snprintf(b, sizeof b, "%a", (double)v); return b; }
}
template <> Node<SIM_CHAR>* gen_float<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    switch (r.pick(14)) {
        case 0: { auto v = pick_float<double>(r); return mk<C>(r, o, "double", v, ds(v)); }
        case 1: { auto v = pick_float<float>(r); return mk<C>(r, o, "float", v, ds(v)); }
        case 2: { auto v = pick_float<double>(r); return mk<C>(r, o, "double.align", strf::fmt(v).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
        case 3: { auto v = pick_float<double>(r); strf::float_format_no_punct f; set_ff(r, o, f); return mk<C>(r, o, "double.nopunct", strf::fmt(v).set_float_format(f), ds(v)); }
        case 4: { auto v = pick_float<double>(r); strf::float_format_no_punct f; set_ff(r, o, f); return mk<C>(r, o, "double.nopunct.align", strf::fmt(v).set_float_format(f).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
        case 5: { auto v = pick_float<double>(r); strf::float_format f; set_ff(r, o, f); f.punctuate = true; return mk<C>(r, o, "double.punct", strf::fmt(v).set_float_format(f), ds(v)); }
        case 6: case 7: { auto v = pick_float<double>(r); strf::float_format f; set_ff(r, o, f); f.punctuate = r.pick(4) != 0; return mk<C>(r, o, "double.punct.align", strf::fmt(v).set_float_format(f).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
        case 8: { auto v = pick_float<float>(r); return mk<C>(r, o, "float.align", strf::fmt(v).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
        case 9: { auto v = pick_float<float>(r); strf::float_format_no_punct f; set_ff(r, o, f); return mk<C>(r, o, "float.nopunct", strf::fmt(v).set_float_format(f), ds(v)); }
        case 10: { auto v = pick_float<float>(r); strf::float_format_no_punct f; set_ff(r, o, f); return mk<C>(r, o, "float.nopunct.align", strf::fmt(v).set_float_format(f).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
        case 11: { auto v = pick_float<float>(r); strf::float_format f; set_ff(r, o, f); f.punctuate = true; return mk<C>(r, o, "float.punct", strf::fmt(v).set_float_format(f), ds(v)); }
        default: { auto v = pick_float<float>(r); strf::float_format f; set_ff(r, o, f); f.punctuate = r.pick(2) != 0; return mk<C>(r, o, "float.punct.align", strf::fmt(v).set_float_format(f).set_alignment_format(pick_align(r, o.max_fill)), ds(v)); }
    }
}
} // namespace sim
