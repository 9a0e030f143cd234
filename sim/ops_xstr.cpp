#include "gen.hpp"
namespace sim {
namespace {
// a string printable of source type S with the given text
template <class C, class S> Node<C>* str_node(Run& r, const GenOpt& o, const char* const (&names)[8])
{
    Text<S> t = gen_text<S>(r, o, o.max_text);
    auto sv = keep(t);
    std::string d = show(t, 40);
    strf::width_t prec = pick_width(r, o.max_fill);
    switch (r.pick(8)) {
        case 0: return mk<C>(r, o, names[0], strf::transcode(sv), d);
        case 1: return mk<C>(r, o, names[1], strf::transcode(sv).set_alignment_format(pick_align(r, o.max_fill)), d);
        case 2: return mk<C>(r, o, names[2], strf::transcode(sv).p(prec), d);
        case 3: return mk<C>(r, o, names[3], strf::transcode(sv).p(prec).set_alignment_format(pick_align(r, o.max_fill)), d);
        case 4: return mk<C>(r, o, names[4], strf::transcode(sv, pick_charset<S>(r)).set_alignment_format(pick_align(r, o.max_fill)), d);
        case 5: return mk<C>(r, o, names[5], strf::transcode(sv, pick_charset<S>(r)).p(prec).set_alignment_format(pick_align(r, o.max_fill)), d);
        case 6: { GenOpt v = o; v.malformed = false;          // unsafe_transcode requires valid text
                  auto u = keep(gen_text<S>(r, v, o.max_text));
                  return mk<C>(r, o, names[6], strf::unsafe_transcode(u), show(u.data(), u.size(), 40)); }
        default: { GenOpt v = o; v.malformed = false;
                  auto u = keep(gen_text<S>(r, v, o.max_text));
                  return mk<C>(r, o, names[7], strf::unsafe_transcode(u).p(prec).set_alignment_format(pick_align(r, o.max_fill)), show(u.data(), u.size(), 40)); }
    }
}
}
// strings of other character types
template <> Node<SIM_CHAR>* gen_xstr<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    switch (r.pick(3)) {
        case 0: {
            static const char* const n[8] = {"u16.transcode", "u16.transcode.align", "u16.transcode.prec", "u16.transcode.prec.align", "u16.transcode.dyn", "u16.transcode.dyn.prec", "u16.unsafe", "u16.unsafe.prec"};
            return str_node<C, char16_t>(r, o, n);
        }
        case 1: {
            static const char* const n[8] = {"u32.transcode", "u32.transcode.align", "u32.transcode.prec", "u32.transcode.prec.align", "u32.transcode.dyn", "u32.transcode.dyn.prec", "u32.unsafe", "u32.unsafe.prec"};
            return str_node<C, char32_t>(r, o, n);
        }
        default: {
            static const char* const n[8] = {"u8.transcode", "u8.transcode.align", "u8.transcode.prec", "u8.transcode.prec.align", "u8.transcode.dyn", "u8.transcode.dyn.prec", "u8.unsafe", "u8.unsafe.prec"};
            return str_node<C, char>(r, o, n);
        }
    }
}
} // namespace sim
