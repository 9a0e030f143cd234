#include "gen.hpp"
namespace sim {
// strings of the destination's own character type, characters
template <> Node<SIM_CHAR>* gen_str<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    auto text = [&] { return gen_text<C>(r, o, o.max_text); };
    switch (r.pick(16)) {
        case 0: { auto t = text(); return mk<C>(r, o, "string_view", keep(t), show(t, 40)); }
        case 1: { auto t = text(); return mk<C>(r, o, "c_string", keep_z(t), show(t, 40)); }
        case 2: { auto t = text(); return mk<C>(r, o, "string.align", strf::fmt(keep(t)).set_alignment_format(pick_align(r, o.max_fill)), show(t, 40)); }
        case 3: { auto t = text(); return mk<C>(r, o, "string.prec", strf::fmt(keep(t)).p(pick_width(r, o.max_fill)), show(t, 40)); }
        case 4: { auto t = text(); return mk<C>(r, o, "string.prec.align", strf::fmt(keep(t)).p(pick_width(r, o.max_fill)).set_alignment_format(pick_align(r, o.max_fill)), show(t, 40)); }
        case 5: { auto t = text(); return mk<C>(r, o, "sani", strf::sani(keep(t)), show(t, 40)); }
        case 6: { auto t = text(); return mk<C>(r, o, "sani.align", strf::sani(keep(t)).set_alignment_format(pick_align(r, o.max_fill)), show(t, 40)); }
        case 7: { auto t = text(); return mk<C>(r, o, "sani.charset", strf::sani(keep(t), pick_charset<C>(r)), show(t, 40)); }
        case 8: { auto t = text(); return mk<C>(r, o, "transcode.same", strf::transcode(keep(t), pick_charset<C>(r)).p(pick_width(r, o.max_fill)), show(t, 40)); }
        case 9: { C c = (C)('a' + r.pick(26)); return mk<C>(r, o, "char", c); }
        case 10: { C c = (C)('a' + r.pick(26)); return mk<C>(r, o, "char.multi", strf::multi(c, pick_count(r, o.max_fill))); }
        case 11: { C c = (C)('a' + r.pick(26)); return mk<C>(r, o, "char.multi.align", strf::multi(c, pick_count(r, o.max_fill)).set_alignment_format(pick_align(r, o.max_fill))); }
        case 12: { char32_t c = r.pick(3) ? (char32_t)pick_codepoint(r) : pick_fill(r); return mk<C>(r, o, "char32", c); }
        case 13: { char32_t c = r.pick(3) ? (char32_t)pick_codepoint(r) : pick_fill(r); return mk<C>(r, o, "char32.multi", strf::multi(c, pick_count(r, o.max_fill))); }
        case 14: { char32_t c = r.pick(3) ? (char32_t)pick_codepoint(r) : pick_fill(r); return mk<C>(r, o, "char32.multi.align", strf::multi(c, pick_count(r, o.max_fill)).set_alignment_format(pick_align(r, o.max_fill))); }
        default: {
            if constexpr (std::is_same_v<C, char>) {          // static single-byte charsets as destination
                auto t = gen_text<char16_t>(r, o, o.max_text);
                auto p = strf::transcode(keep(t)).set_alignment_format(pick_align(r, o.max_fill));
                strf::transcoding_error_notifier_ptr np{o.notifier};
                Node<C>* n;
                switch (r.pick(3)) {
                    case 0: n = make<NodeImpl<C, decltype(p), decltype(strf::pack(strf::windows_1252<char>, np))>>(p, strf::pack(strf::windows_1252<char>, np)); break;
                    case 1: n = make<NodeImpl<C, decltype(p), decltype(strf::pack(strf::ascii<char>, np))>>(p, strf::pack(strf::ascii<char>, np)); break;
                    default: n = make<NodeImpl<C, decltype(p), decltype(strf::pack(strf::iso_8859_7<char>, np))>>(p, strf::pack(strf::iso_8859_7<char>, np)); break;
                }
                n->kind = "to_single_byte"; n->desc = std::string("to_single_byte(") + show(t, 40) + ")";
                return n;
            } else {
                auto t = gen_text<C>(r, o, o.max_text);
                return mk<C>(r, o, "sani.prec.align", strf::sani(keep(t), strf::utf_t<C>()).p(pick_width(r, o.max_fill)).set_alignment_format(pick_align(r, o.max_fill)), show(t, 40));
            }
        }
    }
}
} // namespace sim
