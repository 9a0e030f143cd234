#include "gen.hpp"
namespace sim {
// strings: formats and source types that ops_str.cpp and ops_xstr.cpp do not have
template <> Node<SIM_CHAR>* gen_str2<SIM_CHAR>(Run& r, const GenOpt& o)
{
    using C = SIM_CHAR;
    using W = std::conditional_t<std::is_same_v<C, wchar_t>, char8_t, wchar_t>;
    GenOpt v = o; v.malformed = false;                    // unsafe_transcode requires valid text
    auto text = [&] { return gen_text<C>(r, o, o.max_text); };
    auto A = [&] { return pick_align(r, o.max_fill); };
    auto W_ = [&] { return pick_width(r, o.max_fill); };
    auto bytes = [&] {                                    // any bytes, for single-byte charsets
        Text<char> t; int n = pick_count(r, o.max_text);
        bool high = r.pick(2);
        for (int i = 0; i < n; ++i) t.push_back((char)(r.pick(high ? 2 : 8) ? 0x20 + r.pick(0x5f) : 0x80 + r.pick(0x80)));
        return keep(t);
    };
    switch (r.pick(18)) {
        case 0: { auto t = gen_text<W>(r, o, o.max_text); return mk<C>(r, o, "w.transcode", strf::transcode(keep(t)), show(t, 40)); }
        case 1: { auto t = gen_text<W>(r, o, o.max_text); return mk<C>(r, o, "w.transcode.prec.align", strf::transcode(keep(t)).p(W_()).set_alignment_format(A()), show(t, 40)); }
        case 2: { auto t = gen_text<W>(r, o, o.max_text); return mk<C>(r, o, "w.sani", strf::sani(keep(t)), show(t, 40)); }
        case 3: { auto t = gen_text<W>(r, v, o.max_text); return mk<C>(r, o, "w.unsafe.align", strf::unsafe_transcode(keep(t)).set_alignment_format(A()), show(t, 40)); }
        case 4: { auto t = bytes(); return mk<C>(r, o, "latin.transcode", strf::transcode(t, strf::iso_8859_1<char>), show(t.data(), t.size(), 40)); }
        case 5: { auto t = bytes(); return mk<C>(r, o, "iso3.sani.align", strf::sani(t, strf::iso_8859_3<char>).set_alignment_format(A()), show(t.data(), t.size(), 40)); }
        case 6: { auto t = bytes(); return mk<C>(r, o, "w1252.prec", strf::transcode(t, strf::windows_1252<char>).p(W_()), show(t.data(), t.size(), 40)); }
        case 7: { auto t = bytes(); return mk<C>(r, o, "w1251.prec.align", strf::transcode(t, strf::windows_1251<char>).p(W_()).set_alignment_format(A()), show(t.data(), t.size(), 40)); }
        case 8: { auto t = text(); return mk<C>(r, o, "sani.prec", strf::sani(keep(t)).p(W_()), show(t, 40)); }
        case 9: { auto t = text(); return mk<C>(r, o, "sani.dyn.prec.align", strf::sani(keep(t), pick_charset<C>(r)).p(W_()).set_alignment_format(A()), show(t, 40)); }
        case 10: { auto t = text(); return mk<C>(r, o, "transcode.same.dyn", strf::transcode(keep(t), pick_charset<C>(r)), show(t, 40)); }
        case 11: { auto t = text(); return mk<C>(r, o, "transcode.same.dyn.align", strf::transcode(keep(t), pick_charset<C>(r)).set_alignment_format(A()), show(t, 40)); }
        case 12: { auto t = text(); return mk<C>(r, o, "transcode.same.plain", strf::transcode(keep(t)).set_alignment_format(A()), show(t, 40)); }
        case 13: { auto t = gen_text<char16_t>(r, v, o.max_text); return mk<C>(r, o, "u16.unsafe.prec.plain", strf::unsafe_transcode(keep(t)).p(W_()), show(t, 40)); }
        case 14: { auto t = gen_text<char>(r, v, o.max_text); return mk<C>(r, o, "u8.unsafe.align", strf::unsafe_transcode(keep(t)).set_alignment_format(A()), show(t, 40)); }
        case 15: { C c = (C)('a' + r.pick(26)); return mk<C>(r, o, "char.align", strf::fmt(c).set_alignment_format(A())); }
        case 16: { char32_t c = r.pick(3) ? (char32_t)pick_codepoint(r) : pick_fill(r); return mk<C>(r, o, "char32.align", strf::fmt(c).set_alignment_format(A())); }
        default: { auto t = gen_text<char32_t>(r, o, o.max_text); for (auto& c : t) if (c == 0) c = '0';
                   return mk<C>(r, o, "u32.c_string.align", strf::transcode(keep_z(t)).set_alignment_format(A()), show(t, 40)); }
    }
}
} // namespace sim
