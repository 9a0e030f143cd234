// Executable reference model of transcoding: how a source splits into items
// (characters, invalid sequences, unsupported characters), what each item
// becomes, and where a step with a limited output has to stop.
// Written independently of the library, except that the tables of the
// single-byte charsets are asked for one character at a time.
#pragma once
#include "dest.hpp"
#include "gen.hpp"

namespace sim {

enum class Kind : uint8_t { ok, invalid, unsupported };
template <class D> struct Item {
    uint32_t off, len; uint32_t cp; Kind kind; uint8_t n; D out[4];
};

// one item of the source; cp = 0xFFFD for invalid sequences
struct Decoded { uint32_t len, cp; bool bad; };

template <class S> Decoded decode_utf(const S* p, size_t n, bool lax)
{
    auto surr = [](uint32_t u) { return u >= 0xD800 && u <= 0xDFFF; };
    if constexpr (sizeof(S) == 4) {
        auto u = (uint32_t)*p;
        if (u >= 0x110000 || (!lax && surr(u))) return {1, 0xFFFD, true};
        return {1, u, false};
    } else if constexpr (sizeof(S) == 2) {
        auto u = (uint32_t)(uint16_t)*p;
        if (!surr(u)) return {1, u, false};
        if (u < 0xDC00 && n > 1) {
            auto v = (uint32_t)(uint16_t)p[1];
            if (v >= 0xDC00 && v <= 0xDFFF) return {2, 0x10000 + ((u & 0x3FF) << 10 | (v & 0x3FF)), false};
        }
        if (lax) return {1, u, false};
        return {1, 0xFFFD, true};
    } else {
        // longest prefix of a well-formed sequence, at least one byte
        // (table 3-7 of the Unicode standard)
        auto b = [&](size_t i) { return (uint32_t)(uint8_t)p[i]; };
        uint32_t b0 = b(0);
        if (b0 < 0x80) return {1, b0, false};
        int len = b0 >= 0xC2 && b0 <= 0xDF ? 2 : b0 >= 0xE0 && b0 <= 0xEF ? 3 : b0 >= 0xF0 && b0 <= 0xF4 ? 4 : 0;
        if (!len) return {1, 0xFFFD, true};
        uint32_t lo = 0x80, hi = 0xBF;
        if (b0 == 0xE0) lo = 0xA0;
        if (b0 == 0xED && !lax) hi = 0x9F;
        if (b0 == 0xF0) lo = 0x90;
        if (b0 == 0xF4) hi = 0x8F;
        uint32_t u = b0 & (0xFFu >> (len + 1));
        for (int i = 1; i < len; ++i) {
            if ((size_t)i >= n || b((size_t)i) < lo || b((size_t)i) > hi) return {(uint32_t)i, 0xFFFD, true};
            u = u << 6 | (b((size_t)i) & 0x3F);
            lo = 0x80; hi = 0xBF;
        }
        return {(uint32_t)len, u, false};
    }
}

inline bool is_utf(strf::charset_id id)
{ return id == strf::csid_utf8 || id == strf::csid_utf16 || id == strf::csid_utf32; }

template <class S, class D> std::vector<Item<D>> model_items
    (const S* p, size_t n, strf::dynamic_charset<S> sc, strf::dynamic_charset<D> dc, bool lax)
{
    InSim g;
    std::vector<Item<D>> v;
    bool su = is_utf(sc.id()), du = is_utf(dc.id());
    for (size_t i = 0; i < n;) {
        Decoded d;
        if (su) d = decode_utf(p + i, n - i, lax);
        else { auto u = (uint32_t)sc.decode_unit(p[i]); d = {1, u, u == 0xFFFD}; }
        Item<D> it{(uint32_t)i, d.len, d.cp, d.bad ? Kind::invalid : Kind::ok, 0, {}};
        Text<D> t;
        if (du) put_u(t, d.cp);
        else if (d.bad || d.cp == 0xFFFD) t.push_back((D)'?');
        else {
            D c{};
            if (dc.validate(d.cp) < 0) { it.kind = Kind::unsupported; c = (D)'?'; }
            else dc.encode_char(&c, d.cp);
            t.push_back(c);
        }
        it.n = (uint8_t)t.size();
        for (size_t k = 0; k < t.size(); ++k) it.out[k] = t[k];
        v.push_back(it);
        i += d.len;
    }
    return v;
}

struct Predicted { size_t items = 0, units = 0; strf::transcode_stop_reason why = strf::transcode_stop_reason::completed; };

// items [from, to) into cap units
template <class D> Predicted predict(const std::vector<Item<D>>& v, size_t from, size_t to, size_t cap, strf::transcode_flags f)
{
    using R = strf::transcode_stop_reason;
    Predicted r;
    for (size_t i = from; i < to; ++i) {
        const auto& it = v[i];
        if (it.kind == Kind::invalid && (f & strf::transcode_flags::stop_on_invalid_sequence) != strf::transcode_flags::none) { r.why = R::invalid_sequence; return r; }
        if (it.kind == Kind::unsupported && (f & strf::transcode_flags::stop_on_unsupported_codepoint) != strf::transcode_flags::none) { r.why = R::unsupported_codepoint; return r; }
        if (r.units + it.n > cap) { r.why = R::insufficient_output_space; return r; }
        r.units += it.n; ++r.items;
    }
    return r;
}
template <class D> Text<D> model_text(const std::vector<Item<D>>& v, size_t from, size_t to)
{
    Text<D> t;
    for (size_t i = from; i < to; ++i) t.insert(t.end(), v[i].out, v[i].out + v[i].n);
    return t;
}

inline const char* reason_name(strf::transcode_stop_reason r)
{
    using R = strf::transcode_stop_reason;
    switch (r) {
        case R::completed: return "completed";
        case R::insufficient_output_space: return "insufficient_output_space";
        case R::unsupported_codepoint: return "unsupported_codepoint";
        case R::invalid_sequence: return "invalid_sequence";
    }
    return "?";
}

// ------------------------------------------------ the library's interface --
// All ways of transcoding between two charsets, behind function pointers.
// An operation that the pair does not have is null.
template <class S, class D> struct Trans {
    using R = strf::decode_encode_result<S, D>;
    using Z = strf::decode_encode_size_result<S>;
    using N = strf::transcoding_error_notifier*;
    using F = strf::transcode_flags;
    const char* name;
    bool direct;
    strf::dynamic_charset<S> sc; strf::dynamic_charset<D> dc;
    Trans(strf::dynamic_charset<S> a, strf::dynamic_charset<D> b) : sc(a), dc(b) {}
    enum { plain, unsafe, composed, unsafe_composed, func, unsafe_func, method, by_template, ways };
    R (*array[ways])(const Trans&, const S*, const S*, D*, D*, N, F);
    Z (*dest[ways])(const Trans&, const S*, const S*, strf::destination<D>&, N, F);
    Z (*size[ways])(const Trans&, const S*, const S*, ptrdiff_t, F);
};
inline const char* way_name(int w)
{
    static const char* const n[] = {"transcode", "unsafe_transcode", "decode_encode", "unsafe_decode_encode", "transcode_func", "unsafe_transcode_func", "transcoder.transcode", "transcode<...>"};
    return n[w];
}
inline bool way_is_unsafe(int w) { return w == 1 || w == 3 || w == 5; }

template <class S, class D, class SC, class DC> struct TransFill {
    using T = Trans<S, D>;
    using R = typename T::R; using Z = typename T::Z; using N = typename T::N; using F = typename T::F;
    static SC sc(const T& t) { if constexpr (std::is_same_v<SC, strf::dynamic_charset<S>>) return t.sc; else return SC(); }
    static DC dc(const T& t) { if constexpr (std::is_same_v<DC, strf::dynamic_charset<D>>) return t.dc; else return DC(); }
    static auto tr(const T& t) { return strf::find_transcoder(sc(t), dc(t)); }
    static R r(strf::transcode_result<S, D> x) { return {x.src_ptr, x.dst_ptr, 0, x.stop_reason}; }
    static Z z(strf::transcode_size_result<S> x) { return {x.ssize, x.src_ptr, 0, x.stop_reason}; }
    static void fill(T& t)
    {
        using A = const S*; using DD = strf::destination<D>&; using L = ptrdiff_t;
        for (int i = 0; i < T::ways; ++i) t.array[i] = nullptr, t.dest[i] = nullptr, t.size[i] = nullptr;
        t.array[T::plain] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return strf::transcode(sc(t), dc(t), a, b, c, d, n, f); };
        t.array[T::unsafe] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return strf::unsafe_transcode(sc(t), dc(t), a, b, c, d, n, f); };
        t.array[T::composed] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return strf::decode_encode(sc(t), dc(t), a, b, c, d, n, f); };
        t.array[T::unsafe_composed] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return strf::unsafe_decode_encode(sc(t), dc(t), a, b, c, d, n, f); };
        t.dest[T::plain] = [](const T& t, A a, A b, DD d, N n, F f) -> Z { return strf::transcode(sc(t), dc(t), a, b, d, n, f); };
        t.dest[T::unsafe] = [](const T& t, A a, A b, DD d, N n, F f) -> Z { return strf::unsafe_transcode(sc(t), dc(t), a, b, d, n, f); };
        t.dest[T::composed] = [](const T& t, A a, A b, DD d, N n, F f) -> Z { return strf::decode_encode(sc(t), dc(t), a, b, d, n, f); };
        t.size[T::plain] = [](const T& t, A a, A b, L l, F f) -> Z { return strf::transcode_size(sc(t), dc(t), a, b, l, f); };
        t.size[T::unsafe] = [](const T& t, A a, A b, L l, F f) -> Z { return strf::unsafe_transcode_size(sc(t), dc(t), a, b, l, f); };
        t.size[T::composed] = [](const T& t, A a, A b, L l, F f) -> Z { return strf::decode_encode_size(sc(t), dc(t), a, b, l, f); };
        t.size[T::unsafe_composed] = [](const T& t, A a, A b, L l, F f) -> Z { return strf::unsafe_decode_encode_size(sc(t), dc(t), a, b, l, f); };
        auto x = tr(t);
        t.direct = x.transcode_func() != nullptr;
        if (t.direct) {
            t.array[T::func] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return r(tr(t).transcode_func()(a, b, c, d, n, f)); };
            t.array[T::unsafe_func] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return r(tr(t).unsafe_transcode_func()(a, b, c, d, n, f)); };
            t.array[T::method] = [](const T& t, A a, A b, D* c, D* d, N n, F f) -> R { return r(tr(t).transcode(a, b, c, d, n, f)); };
            t.dest[T::func] = [](const T& t, A a, A b, DD d, N n, F f) -> Z { return z(strf::transcode(tr(t).transcode_func(), a, b, d, n, f)); };
            t.dest[T::unsafe_func] = [](const T& t, A a, A b, DD d, N n, F f) -> Z { return z(strf::transcode(tr(t).unsafe_transcode_func(), a, b, d, n, f)); };
            t.size[T::func] = [](const T& t, A a, A b, L l, F f) -> Z { return z(tr(t).transcode_size_func()(a, b, l, f)); };
            t.size[T::unsafe_func] = [](const T& t, A a, A b, L l, F f) -> Z { return z(tr(t).unsafe_transcode_size_func()(a, b, l, f)); };
            t.size[T::method] = [](const T& t, A a, A b, L l, F f) -> Z { return z(tr(t).transcode_size(a, b, l, f)); };
        }
        if constexpr (std::is_same_v<SC, strf::utf_t<S>> && std::is_same_v<DC, strf::utf_t<D>>) {
            t.array[T::by_template] = [](const T&, A a, A b, D* c, D* d, N n, F f) -> R { return strf::transcode<strf::utf_t, strf::utf_t>(a, b, c, d, n, f); };
            t.dest[T::by_template] = [](const T&, A a, A b, DD d, N n, F f) -> Z { return strf::transcode<strf::utf_t, strf::utf_t>(a, b, d, n, f); };
            t.size[T::by_template] = [](const T&, A a, A b, L l, F f) -> Z { return strf::transcode_size<strf::utf_t, DC>(a, b, l, f); };
        }
    }
};
template <class S, class D, class SC, class DC> Trans<S, D> make_trans(const char* name, SC sc, DC dc)
{
    Trans<S, D> t(strf::dynamic_charset<S>{sc}, strf::dynamic_charset<D>{dc});
    t.name = name;
    TransFill<S, D, SC, DC>::fill(t);
    return t;
}

inline uint32_t pick_latin(Run& r)   // characters found in single-byte charsets
{
    static const uint32_t x[] = {0x20AC, 0x2018, 0x0160, 0x0152, 0x0178, 0x2122, 0x0401, 0x0411, 0x044F, 0x03B1, 0x05D0, 0x0E01, 0x2116, 0x0126, 0x02D8, 0x0081, 0x00A4, 0x00B4, 0x00FF};
    return r.pick(2) ? 0xA0 + r.pick(0x60) : x[r.pick(19)];
}

// one-byte charsets by number
inline strf::dynamic_charset<char> sbc(uint32_t k)
{
    switch (k) {
        case 0: return strf::ascii_t<char>().to_dynamic();
        case 1: return strf::iso_8859_1_t<char>().to_dynamic();
        case 2: return strf::iso_8859_2_t<char>().to_dynamic();
        case 3: return strf::iso_8859_3_t<char>().to_dynamic();
        case 4: return strf::iso_8859_4_t<char>().to_dynamic();
        case 5: return strf::iso_8859_5_t<char>().to_dynamic();
        case 6: return strf::iso_8859_6_t<char>().to_dynamic();
        case 7: return strf::iso_8859_7_t<char>().to_dynamic();
        case 8: return strf::iso_8859_8_t<char>().to_dynamic();
        case 9: return strf::iso_8859_9_t<char>().to_dynamic();
        case 10: return strf::iso_8859_10_t<char>().to_dynamic();
        case 11: return strf::iso_8859_11_t<char>().to_dynamic();
        case 12: return strf::iso_8859_13_t<char>().to_dynamic();
        case 13: return strf::iso_8859_14_t<char>().to_dynamic();
        case 14: return strf::iso_8859_15_t<char>().to_dynamic();
        case 15: return strf::iso_8859_16_t<char>().to_dynamic();
        case 16: return strf::windows_1250_t<char>().to_dynamic();
        case 17: return strf::windows_1251_t<char>().to_dynamic();
        case 18: return strf::windows_1252_t<char>().to_dynamic();
        case 19: return strf::windows_1253_t<char>().to_dynamic();
        case 20: return strf::windows_1254_t<char>().to_dynamic();
        case 21: return strf::windows_1255_t<char>().to_dynamic();
        case 22: return strf::windows_1256_t<char>().to_dynamic();
        case 23: return strf::windows_1257_t<char>().to_dynamic();
        default: return strf::windows_1258_t<char>().to_dynamic();
    }
}
constexpr uint32_t num_sbc = 25;
} // namespace sim
