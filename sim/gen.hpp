// Generators of source text, facets and printables (included by ops_*.cpp).
#pragma once
#include "ops.hpp"
#include <limits>
#include <cmath>

namespace sim {

// ------------------------------------------------------------- text -------
// appends the UTF encoding of u for units of type S (no validity check)
template <class S> void put_u(Text<S>& t, uint32_t u)
{
    if constexpr (sizeof(S) == 1) {
        if (u < 0x80) t.push_back((S)u);
        else if (u < 0x800) { t.push_back((S)(0xC0 | u >> 6)); t.push_back((S)(0x80 | (u & 63))); }
        else if (u < 0x10000) { t.push_back((S)(0xE0 | u >> 12)); t.push_back((S)(0x80 | (u >> 6 & 63))); t.push_back((S)(0x80 | (u & 63))); }
        else { t.push_back((S)(0xF0 | u >> 18)); t.push_back((S)(0x80 | (u >> 12 & 63))); t.push_back((S)(0x80 | (u >> 6 & 63))); t.push_back((S)(0x80 | (u & 63))); }
    } else if constexpr (sizeof(S) == 2) {
        if (u < 0x10000) t.push_back((S)u);
        else { u -= 0x10000; t.push_back((S)(0xD800 | u >> 10)); t.push_back((S)(0xDC00 | (u & 0x3FF))); }
    } else t.push_back((S)u);
}

inline uint32_t pick_codepoint(Run& r)
{
    static const uint32_t two[] = {0x80, 0xA0, 0xA9, 0xE9, 0xFF, 0x100, 0x131, 0x301, 0x3B1, 0x410, 0x5D0, 0x7FF};
    static const uint32_t three[] = {0x800, 0xE01, 0x1100, 0x200D, 0x2018, 0x20AC, 0x2122, 0x3042, 0xD7FF, 0xE000, 0xFE0F, 0xFFFD, 0xFFFF, 0xAC00};
    static const uint32_t four[] = {0x10000, 0x1F600, 0x1F468, 0x1F3FB, 0x20000, 0xE0100, 0x10FFFF, 0x1F1E6};
    // one of each grapheme cluster break property
    static const uint32_t gcb[] = {0x0D, 0x0A, 0x07, 0x0D, 0x600, 0x903, 0x300, 0x200D, 0x1F1E6, 0x1F1F7, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x2764, 0x1F468, 0x1F3FB, 0xFE0F, 0x110BD, 0x200B, 0xA8C5, 0x3030, 0xFE30};
    switch (r.pick(9)) {
        case 7: return gcb[r.pick(24)];
        case 0: case 1: case 2: return (uint32_t)r.range('a', 'z');
        case 3: return (uint32_t)r.range(0x20, 0x7e);
        case 4: return two[r.pick(12)];
        case 5: return three[r.pick(14)];
        case 6: return four[r.pick(8)];
        default: return 0x80 + r.pick(0xD700);
    }
}

template <class S> void put_malformed(Run& r, Text<S>& t)
{
    auto u = [&](uint32_t x) { t.push_back((S)x); };
    if constexpr (sizeof(S) == 1) {
        switch (r.pick(12)) {
            case 0: u(0x80 + r.pick(64)); break;                                   // stray continuation
            case 1: u(0xC3); break;                                                 // truncated 2
            case 2: u(0xE2); u(0x82); break;                                        // truncated 3
            case 3: u(0xF0); u(0x9F); u(0x98); break;                               // truncated 4
            case 4: u(0xC0); u(0x80 + r.pick(64)); break;                           // overlong 2
            case 5: u(0xE0); u(0x80); u(0x80 + r.pick(64)); break;                  // overlong 3
            case 6: u(0xED); u(0xA0 + r.pick(32)); u(0x80 + r.pick(64)); break;     // surrogate
            case 7: u(0xF4); u(0x90); u(0x80); u(0x80); break;                      // above 10FFFF
            case 8: u(0xF5 + r.pick(11)); break;                                    // impossible byte
            case 9: u(0xF0); u(0x9F); break;
            case 10: u(0xE2); break;
            default: u(0xF0); break;
        }
    } else if constexpr (sizeof(S) == 2) {
        switch (r.pick(3)) {
            case 0: u(0xD800 + r.pick(0x400)); break;
            case 1: u(0xDC00 + r.pick(0x400)); break;
            default: u(0xDC00 + r.pick(0x400)); u(0xD800 + r.pick(0x400)); break;
        }
    } else {
        switch (r.pick(4)) {
            case 0: u(0xD800 + r.pick(0x800)); break;
            case 1: u(0x110000 + r.pick(100)); break;
            case 2: u(0x7FFFFFFF - r.pick(3)); break;
            default: u(0xDC00); u(0xD800); break;
        }
    }
}

template <class S> Text<S> gen_text(Run& r, const GenOpt& o, int max_len)
{
    Text<S> t;
    text_must_be_valid = !o.malformed;
    uint32_t kind = r.pick(6);
    int len;
    switch (r.pick(4)) {
        case 0: len = (int)r.pick(12); break;
        case 1: len = 40 + (int)r.pick(40); break;
        default: len = (int)r.pick((uint32_t)max_len + 1); break;
    }
    if (len > max_len) len = max_len;
    if (kind <= 1) {                                     // ASCII
        uint32_t a = r.pick(26);
        for (int i = 0; i < len; ++i) t.push_back((S)('a' + (a + (uint32_t)i) % 26));
        if (kind == 0 || t.empty()) return t;
        for (uint32_t k = r.pick(4) + 1; k--;) {         // with a few specials
            size_t at = r.pick((uint32_t)t.size());
            while (!o.malformed && at < t.size() && ((sizeof(S) == 1 && ((uint32_t)t[at] & 0xC0) == 0x80) || (sizeof(S) == 2 && ((uint32_t)t[at] & 0xFC00) == 0xDC00))) ++at;
            Text<S> x;
            if (o.malformed && r.chance(1, 2)) put_malformed(r, x); else put_u(x, pick_codepoint(r));
            t.insert(t.begin() + (ptrdiff_t)at, x.begin(), x.end());
        }
        return t;
    }
    if (kind == 2) {                                     // one code point repeated
        uint32_t u = pick_codepoint(r);
        while ((int)t.size() < len) put_u(t, u);
        return t;
    }
    if (kind == 3 && o.malformed) {                      // mostly malformed
        while ((int)t.size() < len) { if (r.chance(3, 4)) put_malformed(r, t); else put_u(t, pick_codepoint(r)); }
        return t;
    }
    while ((int)t.size() < len) {
        if (o.malformed && kind == 4 && r.chance(1, 6)) put_malformed(r, t);
        else put_u(t, pick_codepoint(r));
    }
    if (o.malformed && r.chance(1, 4) && !t.empty()) t.resize(t.size() - 1); // cut at the end
    return t;
}

// exact-size copy with the run's lifetime
template <class S> std::basic_string_view<S> keep(const Text<S>& t)
{
    auto* p = arena_array<S>(t.data(), t.size());
    if (block_recorder && !text_must_be_valid) block_recorder->push_back({p, t.size(), sizeof(S), false});
    return {p, t.size()};
}
template <class S> const S* keep_z(Text<S> t)
{
    for (auto& c : t) if (c == 0) c = (S)'0';
    t.push_back(0);
    auto* p = arena_array<S>(t.data(), t.size());
    if (block_recorder && !text_must_be_valid) block_recorder->push_back({p, t.size() - 1, sizeof(S), true});
    return p;
}

// ------------------------------------------------------------ formats -----
inline char32_t pick_fill(Run& r)
{
    switch (r.pick(8)) {
        case 0: case 1: return U' ';
        case 2: return U'*';
        case 3: return U'\u00b7';
        case 4: return U'\u20ac';
        case 5: return U'\U0001F600';
        case 6: return (char32_t)(0xD800 + r.pick(2) * 0x400);
        default: return r.pick(2) ? (char32_t)0x110000 : U'\uFFFD';
    }
}
inline int pick_count(Run& r, int max)     // widths, precisions, repetitions
{
    switch (r.pick(5)) {
        case 0: return 0;
        case 1: return (int)r.pick((uint32_t)std::min(max, 12) + 1);
        case 2: return (int)r.pick((uint32_t)std::min(max, 70) + 1);
        case 3: return std::min(max, 60 + (int)r.pick(10));
        default: return (int)r.pick((uint32_t)max + 1);
    }
}
inline strf::width_t pick_width(Run& r, int max)
{
    int w = std::min(pick_count(r, max), 32767);
    if (r.chance(1, 8)) return strf::width_t(w) + strf::width_t::from_underlying((std::int32_t)r.pick(0xFFFF));
    return strf::width_t(w);
}
inline strf::alignment_format pick_align(Run& r, int max)
{
    strf::alignment_format a;
    a.fill = pick_fill(r);
    a.width = pick_width(r, max);
    a.alignment = (strf::text_alignment)r.pick(3);
    return a;
}
inline strf::showsign pick_sign(Run& r)
{
    static const strf::showsign s[] = {strf::showsign::negative_only, strf::showsign::positive_also, strf::showsign::fill_instead_of_positive};
    return s[r.pick(3)];
}

// ------------------------------------------------------------- facets -----
inline strf::digits_grouping pick_grouping(Run& r)
{
    static const char* const gs[] = {"\3", "", "\1", "\3\2", "\x1e", "\1\1\1\1\1\1", "\4\3\2\1", "\3\x7f", "\2\2\1\x7f", "\x1e\1", "\1\x7f", "\5\4"};
    return strf::digits_grouping(gs[r.pick(12)]);
}
inline char32_t pick_sep(Run& r)
{
    static const char32_t s[] = {U',', U'.', U'\'', U'\u00a0', U'\u202f', U'\u066c', U'\U00010E60', (char32_t)0xD800, (char32_t)0x110000, U'\u20ac'};
    return s[r.pick(10)];
}
template <int B> strf::numpunct<B> pick_numpunct(Run& r)
{
    strf::numpunct<B> p(pick_grouping(r));
    p.thousands_sep(pick_sep(r));
    p.decimal_point(pick_sep(r));
    return p;
}
inline strf::lettercase pick_case(Run& r)
{
    static const strf::lettercase c[] = {strf::lowercase, strf::uppercase, strf::mixedcase};
    return c[r.pick(3)];
}

template <class C> strf::dynamic_charset<C> pick_charset(Run& r)
{
    if constexpr (std::is_same_v<C, char>) {
        switch (r.pick(8)) {
            case 0: case 1: return strf::utf8_t<char>().to_dynamic();
            case 2: return strf::ascii_t<char>().to_dynamic();
            case 3: return strf::iso_8859_1_t<char>().to_dynamic();
            case 4: return strf::iso_8859_3_t<char>().to_dynamic();
            case 5: return strf::iso_8859_15_t<char>().to_dynamic();
            case 6: return strf::windows_1252_t<char>().to_dynamic();
            default: return strf::windows_1251_t<char>().to_dynamic();
        }
    } else { (void)r; return strf::utf_t<C>().to_dynamic(); }
}

// one of the library's width calculators, chosen at run time
struct AnyWidth {
    using category = strf::width_calculator_c;
    uint32_t k = 0;
    template <class F> auto with(F&& f) const
    {
        switch (k) { case 0: return f(strf::fast_width); case 1: return f(strf::width_as_fast_u32len); case 2: return f(strf::width_as_u32len); default: return f(strf::std_width_calc); }
    }
    template <class CS> strf::width_t char_width(CS c, typename CS::code_unit x) const { return with([&](auto w) { return w.char_width(c, x); }); }
    template <class CS> strf::width_t str_width(CS c, strf::width_t l, const typename CS::code_unit* a, const typename CS::code_unit* b) const { return with([&](auto w) { return w.str_width(c, l, a, b); }); }
    template <class CS> auto str_width_and_pos(CS c, strf::width_t l, const typename CS::code_unit* a, const typename CS::code_unit* b) const { return with([&](auto w) { return w.str_width_and_pos(c, l, a, b); }); }
};

// Facet packs. 0: none; 1: punctuation, case, notifier; 2: as 1 plus a charset
// known only at run time and any width calculator.
template <class C> auto pack1(Run& r, const GenOpt& o)
{
    return strf::pack(pick_numpunct<10>(r), pick_numpunct<16>(r), pick_numpunct<8>(r), pick_numpunct<2>(r),
                      pick_case(r), strf::transcoding_error_notifier_ptr{o.notifier}, o.tr);
}
template <class C> auto pack2(Run& r, const GenOpt& o)
{
    return strf::pack(pick_numpunct<10>(r), pick_numpunct<16>(r), pick_numpunct<8>(r), pick_numpunct<2>(r),
                      pick_case(r), strf::transcoding_error_notifier_ptr{o.notifier}, o.tr,
                      pick_charset<C>(r), AnyWidth{r.pick(4)});
}

template <class C, class P> Node<C>* mk(Run& r, const GenOpt& o, const char* kind, const P& p, std::string desc = {})
{
    // the notifier of the options must see every error: pack 0 has none
    uint32_t k = r.pick(3);
    if ((o.notifier || o.tr.fn) && k == 0) k = 1;
    Node<C>* n;
    auto build = [&](const auto& fp) {
        using FP = std::decay_t<decltype(fp)>;
        Node<C>* x = make<NodeImpl<C, P, FP>>(p, fp);
        return x;
    };
    switch (k) {
        case 0: n = build(strf::pack()); break;
        case 1: n = build(pack1<C>(r, o)); break;
        default: n = build(pack2<C>(r, o)); break;
    }
    n->kind = kind;
    char b[16]; snprintf(b, sizeof b, "/F%u", k);
    n->desc = std::string(kind) + b + (desc.empty() ? "" : "(" + desc + ")");
    return n;
}
} // namespace sim
