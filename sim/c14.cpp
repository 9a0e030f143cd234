// C14: numeric punctuation taken from a simulated C locale.
#include "gen.hpp"
#include "history.hpp"
#include <strf/locale.hpp>
#include <clocale>
#include <langinfo.h>
#include <sanitizer/asan_interface.h>
#include <locale.h>

// internal functions: a tree that has them no more (or otherwise) is no error
namespace absent { struct Absent {}; Absent parse_win_grouping(...); Absent decode_first_char_from_utf16(...); }
namespace win {
using namespace strf::detail;
using namespace absent;
template <class P> auto grouping(P p) { if constexpr (std::is_same_v<decltype(parse_win_grouping(p)), strf::digits_grouping>) return parse_win_grouping(p); else return absent::Absent(); }
template <class P> auto first_char(P p) { if constexpr (std::is_same_v<decltype(decode_first_char_from_utf16(p)), char32_t>) return decode_first_char_from_utf16(p); else return absent::Absent(); }
}
namespace sim {
namespace {
// what the bytes from 0x80 stand for, from the standards
const uint16_t latin3[128] = {
    0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f,
    0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f,
    0xa0, 0x126, 0x2d8, 0xa3, 0xa4, 0xfffd, 0x124, 0xa7, 0xa8, 0x130, 0x15e, 0x11e, 0x134, 0xad, 0xfffd, 0x17b,
    0xb0, 0x127, 0xb2, 0xb3, 0xb4, 0xb5, 0x125, 0xb7, 0xb8, 0x131, 0x15f, 0x11f, 0x135, 0xbd, 0xfffd, 0x17c,
    0xc0, 0xc1, 0xc2, 0xfffd, 0xc4, 0x10a, 0x108, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
    0xfffd, 0xd1, 0xd2, 0xd3, 0xd4, 0x120, 0xd6, 0xd7, 0x11c, 0xd9, 0xda, 0xdb, 0xdc, 0x16c, 0x15c, 0xdf,
    0xe0, 0xe1, 0xe2, 0xfffd, 0xe4, 0x10b, 0x109, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xee, 0xef,
    0xfffd, 0xf1, 0xf2, 0xf3, 0xf4, 0x121, 0xf6, 0xf7, 0x11d, 0xf9, 0xfa, 0xfb, 0xfc, 0x16d, 0x15d, 0x2d9};
const uint16_t latin9[128] = {
    0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f,
    0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f,
    0xa0, 0xa1, 0xa2, 0xa3, 0x20ac, 0xa5, 0x160, 0xa7, 0x161, 0xa9, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf,
    0xb0, 0xb1, 0xb2, 0xb3, 0x17d, 0xb5, 0xb6, 0xb7, 0x17e, 0xb9, 0xba, 0xbb, 0x152, 0x153, 0x178, 0xbf,
    0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
    0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf,
    0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xee, 0xef,
    0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff};

// ------------------------------------------------- the C library's locale --
struct Loc { std::string name, codeset, point, sep, grouping; };
struct World {
    Run* r = nullptr;
    std::vector<Loc> locs;
    size_t current = 0;
    bool inside = false;                        // in locale_numpunct()
    // what the program sees: exact-size blocks that die when the locale changes
    char* codeset = nullptr; char* point = nullptr; char* sep = nullptr; char* grouping = nullptr;
    lconv data;
    uint64_t switches = 0, asked = 0;
    bool fixed = false;                         // the fields keep their addresses
} *W = nullptr;
char* block(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
void drop(char*& p) { if (p) { memset(p, '7', strlen(p)); free(p); } p = nullptr; }
// Some C libraries keep the fields at fixed addresses and rewrite them there.
constexpr size_t field_space = 128;
void refill(char*& p, const std::string& s)
{
    if (!p) p = (char*)malloc(field_space);
    ASAN_UNPOISON_MEMORY_REGION(p, field_space);
    memset(p, '7', field_space);
    memcpy(p, s.c_str(), s.size() + 1);
    ASAN_POISON_MEMORY_REGION(p + s.size() + 1, field_space - s.size() - 1);
}
void drop_field(char*& p) { if (p) { ASAN_UNPOISON_MEMORY_REGION(p, field_space); free(p); } p = nullptr; }
void drop_all()
{
    if (W->fixed) { drop_field(W->codeset); drop_field(W->point); drop_field(W->sep); drop_field(W->grouping); return; }
    drop(W->codeset); drop(W->point); drop(W->sep); drop(W->grouping);
}
void publish()
{
    InSim g;
    const Loc& l = W->locs[W->current];
    if (W->fixed) { refill(W->codeset, l.codeset); refill(W->point, l.point); refill(W->sep, l.sep); refill(W->grouping, l.grouping); }
    else { drop_all(); W->codeset = block(l.codeset); W->point = block(l.point); W->sep = block(l.sep); W->grouping = block(l.grouping); }
    memset(&W->data, 0, sizeof W->data);
    W->data.decimal_point = W->point; W->data.thousands_sep = W->sep; W->data.grouping = W->grouping;
    static char none[] = "";
    W->data.int_curr_symbol = W->data.currency_symbol = W->data.mon_decimal_point = W->data.mon_thousands_sep = W->data.mon_grouping = W->data.positive_sign = W->data.negative_sign = none;
}
void switch_to(size_t i, const char* when)
{
    InSim g;
    W->current = i; ++W->switches;
    publish();
    SIM_COUNT("fault.locale_switch");
    ev("the locale becomes %zu (%s)", i, when);
    cur->note(0x100 + i);
}

// ------------------------------------------------------------- the model --
struct Punct {
    char32_t point = '.', sep = ',';
    std::vector<int> groups; bool repeat = false;     // least significant first
    bool operator==(const Punct&) const = default;
};
// first character of s, or U+FFFD
char32_t first_char(const std::string& s, const std::string& codeset)
{
    auto b = [&](size_t i) { return i < s.size() ? (unsigned)(unsigned char)s[i] : 0u; };
    auto cont = [&](size_t i) { return (b(i) & 0xC0) == 0x80; };
    if (codeset == "ISO-8859-1") return b(0);
    if (codeset == "ISO-8859-3") return b(0) < 0x80 ? b(0) : latin3[b(0) - 0x80];
    if (codeset == "ISO-8859-15") return b(0) < 0x80 ? b(0) : latin9[b(0) - 0x80];
    unsigned u;
    if (b(0) >= 0xC2 && b(0) < 0xE0 && cont(1)) return (b(0) & 31) << 6 | (b(1) & 63);
    if (b(0) >= 0xE0 && b(0) < 0xF0 && cont(1) && cont(2)) {
        u = (b(0) & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63);
        return u < 0x800 || (u >= 0xD800 && u < 0xE000) ? 0xFFFD : u;
    }
    if (b(0) >= 0xF0 && b(0) < 0xF5 && cont(1) && cont(2) && cont(3)) {
        u = (b(0) & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 | (b(3) & 63);
        return u < 0x10000 || u > 0x10FFFF ? 0xFFFD : u;
    }
    return 0xFFFD;
}
bool known_codeset(const std::string& c) { return c == "UTF-8" || c == "ISO-8859-1" || c == "ISO-8859-3" || c == "ISO-8859-15"; }
void normalise(Punct& p, std::vector<int> g, bool repeat, bool bad)
{
    p.groups.clear(); p.repeat = false;
    if (bad || g.empty() || g.size() > 6) return;
    if (repeat) while (g.size() > 1 && g[g.size() - 2] == g.back()) g.pop_back();
    p.groups = g; p.repeat = repeat;
}
Punct model(const Loc& l)
{
    Punct p;
    std::vector<int> g; bool repeat = true, bad = false;
    for (unsigned char c : l.grouping) {
        if (c >= 0x7F) { repeat = false; break; }
        if (c == 0 || c > 31) bad = true; else g.push_back(c);
    }
    normalise(p, g, repeat, bad);
    auto high = [](const std::string& s) { return (unsigned char)s[0] >= 0x80; };
    p.point = l.point.empty() ? 0xFFFD : !high(l.point) ? (char32_t)l.point[0] : known_codeset(l.codeset) ? first_char(l.point, l.codeset) : 0xFFFD;
    if (p.groups.empty()) return p;
    if (l.sep.empty()) { p.groups.clear(); p.repeat = false; }
    else if (!high(l.sep)) p.sep = (char32_t)l.sep[0];
    else if (!known_codeset(l.codeset)) p.sep = 0xA0;
    else {
        p.sep = first_char(l.sep, l.codeset);
        if (p.sep == 0xFFFD) { p.groups.clear(); p.repeat = false; p.sep = ','; }
    }
    if (p.groups.empty()) p.sep = ',';
    return p;
}
std::u32string group_digits(const std::string& d, const Punct& p)
{
    std::u32string out;                        // built backwards
    size_t gi = 0, in = 0;
    for (size_t i = d.size(); i-- > 0;) {
        if (gi < p.groups.size() && in == (size_t)p.groups[gi]) {
            out.push_back(p.sep); in = 0;
            if (gi + 1 < p.groups.size()) ++gi; else if (!p.repeat) gi = p.groups.size();
        }
        out.push_back((char32_t)d[i]); ++in;
    }
    return {out.rbegin(), out.rend()};
}
std::string show_punct(const Punct& p)
{
    char b[60]; snprintf(b, sizeof b, "point U+%04X separator U+%04X groups", (unsigned)p.point, (unsigned)p.sep);
    std::string s = b;
    for (int g : p.groups) s += ' ' + std::to_string(g);
    return s + (p.repeat ? " repeated" : "");
}
Punct extract(const strf::numpunct<10>& n)
{
    Punct p; p.point = n.decimal_point();
    auto g = n.grouping();
    if (g.empty()) return p;
    p.sep = n.thousands_sep();
    std::vector<int> v; bool rep = false;
    for (auto it = g.get_iterator(); !it.ended();) {
        v.push_back(it.current());
        if (it.is_last()) { rep = it.shall_repeat_current(); break; }
        it.advance();
    }
    normalise(p, v, rep, false);
    return p;
}

// ------------------------------------------------------------ snapshots ---
struct Snap { strf::numpunct<10> n; Punct m; size_t loc; };
void take(std::vector<Snap>& snaps, const char* when)
{
    const size_t before = W->current;
    Snap s;
    W->inside = true;
    s.n = strf::locale_numpunct();
    W->inside = false;
    InSim g;
    s.loc = before; s.m = model(W->locs[before]);
    Punct got = extract(s.n), want = s.m;
    ev("snapshot %zu of locale %zu (%s): %s", snaps.size(), before, when, show_punct(got).c_str());
    if (!(got == want)) violate("wrong_punctuation", "locale with point '%s', separator '%s', grouping '%s', charset %s: %s instead of %s",
        show(W->locs[before].point.data(), W->locs[before].point.size()).c_str(), show(W->locs[before].sep.data(), W->locs[before].sep.size()).c_str(),
        show(W->locs[before].grouping.data(), W->locs[before].grouping.size()).c_str(), W->locs[before].codeset.c_str(), show_punct(got).c_str(), show_punct(want).c_str());
    if (W->current != before) violate("locale_changed", "the locale changed while the punctuation was obtained");
    snaps.push_back(s);
}
std::vector<Snap>* cur_snaps = nullptr;
uint32_t hook_rate = 0;
void refresh_hook(void*, int)
{
    if (!hook_rate || !cur->chance(1, hook_rate)) return;
    switch_to(cur->pick((uint32_t)W->locs.size()), "in a buffer refresh");
    if (cur->chance(1, 2)) { OutSim o; take(*cur_snaps, "in a buffer refresh"); }
}

struct Item { int kind; int64_t v; uint32_t quarter; int prec; int width; };
std::u32string item_text(const Item& x, const Punct& p)
{
    auto digits = [](int64_t v) { return std::to_string(v < 0 ? 0 - (uint64_t)v : (uint64_t)v); };
    std::u32string s;
    static const char* const frac[] = {"", "25", "5", "75"};
    auto put = [&](const std::string& t) { for (char c : t) s.push_back((char32_t)c); };
    switch (x.kind) {
        case 0: case 1: if (x.v < 0) s += U'-'; s += group_digits(digits(x.v), p); break;
        case 2: case 3: case 4: {
            if (x.v < 0) s += U'-';
            s += group_digits(digits(x.v), p);
            std::string f = frac[x.quarter];
            if (x.kind == 4) f += std::string((size_t)x.prec - f.size(), '0');
            if (x.kind == 3 || !f.empty()) { s.push_back(p.point); put(f); }
            break; }
        case 5: put(digits(x.v)); break;                                  // no punctuation asked for
        case 6: { char b[20]; snprintf(b, sizeof b, "%llx", (unsigned long long)x.v); put(b); break; }
        default: put(digits(x.v)); put(x.quarter ? "." : ""); put(frac[x.quarter]); break;
    }
    if (x.width > (int)s.size()) s.insert(0, (size_t)x.width - s.size(), U' ');
    return s;
}
template <class C> void print_item(strf::destination<C>& d, const Item& x, const strf::numpunct<10>& n)
{
    const double f = (x.v < 0 ? -1.0 : 1.0) * ((double)(x.v < 0 ? -x.v : x.v) + x.quarter * 0.25);
    auto to = strf::to(d).with(n, strf::width_as_fast_u32len);
    switch (x.kind) {
        case 0: to(!strf::dec(x.v) > x.width); break;
        case 1: to(!strf::fmt(x.v) > x.width); break;
        case 2: to(!strf::fixed(f) > x.width); break;
        case 3: to(*!strf::fixed(f) > x.width); break;
        case 4: to(!strf::fixed(f).p(x.prec) > x.width); break;
        case 5: to(strf::right(x.v, x.width)); break;
        case 6: to(strf::hex((unsigned long long)x.v) > x.width); break;
        default: to(strf::fixed(f) > x.width); break;
    }
}
Item gen_item(Run& r)
{
    Item x; x.kind = (int)r.pick(8);
    int dig = r.range(1, x.kind <= 1 || x.kind == 5 || x.kind == 6 ? 18 : 13); // 13 digits and a quarter are the shortest form of a double
    uint64_t m = 1; for (int i = 0; i < dig; ++i) m *= 10;
    x.v = (int64_t)(r.tape.wide() % m);
    x.quarter = r.pick(4); x.prec = r.range(2, 40); x.width = r.chance(1, 2) ? 0 : (int)r.pick(90);
    if (x.kind <= 4 && x.kind != 3 && r.chance(1, 4) && x.v) x.v = -x.v;
    return x;
}
template <class C> void print_some(Run& r, std::vector<Snap>& snaps)
{
    const size_t k = r.pick((uint32_t)snaps.size());
    const Snap s = snaps[k];
    std::vector<Item> items;
    for (int n = r.range(1, 3); n--;) items.push_back(gen_item(r));
    Text<C> want;
    for (auto& x : items) for (char32_t u : item_text(x, s.m)) put_u(want, (uint32_t)u);
    Schedule sc; sc.run = &r; sc.on_refresh = refresh_hook;
    if (r.chance(1, 2)) { sc.initial = (int)r.pick(20); sc.fixed = 64; }
    hook_rate = r.pick(3) ? 1 + r.pick(4) : 0;
    cur_snaps = &snaps;
    SimDest<C> d(sc);
    for (auto& x : items) {
        print_item<C>(d, x, s.n);
        if (r.chance(1, 4)) switch_to(r.pick((uint32_t)W->locs.size()), "between two prints");
    }
    hook_rate = 0;
    auto got = d.finish();
    ev("printed %zu numbers of kind %d with snapshot %zu: %s", items.size(), items[0].kind, k, show(got, 60).c_str());
    if (got != want) violate("wrong_text", "text printed with the punctuation of locale %zu (%s): %s", s.loc, show_punct(s.m).c_str(), diff_str(got, want).c_str());
    if (!(extract(s.n) == s.m)) violate("snapshot_changed", "the punctuation changed after it was obtained");
}

// ------------------------------------------------------------ generators --
std::string gen_codeset(Run& r)
{
    static const char* const cs[] = {"UTF-8", "UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15", "ANSI_X3.4-1968", "KOI8-R", "", "UTF-80", "ISO-8859-", "GB18030"};
    return cs[r.pick(11)];
}
std::string gen_field(Run& r, const std::string& codeset)
{
    Text<char> t;
    switch (r.pick(8)) {
        case 0: return std::string(1, ".,'_ "[r.pick(5)]);
        case 1: return "";
        case 2: for (int n = r.range(1, 3); n--;) t.push_back((char)r.range(1, 0x7f)); break;
        case 3: t.push_back((char)(0x80 + r.pick(0x80))); break;
        case 4: put_malformed<char>(r, t); break;
        case 5: put_malformed<char>(r, t); t.push_back('x'); break;
        default: for (int n = r.range(1, 3); n--;) if (codeset[0] == 'U' || codeset.empty()) put_u(t, pick_codepoint(r)); else t.push_back((char)(0xA0 + r.pick(0x60))); break;
    }
    return std::string(t.begin(), t.end());
}
std::string gen_grouping(Run& r)
{
    std::string s;
    switch (r.pick(6)) {
        case 0: return "\3";
        case 1: return "";
        case 2: return r.pick(2) ? "\3\2" : "\3\x7f";
        case 3: for (int n = r.range(1, 6); n--;) s += (char)r.range(1, 31); if (r.chance(1, 2)) s += r.pick(2) ? '\x7f' : '\xff'; break;
        case 4: { int g = r.range(1, 31); for (int n = r.range(1, 9); n--;) s += (char)g; if (r.chance(1, 3)) s += '\x7f'; break; }
        default: for (int n = r.range(1, 12); n--;) s += (char)r.range(1, 255); break;
    }
    return s;
}
// the conversions of the fields Windows announces, which are compiled everywhere
template <class W>
void win_fields(Run& r)
{
    static const wchar_t al[] = {L'3', L';', L'0', L'2', L'1', L'9', L'x', L' ', L'\u0663', L'/', L':'};
    std::wstring s;
    if (r.chance(2, 3)) for (int n = r.range(0, 7); n--;) { s += std::to_wstring(r.pick(4) ? r.range(1, 9) : r.range(0, 99)); if (n || r.chance(1, 4)) s += L';'; else if (r.chance(1, 2)) s += L";0"; }
    else for (int n = r.range(0, 9); n--;) s += al[r.pick(11)];
    std::vector<int> g; bool bad = false, repeat = false, ended = s.empty();
    for (size_t i = 0; !ended && !bad;) {
        auto digit = [&](size_t j) { return j < s.size() && s[j] >= L'0' && s[j] <= L'9'; };
        if (!digit(i)) { bad = true; break; }
        int v = s[i++] - L'0';
        if (digit(i)) v = v * 10 + (s[i++] - L'0');
        if (v == 0) { if (i < s.size()) bad = true; else repeat = true; ended = true; break; }
        g.push_back(v);
        if (i == s.size()) ended = true; else if (s[i] != L';') bad = true; else ++i;
    }
    for (int v : g) if (v > 31) bad = true;
    Punct want; normalise(want, g, repeat, bad);
    auto* p = arena_array<W>(s.c_str(), s.size() + 1);
    auto grouping = win::grouping(p);
    if constexpr (std::is_same_v<decltype(grouping), strf::digits_grouping>) {
    strf::numpunct<10> n(grouping);
    Punct got = extract(n); want.sep = got.sep;
    ev("grouping \"%s\" of a Windows locale: %s", show(s.data(), s.size()).c_str(), show_punct(got).c_str());
    if (!(got == want)) violate("wrong_grouping", "grouping \"%s\" of a Windows locale: %s instead of %s", show(s.data(), s.size()).c_str(), show_punct(got).c_str(), show_punct(want).c_str());
    }
    Text<char16_t> t;
    if (r.chance(1, 2)) put_malformed<char16_t>(r, t); else put_u(t, pick_codepoint(r));
    if (r.chance(1, 3)) t.clear(); else if (r.chance(1, 2)) put_u(t, pick_codepoint(r));
    std::wstring w; for (char16_t c : t) w += (wchar_t)c;
    char32_t exp = 0xFFFD;
    if (!w.empty()) {
        unsigned a = (unsigned)w[0], b = w.size() > 1 ? (unsigned)w[1] : 0;
        if (a < 0xD800 || a > 0xDFFF) exp = a;
        else if (a < 0xDC00 && b >= 0xDC00 && b <= 0xDFFF) exp = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
    }
    auto u = win::first_char(arena_array<W>(w.c_str(), w.size() + 1));
    if constexpr (std::is_same_v<decltype(u), char32_t>) if (u != exp) violate("wrong_character", "first character of a Windows field: U+%04X instead of U+%04X", (unsigned)u, (unsigned)exp);
}

void run(Run& r)
{
    World w; w.r = &r; W = &w;
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Loc l; l.name = "sim" + std::to_string(i); l.codeset = gen_codeset(r);
        l.point = gen_field(r, l.codeset); l.sep = gen_field(r, l.codeset); l.grouping = gen_grouping(r);
        ev("locale %d: charset %s point '%s' separator '%s' grouping '%s'", i, l.codeset.c_str(), show(l.point.data(), l.point.size()).c_str(),
           show(l.sep.data(), l.sep.size()).c_str(), show(l.grouping.data(), l.grouping.size()).c_str());
        r.note(hash_text(Text<char>(l.point.begin(), l.point.end())) ^ hash_text(Text<char>(l.sep.begin(), l.sep.end())) * 3 ^ hash_text(Text<char>(l.grouping.begin(), l.grouping.end())) * 7);
        w.locs.push_back(l);
    }
    w.fixed = r.pick(2);
    if (w.fixed) SIM_COUNT("fault.locale_data_rewritten_in_place");
    publish();
    StepBudget b(50'000'000, "locale history");
    std::vector<Snap> snaps; snaps.reserve(4000);
    take(snaps, "first");
    for (int ops = r.range(1, 8); ops-- && !r.violated;) {
        switch (r.pick(6)) {
            case 0: switch_to(r.pick((uint32_t)n), "by the program"); break;
            case 1: if (snaps.size() < 3000) take(snaps, "by the program"); break;
            case 2: win_fields<wchar_t>(r); break;
            default: with_char_type(r.pick(5), [&](auto c) { print_some<decltype(c)>(r, snaps); }); break;
        }
    }
    for (auto& s : snaps) if (!r.violated && !(extract(s.n) == s.m)) violate("snapshot_changed", "a snapshot changed after it was obtained");
    SIM_COUNT_N("snapshots", snaps.size());
    if (w.switches) r.nontrivial = true;
    { InSim g; drop_all(); }
    W = nullptr;
}
} // namespace
const Property property{
    "C14",
    "A run has one to four simulated locales with random decimal points, separators, groupings (valid, malformed, empty, CHAR_MAX) and charsets, whose data are exact-size blocks that die when the locale changes or are rewritten in place, and a history of locale switches, snapshots and prints of integers and floating-point numbers; buffer refreshes switch the locale and take snapshots during prints. Punctuation and text must equal an independent model of the locale in force when the snapshot was taken. Non-trivial: the locale was switched at least once.",
    run, 400000, 12000000, 200,
    "strf locale.hpp, numpunct and the printing of numbers",
    "localeconv, nl_langinfo, setlocale, uselocale of the C library; destinations",
    "(contents of the locales, sequence of switches, buffer sizes)"
};
} // namespace sim

extern "C" {
struct lconv* __real_localeconv();
struct lconv* __wrap_localeconv()
{
    using namespace sim;
    if (!W) return __real_localeconv();
    ++W->asked;
    return &W->data;
}
char* __real_nl_langinfo(nl_item);
char* __wrap_nl_langinfo(nl_item i)
{
    using namespace sim;
    if (!W) return __real_nl_langinfo(i);
    return i == CODESET ? W->codeset : i == RADIXCHAR ? W->point : i == THOUSEP ? W->sep : __real_nl_langinfo(i);
}
char* __real_setlocale(int, const char*);
char* __wrap_setlocale(int c, const char* l)
{
    using namespace sim;
    if (!W) return __real_setlocale(c, l);
    if (l) violate("locale_changed", "the library calls setlocale(%d, \"%s\")", c, l);
    return const_cast<char*>(W->locs[W->current].name.c_str());
}
locale_t __real_uselocale(locale_t);
locale_t __wrap_uselocale(locale_t l)
{
    if (sim::W && l) sim::violate("locale_changed", "the library calls uselocale()");
    return __real_uselocale(l);
}
}
