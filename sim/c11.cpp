// C11: tr-strings against an executable model of their grammar.
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
#include "transmodel.hpp"
#include <sstream>
namespace sim {
namespace {
// an argument: a prepared text with a width of its own, or a node
template <class C> struct TArg { const Node<C>* n = nullptr; int path = 0; const C* p = nullptr; size_t len = 0; strf::width_t w; };
}
} // namespace sim
namespace strf {
template <class C>
struct printable_def<sim::TArg<C>> {
    using representative = sim::TArg<C>;
    using forwarded_type = sim::TArg<C>;
    struct printer { sim::TArg<C> a; void operator()(strf::destination<C>& d) const { if (a.n) a.n->print(d, a.path); else d.write(a.p, a.len); } };
    template <class Pre, class FP>
    static printer make_printer(strf::tag<C>, Pre* pre, const FP&, const sim::TArg<C>& a)
    {
        if (a.n) { sim::InSim g; a.n->measure(pre); }
        else { pre->add_size(a.len); pre->add_width(a.w); }
        return printer{a};
    }
};
} // namespace strf
namespace sim {
namespace {
// ------------------------------------------------------------- notifier ---
struct TrReport { const void* str; ptrdiff_t len, pos; int cs; bool operator==(const TrReport&) const = default; };
struct TrLog { std::vector<TrReport> v; int throw_at = -1; };
struct TrRec {
    using category = strf::tr_error_notifier_c;
    TrLog* log;
    template <class Charset>
    void handle(const typename Charset::code_unit* s, ptrdiff_t len, Charset cs, ptrdiff_t pos) const
    {
        InSim g;
        int n = (int)log->v.size();
        log->v.push_back({s, len, pos, (int)cs.id()});
        if (n == log->throw_at) { SIM_COUNT("fault.tr_notifier_throws"); throw SimError{99}; }
    }
};

// ---------------------------------------------------------------- model ---
// written from docs/quick_reference.adoc, "Tr-string"
struct Piece { enum { literal, arg, missing } what; size_t from, to; size_t index; };
template <class C> std::vector<Piece> parse(const Text<C>& s, size_t nargs)
{
    std::vector<Piece> v;
    size_t next = 0, i = 0, n = s.size();
    auto is = [&](size_t k, char c) { return k < n && s[k] == (C)c; };
    auto refer = [&](size_t brace, size_t index) { if (index < nargs) v.push_back({Piece::arg, brace, brace, index}); else v.push_back({Piece::missing, brace, brace, index}); };
    while (i < n) {
        if (!is(i, '{')) {
            size_t j = i;
            while (j < n && !is(j, '{')) ++j;
            v.push_back({Piece::literal, i, j, 0});
            i = j;
            continue;
        }
        if (is(i + 1, '{')) { v.push_back({Piece::literal, i, i + 1, 0}); i += 2; continue; }
        size_t close = i + 1;
        while (close < n && !is(close, '}')) ++close;
        if (is(i + 1, '-')) ;
        else if (i + 1 < n && s[i + 1] >= (C)'0' && s[i + 1] <= (C)'9') {
            size_t x = 0;
            for (size_t k = i + 1; k < n && s[k] >= (C)'0' && s[k] <= (C)'9'; ++k) { x = x * 10 + (size_t)(s[k] - (C)'0'); if (x > 1000000) x = 1000000; }
            refer(i, x);
        } else refer(i, next++);
        i = close + 1;
    }
    return v;
}

// --------------------------------------------------------------- program --
template <class C> struct TrProgram {
    Text<C> str; std::basic_string_view<C> sv; const C* z = nullptr;
    std::vector<TArg<C>> args; std::vector<Text<C>> texts;
    std::vector<Piece> pieces;
    strf::dynamic_charset<C> cs = strf::utf_t<C>().to_dynamic();
    bool ascii = true;
    Text<C> text; std::vector<TrReport> reports; int64_t width = 0; // of the whole, in 1/65536
};
template <class C> Text<C> gen_tr(Run& r, bool ascii)
{
    Text<C> t;
    auto lit = [&](int n) { for (int i = 0; i < n; ++i) t.push_back((C)("abc-}0 9z}"[r.pick(10)])); };
    auto odd = [&] {        // characters whose low byte is one of { } - 0
        static const uint32_t low[] = {0x7B, 0x7D, 0x2D, 0x30};
        uint32_t x = low[r.pick(4)];
        if constexpr (sizeof(C) == 1) t.push_back((C)(r.pick(2) ? 0xFB : 0x80 | x));
        else if constexpr (sizeof(C) == 2) t.push_back((C)(x | (1 + r.pick(255)) << 8));
        else t.push_back((C)(x | (r.pick(2) ? 0x100u << r.pick(20) & 0x7fffff00u : 0x7B00)));
    };
    int k = (int)r.pick(r.pick(8) ? 9 : 60);
    for (int i = 0; i < k; ++i) {
        switch (r.pick(14)) {
            case 0: lit((int)r.pick(5)); break;
            case 1: lit(r.pick(3) ? (int)r.pick(40) : 50 + (int)r.pick(100)); break;
            case 2: t.push_back((C)'{'); t.push_back((C)'}'); break;
            case 3: t.push_back((C)'{'); t.push_back((C)('0' + r.pick(5))); t.push_back((C)'}'); break;
            case 4: t.push_back((C)'{'); break;
            case 5: t.push_back((C)'{'); t.push_back((C)'{'); break;
            case 6: t.push_back((C)'{'); t.push_back((C)'-'); lit((int)r.pick(6)); if (r.pick(6)) t.push_back((C)'}'); break;
            case 7: t.push_back((C)'{'); { int m = 1 + (int)r.pick(r.pick(3) ? 2 : 24); for (int j = 0; j < m; ++j) t.push_back((C)('0' + (r.pick(3) ? 0 : r.pick(10)))); } lit((int)r.pick(3)); if (r.pick(6)) t.push_back((C)'}'); break;
            case 8: t.push_back((C)'{'); lit((int)r.pick(8)); if (r.pick(6)) t.push_back((C)'}'); break;
            case 9: t.push_back((C)"{}-0"[r.pick(4)]); break;
            case 10: for (int j = (int)r.pick(6); j >= 0; --j) t.push_back((C)'{'); break;
            case 11: if (!ascii) odd(); break;
            case 12: if (!ascii) { if (r.pick(2)) put_malformed(r, t); else put_u(t, pick_codepoint(r)); } break;
            default: if (r.pick(4) == 3) t.push_back((C)0); break;
        }
    }
    return t;
}
template <class C> TrProgram<C> gen(Run& r, const TrLog*, bool want_width)
{
    TrProgram<C> p;
    p.ascii = want_width ? r.pick(3) != 2 : r.pick(2);
    p.str = gen_tr<C>(r, p.ascii);
    p.sv = keep(p.str);
    p.z = keep_z(p.str);
    if constexpr (std::is_same_v<C, char>) if (r.pick(3) == 2) p.cs = sbc(r.pick(num_sbc));
    size_t n = r.pick(6);
    for (size_t i = 0; i < n; ++i) {
        TArg<C> a; Text<C> t;
        if (r.pick(3) == 2) {
            GenOpt o; o.groups = 0x1f; if (r.chance(1, 60)) o.max_text = 70000;
            a.n = gen_node<C>(r, o); a.path = (int)r.pick(num_paths);
            SimDest<C> d{Schedule{}}; d.site_count = false;
            a.n->print(d, 0);
            t = d.finish();
            pre_ny pre; a.n->measure(&pre); a.w = pre.accumulated_width();
        } else {
            t = gen_plain<C>(r, r.pick(4) ? 20 : 200);
            auto v = keep(t); a.p = v.data(); a.len = v.size();
            a.w = r.pick(8) == 7 ? strf::width_t((int)r.pick(32768)) : strf::width_t((int)t.size());
        }
        p.args.push_back(a); p.texts.push_back(t);
    }
    p.pieces = parse(p.str, n);
    Text<C> rep; if (is_utf(p.cs.id())) put_u(rep, 0xFFFD); else rep.push_back((C)'?');
    for (auto& x : p.pieces) {
        if (x.what == Piece::literal) { p.text.insert(p.text.end(), p.str.begin() + (ptrdiff_t)x.from, p.str.begin() + (ptrdiff_t)x.to); p.width += (int64_t)(x.to - x.from) << 16; }
        else if (x.what == Piece::arg) { append_text(p.text, p.texts[x.index]); p.width += p.args[x.index].w.underlying_value(); }
        else { append_text(p.text, rep); p.reports.push_back({p.sv.data(), (ptrdiff_t)p.sv.size(), (ptrdiff_t)x.from, (int)p.cs.id()}); p.width += 1 << 16; }
    }
    ev("%s tr(\"%s\", %zu arguments), charset %s: %zu pieces, %zu missing", char_name<C>(), show(p.str).c_str(), n, p.cs.name(), p.pieces.size(), p.reports.size());
    return p;
}
// f(string, arguments...)
template <class C, class F> auto apply_args(const TrProgram<C>& p, F&& f)
{
    auto& a = p.args;
    switch (a.size()) {
        case 0: return f(p.sv);
        case 1: return f(p.sv, a[0]);
        case 2: return f(p.sv, a[0], a[1]);
        case 3: return f(p.sv, a[0], a[1], a[2]);
        case 4: return f(p.sv, a[0], a[1], a[2], a[3]);
        default: return f(p.sv, a[0], a[1], a[2], a[3], a[4]);
    }
}
std::string show_reports(const std::vector<TrReport>& got, const std::vector<TrReport>& want)
{
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    char b[200];
    auto one = [](const std::vector<TrReport>& v, size_t i, const void* s) { char b[90]; if (i >= v.size()) return std::string("none"); snprintf(b, sizeof b, "(position %td, length %td, charset %x%s)", v[i].pos, v[i].len, v[i].cs, v[i].str == s ? "" : ", another string"); return std::string(b); };
    const void* s = want.empty() ? nullptr : want[0].str;
    snprintf(b, sizeof b, "%zu reports instead of %zu, #%zu ", got.size(), want.size(), i);
    return b + one(got, i, s) + " instead of " + one(want, i, s);
}
bool reports_prefix(const std::vector<TrReport>& a, const std::vector<TrReport>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

// prints in the form `how` with the facets `fp` to anything with a print syntax
template <class C, class Syn> auto print_form(const TrProgram<C>& p, const Syn& syn, uint32_t how)
{
    switch (how) {
        case 0: return apply_args(p, [&](auto&... x) { return syn(strf::tr(x...)); });
        case 1: return apply_args(p, [&](auto&... x) { return syn.tr(x...); });
        case 2: return apply_args(p, [&](auto&... x) { return syn.trline(x...); });
        case 3: return apply_args(p, [&](auto&... x) { return syn(strf::join((C)'<', strf::tr(x...), (C)'>')); });
        case 4: return apply_args(p, [&](auto&... x) { return syn(strf::with()(strf::tr(x...)), (C)'.'); });
        case 5: return apply_args(p, [&](auto&... x) { return syn.line(strf::tr(x...)); });
        case 6: {      // one inside another
            static const C outer[] = {'[', '{', '}', ']', '{', '0', '}', 0};
            return apply_args(p, [&](auto&... x) { return syn.tr(outer, strf::tr(x...)); });
        }
        default: return apply_args(p, [&](auto&... x) { return syn(strf::tr(x...), strf::tr(x...)); });
    }
}
constexpr uint32_t num_forms = 8;
template <class C> void form_model(const TrProgram<C>& p, uint32_t how, Text<C>& t, std::vector<TrReport>& v)
{
    t = p.text; v = p.reports;
    auto twice = [&] { v.insert(v.end(), p.reports.begin(), p.reports.end()); };
    switch (how) {
        case 2: case 5: t.push_back((C)'\n'); break;
        case 3: t.insert(t.begin(), (C)'<'); t.push_back((C)'>'); break;
        case 4: t.push_back((C)'.'); break;
        case 6: t.insert(t.begin(), (C)'['); t.push_back((C)']'); append_text(t, p.text); twice(); break;
        case 7: append_text(t, p.text); twice(); break;
        default: break;
    }
}

template <class C> void to_destination(Run& r, const TrProgram<C>& p)
{
    uint32_t how = r.pick(num_forms);
    Text<C> want; std::vector<TrReport> reports;
    form_model(p, how, want, reports);
    TrLog log;
    Schedule s; s.run = &r;
    uint32_t fault = r.pick(6);
    if (fault == 3) s.fail_at = (int)r.pick(5);
    if (fault == 4) { s.throw_at = (int)r.pick(5); s.throw_id = 7; }
    if (fault == 5) log.throw_at = (int)r.pick(4);
    SimDest<C> d(s);
    int thrown = 0;
    ev("form %u into a destination", how);
    try { print_form(p, strf::to(static_cast<strf::destination<C>&>(d)).with(TrRec{&log}, p.cs), how); }
    catch (const SimError& e) { thrown = e.id; }
    bool whole = d.good() && !thrown;
    if (log.throw_at >= 0 && (size_t)log.throw_at < reports.size() && thrown != 99) { violate("exception_lost", "the notifier's exception did not arrive"); return; }
    if (thrown == 99 && !(log.throw_at >= 0)) { violate("exception_invented", "exception 99"); return; }
    if (!(whole ? log.v == reports : reports_prefix(log.v, reports))) { violate("wrong_reports", "form %u: %s", how, show_reports(log.v, reports).c_str()); return; }
    auto& got = d.finish();
    if (!(whole ? got == want : is_prefix(got, want))) violate("wrong_text", "form %u: %s", how, diff_str(got, want).c_str());
    if (d.refreshes() && !p.pieces.empty()) r.nontrivial = true;
    r.note(mix((uint64_t)d.refreshes(), log.v.size()));
}
template <class C> void to_creators(Run& r, const TrProgram<C>& p)
{
    uint32_t how = r.pick(num_forms), policy = r.pick(3);
    Text<C> want; std::vector<TrReport> reports;
    form_model(p, how, want, reports);
    TrLog log;
    ev("form %u, policy %u, to a creator", how, policy);
    Created<C> c;
    SimCreator<C> cr; cr.s.sub = 1 + r.pick(1u << 30); cr.out = &c;
    auto syn = strf::printing_syntax<SimCreator<C>>{cr}.with(TrRec{&log}, p.cs);
    if (policy == 0) print_form(p, syn, how);
    else if (policy == 1) print_form(p, syn.reserve(r.pick((uint32_t)want.size() * 2 + 9)), how);
    else print_form(p, syn.reserve_calc(), how);
    if (log.v != reports) { violate("wrong_reports", "form %u, policy %u: %s", how, policy, show_reports(log.v, reports).c_str()); return; }
    if (c.text != want) { violate("wrong_text", "form %u, policy %u: %s", how, policy, diff_str(c.text, want).c_str()); return; }
    if (policy == 2 && c.asked < want.size()) violate("size_too_small", "form %u: %zu calculated, %zu printed", how, c.asked, want.size());
    if (policy == 2 && c.refreshes) violate("asked_for_more", "form %u: %d refreshes after a calculated reservation of %zu", how, c.refreshes, c.asked);
    if (policy == 2 && !p.pieces.empty()) r.nontrivial = true;
    // to strings
    if (r.pick(3) == 0) {
        log.v.clear();
        std::basic_string<C> s, t((size_t)r.pick(40), (C)'=');
        size_t before = t.size();
        auto a = strf::to_basic_string<C>.with(TrRec{&log}, p.cs);
        auto b = strf::append(t).with(TrRec{&log}, p.cs);
        switch (policy) {
            case 0: s = print_form(p, a, how); print_form(p, b, how); break;
            case 1: { size_t n = r.pick((uint32_t)want.size() * 2 + 9); s = print_form(p, a.reserve(n), how); print_form(p, b.reserve(n), how); break; }
            default: s = print_form(p, a.reserve_calc(), how); print_form(p, b.reserve_calc(), how); break;
        }
        if (Text<C>(s.begin(), s.end()) != want) violate("wrong_text", "string, form %u, policy %u: %s", how, policy, diff_str(Text<C>(s.begin(), s.end()), want).c_str());
        if (Text<C>(t.begin() + (ptrdiff_t)before, t.end()) != want) violate("wrong_text", "append, form %u, policy %u: %s", how, policy, diff_str(Text<C>(t.begin() + (ptrdiff_t)before, t.end()), want).c_str());
        auto twice = reports; twice.insert(twice.end(), reports.begin(), reports.end());
        if (log.v != twice) violate("wrong_reports", "strings, form %u, policy %u: %s", how, policy, show_reports(log.v, twice).c_str());
    }
    // to an array: the reports do not depend on its size
    log.v.clear();
    size_t cap = r.pick(3) ? r.pick((uint32_t)want.size() + 80) : want.size() + 1;
    Text<C> arr(cap + 1);
    auto res = print_form(p, strf::to(arr.data(), arr.data() + cap + 1).with(TrRec{&log}, p.cs), how);
    size_t n = (size_t)(res.ptr - arr.data());
    if (res.truncated != (want.size() > cap) || !is_prefix(Text<C>(arr.begin(), arr.begin() + (ptrdiff_t)n), want) || (!res.truncated && n != want.size())) violate("wrong_text", "array of %zu, form %u", cap, how);
    if (!(res.truncated ? reports_prefix(log.v, reports) : log.v == reports)) violate("wrong_reports", "array of %zu, form %u: %s", cap, how, show_reports(log.v, reports).c_str());
}
// measured by an aligned join: the fill depends on the width of the pieces
template <class C> void aligned(Run& r, const TrProgram<C>& p)
{
    int w = r.pick(4) ? (int)r.pick(400) : (int)(((p.width >> 16) + (int64_t)r.pick(40)) % 32768);
    auto al = (strf::text_alignment)r.pick(3);
    uint32_t policy = r.pick(4);
    bool fast = !p.ascii || r.pick(2);
    TrLog log;
    strf::alignment_format af; af.fill = U'*'; af.width = strf::width_t(w); af.alignment = al;
    int64_t rest = ((int64_t)w << 16) - p.width;
    if (rest < 0) rest = 0;
    if (rest & 0xffff) return;                    // fractional widths of nodes: not modelled
    size_t fill = (size_t)(rest >> 16), left = al == strf::text_alignment::left ? 0 : al == strf::text_alignment::right ? fill : fill / 2;
    Text<C> want(left, (C)'*');
    append_text(want, p.text);
    want.insert(want.end(), fill - left, (C)'*');
    ev("aligned to %d (%d), width of the content %lld, policy %u%s", w, (int)al, (long long)(p.width >> 16), policy, fast ? ", fast width" : "");
    auto go = [&](const auto& syn0) {
        auto one = [&](const auto& syn) { return apply_args(p, [&](auto&... x) { return syn(strf::join(strf::tr(x...)).set_alignment_format(af)); }); };
        return fast ? one(syn0.with(TrRec{&log}, p.cs, strf::fast_width)) : one(syn0.with(TrRec{&log}, p.cs));
    };
    Text<C> got;
    if (policy < 2) {
        Schedule s; s.run = &r;
        SimDest<C> d(s);
        go(strf::to(static_cast<strf::destination<C>&>(d)));
        got = d.finish();
    } else {
        Created<C> c;
        SimCreator<C> cr; cr.s.sub = 1 + r.pick(1u << 30); cr.out = &c;
        if (policy == 2) go(strf::printing_syntax<SimCreator<C>>{cr}.reserve_calc()); else go(strf::printing_syntax<SimCreator<C>>{cr}.reserve(5));
        got = c.text;
        if (policy == 2 && c.asked < want.size()) violate("size_too_small", "aligned to %d: %zu calculated, %zu printed", w, c.asked, want.size());
        if (policy == 2 && c.refreshes) violate("asked_for_more", "aligned to %d: %d refreshes after a calculated reservation of %zu", w, c.refreshes, c.asked);
    }
    if (got != want) violate("wrong_text", "aligned to %d, content width %lld: %s", w, (long long)(p.width >> 16), diff_str(got, want).c_str());
    if (log.v != p.reports) violate("wrong_reports", "aligned: %s", show_reports(log.v, p.reports).c_str());
    if (!p.pieces.empty()) r.nontrivial = true;
    r.note(mix(fill, log.v.size()));
}
template <class C> void go(Run& r)
{
    TrLog log;
    uint32_t what = r.pick(3);
    auto p = gen<C>(r, &log, what == 2);
    StepBudget b(50'000'000, "prints of a tr-string");
    SIM_COUNT_N("pieces", p.pieces.size());
    SIM_COUNT_N("missing_arguments", p.reports.size());
    OutSim o;
    if (what == 0) to_destination(r, p);
    else if (what == 1) to_creators(r, p);
    else aligned(r, p);
}
void run(Run& r) { InSim g; with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
} // namespace
const Property property{
    "C11",
    "A run generates a tr-string (well formed or not, including characters whose low byte looks like a brace, unterminated placeholders, huge argument numbers, embedded zeros) and up to five arguments, and prints it in one of eight forms into a simulated destination (with refusals and exceptions of destination and notifier), to a creator, strings and arrays under every reservation policy, or inside an aligned join. Text and reports must be those of an executable model of the documented grammar. Non-trivial: there is something to interpret and a buffer boundary, a size calculation or a measurement took part.",
    run, 500000, 8000000, 2000,
    "strf::tr, its printers and measurement, joins, reservation policies",
    "destinations, creators, tr error notifier, argument printables",
    "multisets of (buffer refreshes, reports, fill)"
};
} // namespace sim
