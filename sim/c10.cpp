// C10: each transcoding error is notified exactly once, in order.
#include "transmodel.hpp"
#include "history.hpp"
#include "targets.hpp"
namespace sim {
namespace {
using Flags = strf::transcode_flags;
using Reason = strf::transcode_stop_reason;

// One report. The bytes of an invalid sequence are copied when it is reported,
// so that ASan sees a report that designates anything outside the source.
struct Report {
    bool invalid; int unit; std::string name, bytes; unsigned cp;
    bool operator==(const Report&) const = default;
    std::string str() const
    {
        char b[120]; std::string s;
        if (invalid) { snprintf(b, sizeof b, "invalid(%d-byte units of %s:", unit, name.c_str()); s = b; for (unsigned char c : bytes) { snprintf(b, sizeof b, " %02x", c); s += b; } return s + ")"; }
        snprintf(b, sizeof b, "unsupported(%s: U+%04X)", name.c_str(), cp);
        return b;
    }
};
struct Recorder : strf::transcoding_error_notifier {
    std::vector<Report> v;
    void invalid_sequence(int unit, const char* name, const void* p, std::ptrdiff_t n) override
    {
        InSim g;
        if (n <= 0 || n > 8 || (unit != 1 && unit != 2 && unit != 4)) { violate_exit("nonsense_report", "invalid_sequence(%d, %s, ., %td)", unit, name, n); }
        v.push_back({true, unit, name, std::string(static_cast<const char*>(p), (size_t)unit * (size_t)n), 0});
    }
    void unsupported_codepoint(const char* name, unsigned cp) override { InSim g; v.push_back({false, 0, name, {}, cp}); }
};
std::string diff_reports(const std::vector<Report>& a, const std::vector<Report>& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    char t[60]; snprintf(t, sizeof t, "%zu reports instead of %zu; #%zu is ", a.size(), b.size(), i);
    return std::string(t) + (i < a.size() ? a[i].str() : "missing") + " instead of " + (i < b.size() ? b[i].str() : "nothing");
}

template <class S, class D> void model_reports(std::vector<Report>& v, const Trans<S, D>& t, const S* src, const std::vector<Item<D>>& items, size_t from, size_t to)
{
    for (size_t i = from; i < to && i < items.size(); ++i) {
        auto& it = items[i];
        if (it.kind == Kind::invalid) v.push_back({true, (int)sizeof(S), t.sc.name(), std::string((const char*)(src + it.off), it.len * sizeof(S)), 0});
        if (it.kind == Kind::unsupported) v.push_back({false, 0, t.dc.name(), {}, it.cp});
    }
}

template <class S, class D> struct Source {
    Text<S> src; std::vector<Item<D>> items, pinned;
    int errors = 0;
};
template <class S, class D> Source<S, D> pick_source(Run& r, const Trans<S, D>& t, bool lax, bool unsafe, bool direct)
{
    bool su = is_utf(t.sc.id()), du = is_utf(t.dc.id());
    GenOpt o; o.malformed = true;
    Source<S, D> x;
    uint32_t kind = r.pick(4);
    if (!su || kind == 0) {
        int n = (int)r.pick(r.pick(2) ? 300 : 30);
        uint32_t errs = r.pick(5);
        for (int i = 0; i < n; ++i) {
            if (!su) { x.src.push_back((S)(r.pick(4) >= errs ? 0x20 + r.pick(0x5f) : 0x80 + r.pick(0x80))); continue; }
            if (errs && r.pick(8) < errs) { if (r.pick(2)) put_malformed(r, x.src); else put_u(x.src, pick_codepoint(r)); }
            else put_u(x.src, r.pick(2) ? (uint32_t)r.range('a', 'z') : pick_latin(r));
        }
    } else x.src = gen_text<S>(r, o, 300);
    if (!du && r.pick(6) == 5) put_u(x.src, 0xFFFD);
    x.items = model_items(x.src.data(), x.src.size(), t.sc, t.dc, lax);
    // see C09 about `pinned`
    bool odd_pair = t.sc.id() == strf::csid_utf32 && !du && !lax && !unsafe && direct, keep_odd = r.pick(300) == 299, found = false;
    if (unsafe || odd_pair) {
        Text<S> ok;
        for (auto& it : x.items) {
            if (unsafe && it.kind == Kind::invalid) continue;
            if (odd_pair && it.kind == Kind::unsupported && it.cp >= 0xE000 && it.cp <= 0xFFFF) { if (!keep_odd) continue; found = true; }
            ok.insert(ok.end(), x.src.begin() + it.off, x.src.begin() + it.off + it.len);
        }
        x.src = ok;
        x.items = model_items(x.src.data(), x.src.size(), t.sc, t.dc, lax);
        if (found) {
            x.pinned = x.items;
            for (auto& it : x.pinned) if (it.kind == Kind::unsupported && it.cp >= 0xE000 && it.cp <= 0xFFFF) it.kind = Kind::invalid;
        }
    }
    for (auto& it : x.items) {
        x.errors += it.kind != Kind::ok;
        if (it.kind == Kind::invalid) SIM_COUNT("fault.invalid_sequence");
        if (it.kind == Kind::unsupported) SIM_COUNT("fault.unsupported_character");
    }
    return x;
}

// the same except for additional reports of invalid sequences
bool reported_ahead(const std::vector<Report>& got, const std::vector<Report>& want)
{
    std::vector<Report> u1, u2;
    for (auto& x : got) if (!x.invalid) u1.push_back(x);
    for (auto& x : want) if (!x.invalid) u2.push_back(x);
    return u1 == u2 && std::all_of(want.begin(), want.end(), [&](auto& x) { return std::find(got.begin(), got.end(), x) != got.end(); });
}

// ---- transcoding into a destination, continued after every stop ----------
template <class S, class D> void low_level(Run& r, const Trans<S, D>& t, int way)
{
    Flags flags = (Flags)(r.pick(3) ? r.pick(8) : 0);
    bool lax = strf::with_lax_surrogate_policy(flags);
    while (!t.dest[way]) way = (way + 1) % Trans<S, D>::ways;
    bool composed = way == Trans<S, D>::composed || !t.direct;
    // Pinned by tests/decode_encode_to_ptr.cpp and _to_dst.cpp: a composed
    // transcoding that stops at both kinds of errors decodes, and reports,
    // an invalid sequence behind the unsupported character where it stops.
    bool ahead = composed && !way_is_unsafe(way) && (flags & Flags::stop_on_invalid_sequence) != Flags::none && (flags & Flags::stop_on_unsupported_codepoint) != Flags::none;
    if (ahead && r.pick(60) != 59) { flags = (Flags)((int)flags & 3); ahead = false; }
    auto x = pick_source(r, t, lax, way_is_unsafe(way), !composed);
    ev("%s by %s into a destination, flags %d, %zu items, %d errors: \"%s\"", t.name, way_name(way), (int)flags, x.items.size(), x.errors, show(x.src).c_str());
    Schedule s; s.run = &r;
    if (r.pick(8) == 7) s.fail_at = (int)r.pick(12);
    SimDest<D> d(s);
    Recorder rec;
    std::vector<Report> want, alt;
    size_t at = 0;
    auto off = [&](size_t i) { return i < x.items.size() ? x.items[i].off : x.src.size(); };
    for (int step = 0; !r.violated; ++step) {
        size_t to = r.pick(4) ? x.items.size() : at + r.pick((uint32_t)(x.items.size() - at) + 1);
        const S* in = arena_array(x.src.data() + off(at), off(to) - off(at));
        auto p = predict(x.items, at, to, (size_t)-1 >> 1, flags);
        size_t reported = at + p.items + (p.why != Reason::completed);   // with the one it stops at
        std::vector<Report> before = want;
        model_reports(want, t, x.src.data(), x.items, at, reported);
        if (!x.pinned.empty()) { auto q = predict(x.pinned, at, to, (size_t)-1 >> 1, flags); model_reports(alt, t, x.src.data(), x.pinned, at, at + q.items + (q.why != Reason::completed)); }
        auto res = t.dest[way](t, in, in + (off(to) - off(at)), d, &rec, flags);
        (void)res;
        if (rec.v != want && d.good()) {
            const char* cls = !x.pinned.empty() && rec.v == alt ? "utf32_e000_to_ffff" : "wrong_reports";
            if (ahead && reported_ahead(rec.v, want)) cls = "reported_ahead";
            violate(cls, "%s by %s, flags %d, %d refreshes: %s", t.name, way_name(way), (int)flags, d.refreshes(), diff_reports(rec.v, want).c_str());
            return;
        }
        if (!d.good()) {
            // what had been delivered has been reported, and nothing twice
            if (x.pinned.empty() && !ahead && (rec.v.size() > want.size() || !std::equal(rec.v.begin(), rec.v.end(), want.begin())))
                violate("wrong_reports", "%s by %s, flags %d, destination failed: %s", t.name, way_name(way), (int)flags, diff_reports(rec.v, want).c_str());
            size_t len = d.delivered().size(), n = 0, i = 0;
            for (; i < x.items.size() && n + x.items[i].n <= len; ++i) n += x.items[i].n;
            std::vector<Report> least; model_reports(least, t, x.src.data(), x.items, 0, i);
            bool stops = (flags & (Flags::stop_on_invalid_sequence | Flags::stop_on_unsupported_codepoint)) != Flags::none;
            if (!stops && x.pinned.empty() && rec.v.size() < least.size()) violate("missing_reports", "%s by %s: %zu reports, but %zu replacements were delivered", t.name, way_name(way), rec.v.size(), least.size());
            return;
        }
        if (x.errors && d.refreshes()) r.nontrivial = true;
        at = reported;
        if (to != x.items.size() && at < to) continue;
        if (at >= x.items.size() && p.why == Reason::completed && to == x.items.size()) break;
    }
    if (r.violated) return;
    SIM_COUNT_N("reports", rec.v.size());
    r.note(mix(rec.v.size(), (uint64_t)d.refreshes()));
}

// ---- printing -------------------------------------------------------------
template <class C> struct printable { strf::destination<C>* d; };
template <class S, class D> void printing(Run& r, const Trans<S, D>& t)
{
    int n = 1 + (int)r.pick(3);
    std::vector<Source<S, D>> xs;
    std::vector<std::basic_string_view<S>> sv;
    std::vector<Report> want, alt; Text<D> text;
    bool pinned = false, unsafe = r.pick(5) == 4, aligned = r.pick(3) == 2;
    for (int i = 0; i < n; ++i) {
        xs.push_back(pick_source(r, t, false, unsafe, t.direct));
        auto& x = xs.back();
        sv.push_back(keep(x.src));
        model_reports(want, t, x.src.data(), x.items, 0, x.items.size());
        model_reports(alt, t, x.src.data(), x.pinned.empty() ? x.items : x.pinned, 0, x.items.size());
        pinned |= !x.pinned.empty();
        auto m = model_text(x.items, 0, x.items.size()); text.insert(text.end(), m.begin(), m.end());
        if (x.errors) r.nontrivial = true;
    }
    Recorder rec;
    strf::transcoding_error_notifier_ptr np{&rec};
    Schedule s; s.run = &r;
    SimDest<D> d(s);
    strf::width_t w = aligned ? pick_width(r, 300) : strf::width_t(0);
    uint32_t how = r.pick(4);
    ev("prints %d strings, %s, way %u%s, %zu errors: \"%s\"", n, t.name, how, unsafe ? ", unsafe" : "", want.size(), show(xs[0].src).c_str());
    auto one = [&](auto&& to, auto v) {
        // sani: transcodes even when the charsets are the same
        auto same = t.sc.id() == t.dc.id();
        if (unsafe) { if (aligned) to(strf::unsafe_transcode(v, t.sc) > w); else to(strf::unsafe_transcode(v, t.sc)); }
        else if (same || how & 1) { if (aligned) to(strf::right(strf::sani(v, t.sc), w)); else to(strf::sani(v, t.sc)); }
        else { if (aligned) to(strf::right(strf::transcode(v, t.sc), w)); else to(strf::transcode(v, t.sc)); }
    };
    auto syn = strf::to(static_cast<strf::destination<D>&>(d)).with(t.dc, np);
    if (how & 2) {                                           // all in one call
        auto go = [&](auto... v) {
            if (unsafe) syn(strf::unsafe_transcode(v, t.sc)...);
            else syn(strf::sani(v, t.sc)...);
        };
        aligned = false;
        n == 1 ? go(sv[0]) : n == 2 ? go(sv[0], sv[1]) : go(sv[0], sv[1], sv[2]);
    } else for (auto& v : sv) one(syn, v);
    if (rec.v != want) {
        const char* cls = pinned && rec.v == alt ? "utf32_e000_to_ffff" : "wrong_reports";
        violate(cls, "printing %s, %d refreshes: %s", t.name, d.refreshes(), diff_reports(rec.v, want).c_str());
        return;
    }
    auto& got = d.finish();
    if (!aligned) { if (got != text) violate("wrong_replacements", "printing %s: %s", t.name, diff_str(got, text).c_str()); }
    else if (got.size() < text.size()) violate("wrong_replacements", "printing %s: %zu characters, at least %zu expected", t.name, got.size(), text.size());
    SIM_COUNT_N("reports", rec.v.size());
    r.note(mix(rec.v.size(), (uint64_t)d.refreshes()));
}

// ---- whole programs: the reports do not depend on the buffers ------------
template <class C> void programs(Run& r)
{
    Recorder rec;
    GenOpt o; o.notifier = &rec; o.groups = 0x1f & ~(1u << g_int) & ~(1u << g_float);
    if (r.pick(4) == 3) o.groups = 0x1f;
    auto* p = gen_program<C>(r, o);
    ev("program %s", p->describe().c_str());
    rec.v.clear();
    Text<C> ref = reference_text(*p);
    auto want = rec.v;
    for (int rep = 0; rep < 3 && !r.violated; ++rep) {
        rec.v.clear();
        Schedule s; s.run = &r;
        if (rep == 2) s.fail_at = (int)r.pick(6);
        SimDest<C> d(s);
        print_program(*p, d);
        if (d.good() ? rec.v != want : rec.v.size() > want.size() || !std::equal(rec.v.begin(), rec.v.end(), want.begin())) {
            violate("reports_depend_on_buffers", "%s, %d refreshes%s: %s", p->describe().c_str(), d.refreshes(), d.good() ? "" : ", destination failed", diff_reports(rec.v, want).c_str());
            return;
        }
        if (d.refreshes() && !want.empty()) r.nontrivial = true;
        r.note(mix(rec.v.size(), (uint64_t)d.refreshes()));
    }
    // size calculation reports nothing
    rec.v.clear();
    (void)program_size(*p);
    if (!rec.v.empty()) violate("reported_by_size_calculation", "%s", rec.v[0].str().c_str());
    SIM_COUNT_N("reports", want.size());
    (void)ref;
}

template <class S, class D> void pair_run(Run& r, const Trans<S, D>& t)
{
    if (r.pick(2)) printing(r, t);
    else low_level(r, t, (int)r.pick(Trans<S, D>::ways));
}
template <class T> constexpr const char* cname()
{
    if (std::is_same_v<T, char>) return "char";
    if (std::is_same_v<T, char16_t>) return "char16_t";
    if (std::is_same_v<T, char32_t>) return "char32_t";
    return "wchar_t";
}
template <class S, class D> void utf_pair(Run& r)
{
    static std::string n1 = std::string("utf<") + cname<S>() + "> to utf<" + cname<D>() + ">";
    static const auto t = make_trans<S, D>(n1.c_str(), strf::utf_t<S>().to_dynamic(), strf::utf_t<D>().to_dynamic());
    pair_run(r, t);
}
template <class S> void from_utf(Run& r)
{
    switch (r.pick(4)) {
        case 0: utf_pair<S, char>(r); break;
        case 1: utf_pair<S, char16_t>(r); break;
        case 2: utf_pair<S, char32_t>(r); break;
        default: utf_pair<S, wchar_t>(r); break;
    }
}
template <class U> void to_single(Run& r, uint32_t k)
{
    static std::vector<Trans<U, char>> v = [] { std::vector<Trans<U, char>> w; for (uint32_t i = 0; i < num_sbc; ++i) w.push_back(make_trans<U, char>((new std::string(std::string("utf<") + cname<U>() + "> to " + sbc(i).name()))->c_str(), strf::utf_t<U>().to_dynamic(), sbc(i))); return w; }();
    pair_run(r, v[k]);
}
template <class U> void from_single(Run& r, uint32_t k)
{
    static std::vector<Trans<char, U>> v = [] { std::vector<Trans<char, U>> w; for (uint32_t i = 0; i < num_sbc; ++i) w.push_back(make_trans<char, U>((new std::string(std::string(sbc(i).name()) + " to utf<" + cname<U>() + ">"))->c_str(), sbc(i), strf::utf_t<U>().to_dynamic())); return w; }();
    pair_run(r, v[k]);
}
void run(Run& r)
{
    InSim g; OutSim o;
    switch (r.pick(8)) {
        case 0: case 1: case 2:
            switch (r.pick(4)) {
                case 0: from_utf<char>(r); break;
                case 1: from_utf<char16_t>(r); break;
                case 2: from_utf<char32_t>(r); break;
                default: from_utf<wchar_t>(r); break;
            }
            break;
        case 3: {
            uint32_t k = r.pick(num_sbc);
            switch (r.pick(4)) { case 0: to_single<char>(r, k); break; case 1: to_single<char16_t>(r, k); break; case 2: to_single<char32_t>(r, k); break; default: to_single<wchar_t>(r, k); }
            break;
        }
        case 4: {
            uint32_t k = r.pick(num_sbc);
            switch (r.pick(3)) { case 0: from_single<char>(r, k); break; case 1: from_single<char16_t>(r, k); break; default: from_single<char32_t>(r, k); }
            break;
        }
        case 5: {
            uint32_t a = r.pick(num_sbc), b = r.pick(2) ? a : r.pick(num_sbc);
            auto t = make_trans<char, char>("", sbc(a), sbc(b));
            std::string n = std::string(sbc(a).name()) + " to " + sbc(b).name();
            t.name = n.c_str();
            pair_run(r, t);
            break;
        }
        default: with_char_type(r.pick(5), [&](auto c) { programs<decltype(c)>(r); });
    }
}
} // namespace
const Property property = {
    "C10", "A run makes a source of valid, malformed and unsupported pieces and prints it (plain, converted, with precision and alignment, in joins) or transcodes it into a simulated destination with seeded buffer sizes that may turn bad, with a recording notifier. The reports must be those of an independent model of the source, once each, in order, with the right bytes or code point, and one replacement written for each. Non-trivial: at least one report, and a buffer boundary.",
    run, 300000, 10000000, 2000,
    "strf printing, transcode functions, printers of strings, notifier facet",
    "destinations, notifier",
    "number of reports and sequence of buffer sizes"};
} // namespace sim
