// C09: a transcoding interrupted by a full output buffer resumes without loss.
#include "transmodel.hpp"
namespace sim {
namespace {
using Flags = strf::transcode_flags;
using Reason = strf::transcode_stop_reason;

struct Deaf : strf::transcoding_error_notifier {
    void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override {}
    void unsupported_codepoint(const char*, unsigned) override {}
} deaf;

// exact-size heap array that ASan watches
template <class T> struct Exact {
    T* raw; size_t n;
    explicit Exact(size_t k) : raw(static_cast<T*>(malloc(k * sizeof(T) + (k == 0)))), n(k) { if (k) memset((void*)raw, 0xEE, k * sizeof(T)); }
    Exact(const T* p, size_t k) : Exact(k) { if (k) memcpy((void*)raw, p, k * sizeof(T)); }
    ~Exact() { free(raw); }
    Exact(const Exact&) = delete;
    // one past malloc's end for zero-size arrays is still the array itself
    T* begin() { return raw; }
    T* end() { return raw + n; }
};

template <class S, class D> struct Case {
    Run& r;
    const Trans<S, D>& t;
    Text<S> src;
    std::vector<Item<D>> items;
    Flags flags;
    int way;
    Deaf* notifier;
    // not empty: the items as the library's own tests want them, see below
    std::vector<Item<D>> pinned{};

    std::string where() const
    {
        char b[200];
        snprintf(b, sizeof b, "%s, %s, flags %d", t.name, way_name(way), (int)flags);
        return b;
    }
    // is a result that differs from the model what the pinned tests want?
    const char* cls(const char* c, size_t at, size_t to, size_t cap, ptrdiff_t units, ptrdiff_t now, Reason why) const
    {
        if (pinned.empty()) return c;
        auto p = predict(pinned, at, to, cap, flags);
        return (ptrdiff_t)p.units == units && (ptrdiff_t)(at + p.items) == now && p.why == why ? "utf32_e000_to_ffff" : c;
    }
    size_t off(size_t i) const { return i < items.size() ? items[i].off : src.size(); }

    size_t pick_cap()
    {
        switch (r.pick(5)) {
            case 0: return r.pick(2) ? 1000 : 5000;
            case 1: return r.pick(8);
            case 2: return r.pick(3);
            case 3: return r.pick(40);
            default: return r.pick(140);
        }
    }
    // position of the item designated by a result, or -1
    ptrdiff_t item_at(size_t from, size_t srcpos, int32_t u32dist)
    {
        for (size_t i = from; i <= items.size(); ++i)
            if (off(i) == srcpos) { if (u32dist < 0 || i + (size_t)u32dist > items.size()) return -1; return (ptrdiff_t)i + u32dist; }
        return -1;
    }
    // the end of the source slice given to a step: an item boundary
    size_t pick_to(size_t from) { return r.pick(4) ? items.size() : from + r.pick((uint32_t)(items.size() - from) + 1); }

    void arrays()
    {
        size_t at = 0; int step = 0, idle = 0;
        while (!r.violated) {
            size_t to = pick_to(at), cap = pick_cap();
            if (idle > 4) { cap = 8; to = items.size(); }
            if (step > 4000) { violate("no_progress", "%s: more than 4000 steps", where().c_str()); return; }
            auto want = predict(items, at, to, cap, flags);
            Exact<S> in(src.data() + off(at), off(to) - off(at));
            Exact<D> out(cap);
            auto res = t.array[way](t, in.begin(), in.end(), out.begin(), out.end(), notifier, flags);
            size_t wrote = (size_t)(res.dst_ptr - out.begin());
            ptrdiff_t consumed = res.stale_src_ptr - in.begin();
            if (step < 40) ev("step %d: items [%zu,%zu) capacity %zu: wrote %zu, consumed %td+%d, %s", step, at, to, cap, wrote, consumed, res.u32dist, reason_name(res.stop_reason));
            r.note(mix(cap << 8 ^ wrote, (uint64_t)res.stop_reason));
            SIM_COUNT("steps");
            if (want.why == Reason::insufficient_output_space) SIM_COUNT("fault.output_full");
            if (res.dst_ptr < out.begin() || res.dst_ptr > out.end()) { violate("dst_outside", "%s: returned dst_ptr is outside the buffer", where().c_str()); return; }
            if (consumed < 0 || consumed > in.end() - in.begin()) { violate("src_outside", "%s: returned src_ptr is outside the source", where().c_str()); return; }
            ptrdiff_t now = item_at(at, off(at) + (size_t)consumed, res.u32dist);
            if (now < 0 || (size_t)now > to) { violate("not_at_boundary", "%s: stopped at unit %td + %d code points, which is not a boundary of the source", where().c_str(), consumed, res.u32dist); return; }
            if (res.stop_reason != want.why) { violate(cls("wrong_reason", at, to, cap, (ptrdiff_t)wrote, now, res.stop_reason), "%s: step from item %zu to %zu of %zu with %zu units of space: %s instead of %s", where().c_str(), at, to, items.size(), cap, reason_name(res.stop_reason), reason_name(want.why)); return; }
            if (wrote != want.units || (size_t)now != at + want.items) { violate(cls("wrong_amount", at, to, cap, (ptrdiff_t)wrote, now, res.stop_reason), "%s: wrote %zu units of %zu items instead of %zu units of %zu items", where().c_str(), wrote, (size_t)now - at, want.units, want.items); return; }
            auto model = model_text(items, at, at + want.items);
            if (!std::equal(model.begin(), model.end(), out.begin())) { violate("wrong_output", "%s: wrote \"%s\" instead of \"%s\"", where().c_str(), show(out.begin(), wrote).c_str(), show(model).c_str()); return; }
            for (size_t i = wrote; i < cap; ++i) if (memcmp(out.begin() + i, "\xEE\xEE\xEE\xEE", sizeof(D))) SIM_COUNT("scribbled_beyond_dst_ptr");
            // sizes: as the step, without writing
            if (t.size[way] && r.pick(2)) {
                size_check(at, to, r.pick(3) ? cap : pick_cap());
                if (r.violated) return;
            }
            idle = want.items ? 0 : idle + 1;
            at = (size_t)now; ++step;
            if (res.stop_reason == Reason::completed && at == items.size()) break;
            if (res.stop_reason == Reason::invalid_sequence || res.stop_reason == Reason::unsupported_codepoint) { ++at; SIM_COUNT("stopped_at_error"); }
        }
        if (!r.violated && step > 1) r.nontrivial = true;
    }
    void size_check(size_t at, size_t to, size_t limit)
    {
        Exact<S> in(src.data() + off(at), off(to) - off(at));
        if (r.pick(8) == 7) limit = (size_t)PTRDIFF_MAX;
        auto want = predict(items, at, to, limit, flags);
        auto res = t.size[way](t, in.begin(), in.end(), (ptrdiff_t)limit, flags);
        SIM_COUNT("size_calculations");
        ptrdiff_t consumed = res.stale_src_ptr - in.begin();
        ptrdiff_t now = consumed < 0 || consumed > in.end() - in.begin() ? -1 : item_at(at, off(at) + (size_t)consumed, res.u32dist);
        if (res.ssize != (ptrdiff_t)want.units || res.stop_reason != want.why || now != (ptrdiff_t)(at + want.items))
            violate(cls("wrong_size", at, to, limit, res.ssize, now, res.stop_reason), "%s: size from item %zu to %zu of %zu with limit %zu: %td units, item %td, %s instead of %zu units, item %zu, %s",
                where().c_str(), at, to, items.size(), limit, res.ssize, now, reason_name(res.stop_reason), want.units, at + want.items, reason_name(want.why));
    }
    void destinations()
    {
        Schedule s; s.run = &r;
        uint32_t k = r.pick(6);
        if (k == 4) s.fail_at = (int)r.pick(12);
        if (k == 5) { s.throw_at = (int)r.pick(12); s.throw_id = 7; }
        SimDest<D> d(s);
        if (r.pick(60) == 59) d.make_bad();
        bool bad0 = !d.good();
        size_t at = 0; Text<D> expect;
        for (int step = 0; !r.violated; ++step) {
            size_t to = pick_to(at);
            Exact<S> in(src.data() + off(at), off(to) - off(at));
            auto want = predict(items, at, to, (size_t)-1 >> 1, flags);
            Text<D> before = expect;
            auto piece = model_text(items, at, at + want.items);
            expect.insert(expect.end(), piece.begin(), piece.end());
            typename Trans<S, D>::Z res;
            try { res = t.dest[way](t, in.begin(), in.end(), d, notifier, flags); }
            catch (const SimError&) {
                if (s.throw_at < 0) { violate("strange_exception", "%s: exception that nobody threw", where().c_str()); return; }
                auto got = d.delivered();
                if (got.size() > expect.size() || !std::equal(got.begin(), got.end(), expect.begin())) violate("not_a_prefix", "%s: after an exception: \"%s\" is no prefix of \"%s\"", where().c_str(), show(got).c_str(), show(expect).c_str());
                r.nontrivial = true;
                return;
            }
            SIM_COUNT("steps");
            ptrdiff_t consumed = res.stale_src_ptr - in.begin();
            ptrdiff_t now = consumed < 0 || consumed > in.end() - in.begin() ? -1 : item_at(at, off(at) + (size_t)consumed, res.u32dist);
            if (step < 40) ev("step %d into destination: items [%zu,%zu): wrote %td, consumed %td+%d, %s", step, at, to, res.ssize, consumed, res.u32dist, reason_name(res.stop_reason));
            if (d.refreshes() > 0) r.nontrivial = true;
            if (now < 0) { violate("not_at_boundary", "%s into a destination: stopped at unit %td + %d code points, which is not a boundary", where().c_str(), consumed, res.u32dist); return; }
            if (!d.good()) {
                if (bad0 && (res.ssize || consumed || res.u32dist)) violate("bad_destination_used", "%s: reports %td units written to a destination that was bad before", where().c_str(), res.ssize);
                if (res.stop_reason != Reason::insufficient_output_space) { violate("wrong_reason", "%s: destination turned bad, but the reason is %s", where().c_str(), reason_name(res.stop_reason)); return; }
                Text<D> got = d.delivered(); Text<D> exp2 = before;
                auto done = model_text(items, at, (size_t)now);
                exp2.insert(exp2.end(), done.begin(), done.end());
                if (!bad0 && got != exp2) { violate("wrong_after_failure", "%s: delivered \"%s\", but reports to have transcoded \"%s\"", where().c_str(), show(got).c_str(), show(exp2).c_str()); return; }
                if ((size_t)res.ssize != done.size()) violate("wrong_count_after_failure", "%s: counts %td units instead of %zu", where().c_str(), res.ssize, done.size());
                return;
            }
            if (res.stop_reason != want.why) { violate(cls("wrong_reason", at, to, (size_t)-1 >> 1, res.ssize, now, res.stop_reason), "%s into a destination: %s instead of %s", where().c_str(), reason_name(res.stop_reason), reason_name(want.why)); return; }
            if ((size_t)now != at + want.items || (size_t)res.ssize != want.units) { violate(cls("wrong_amount", at, to, (size_t)-1 >> 1, res.ssize, now, res.stop_reason), "%s into a destination: %td units, item %td instead of %zu units, item %zu", where().c_str(), res.ssize, now, want.units, at + want.items); return; }
            if (d.snapshot() != expect) { violate("wrong_output", "%s into a destination: \"%s\" instead of \"%s\"", where().c_str(), show(d.snapshot()).c_str(), show(expect).c_str()); return; }
            at = (size_t)now;
            if (res.stop_reason == Reason::completed && at == items.size()) break;
            if (res.stop_reason != Reason::completed) { ++at; SIM_COUNT("stopped_at_error"); }
        }
    }
};

template <class S, class D> void pair_run(Run& r, const Trans<S, D>& t)
{
    Flags flags = (Flags)(r.pick(3) ? r.pick(8) : 0);
    bool lax = strf::with_lax_surrogate_policy(flags);
    int way = (int)r.pick(Trans<S, D>::ways);
    bool to_dest = r.pick(3) == 2;
    auto has = [&](int w) { return to_dest ? t.dest[w] != nullptr : t.array[w] != nullptr; };
    while (!has(way)) way = (way + 1) % Trans<S, D>::ways;
    bool su = is_utf(t.sc.id()), du = is_utf(t.dc.id());
    GenOpt o; o.malformed = true;
    Text<S> src;
    uint32_t kind = r.pick(4);
    if (!su || kind == 0) {                       // characters of single-byte charsets
        int n = (int)r.pick(r.pick(2) ? 100 : 30);
        uint32_t errs = r.pick(4);
        for (int i = 0; i < n; ++i) {
            if (!su) { src.push_back((S)(r.pick(3) ? 0x20 + r.pick(0x5f) : 0x80 + r.pick(0x80))); continue; }
            if (errs && r.pick(8) < errs) { if (r.pick(2)) put_malformed(r, src); else put_u(src, pick_codepoint(r)); }
            else put_u(src, r.pick(2) ? (uint32_t)r.range('a', 'z') : pick_latin(r));
        }
    } else src = gen_text<S>(r, o, 200);
    if (lax && su && r.pick(2)) for (uint32_t k = r.pick(5); k--;) { Text<S> x; put_u(x, 0xD800 + r.pick(0x800)); src.insert(src.begin() + r.pick((uint32_t)src.size() + 1), x.begin(), x.end()); }
    if (du == false && r.pick(6) == 5) put_u(src, 0xFFFD);
    auto items = model_items(src.data(), src.size(), t.sc, t.dc, lax);
    if (way_is_unsafe(way)) {                     // precondition: valid source
        Text<S> ok;
        for (auto& it : items) if (it.kind != Kind::invalid) ok.insert(ok.end(), src.begin() + it.off, src.begin() + it.off + it.len);
        src = ok;
        // two lone surrogates may have become neighbours: they are one character then
        items = model_items(src.data(), src.size(), t.sc, t.dc, lax);
    }
    Case<S, D> c{r, t, src, items, flags, way, r.pick(2) ? &deaf : nullptr};
    // Known finding: a direct transcoder from UTF-32 to a single-byte charset
    // takes unsupported characters from U+E000 to U+FFFF for surrogates.
    bool u32src = t.sc.id() == strf::csid_utf32;
    if (u32src && !du && !lax && !way_is_unsafe(way) && way != Trans<S, D>::composed) {
        bool keep_odd = r.pick(300) == 299;
        Text<S> clean; bool found = false;
        for (auto& it : c.items) {
            bool odd = it.kind == Kind::unsupported && it.cp >= 0xE000 && it.cp <= 0xFFFF;
            found |= odd && keep_odd;
            if (!odd || keep_odd) clean.push_back(src[it.off]);
        }
        c.src = clean;
        c.items = model_items(clean.data(), clean.size(), t.sc, t.dc, lax);
        if (found) {
            c.pinned = c.items;
            for (auto& it : c.pinned) if (it.kind == Kind::unsupported && it.cp >= 0xE000 && it.cp <= 0xFFFF) it.kind = Kind::invalid;
        }
    }
    int bad = 0, uns = 0;
    for (auto& it : c.items) { bad += it.kind == Kind::invalid; uns += it.kind == Kind::unsupported; }
    ev("%s by %s%s, flags %d, %zu units, %zu items, %d invalid, %d unsupported: \"%s\"", t.name, way_name(way), to_dest ? " into a destination" : "", (int)flags, c.src.size(), c.items.size(), bad, uns, show(c.src).c_str());
    r.note(mix((uint64_t)way * 2 + to_dest, (uint64_t)flags) ^ mix((uint64_t)t.sc.id(), (uint64_t)t.dc.id()) ^ mix(bad, uns));
    SIM_COUNT_N("fault.invalid_sequence", (uint64_t)bad);
    SIM_COUNT_N("fault.unsupported_character", (uint64_t)uns);
    if (to_dest) c.destinations(); else c.arrays();
}

template <class T> constexpr const char* cname()
{
    if (std::is_same_v<T, char>) return "char";
    if (std::is_same_v<T, char8_t>) return "char8_t";
    if (std::is_same_v<T, char16_t>) return "char16_t";
    if (std::is_same_v<T, char32_t>) return "char32_t";
    return "wchar_t";
}
template <class S, class D> void utf_pair(Run& r)
{
    static std::string n0 = std::string("utf<") + cname<S>() + "> to utf<" + cname<D>() + ">", n1 = n0 + " (run-time)";
    if (r.pick(3)) { static const auto t = make_trans<S, D>(n0.c_str(), strf::utf_t<S>(), strf::utf_t<D>()); pair_run(r, t); }
    else { static const auto t = make_trans<S, D>(n1.c_str(), strf::utf_t<S>().to_dynamic(), strf::utf_t<D>().to_dynamic()); pair_run(r, t); }
}
template <class S> void from_utf(Run& r)
{
    switch (r.pick(5)) {
        case 0: utf_pair<S, char>(r); break;
        case 1: utf_pair<S, char8_t>(r); break;
        case 2: utf_pair<S, char16_t>(r); break;
        case 3: utf_pair<S, char32_t>(r); break;
        default: utf_pair<S, wchar_t>(r); break;
    }
}
template <class D> void to_single(Run& r, uint32_t k)   // any UTF to a single-byte charset
{
    static std::vector<Trans<D, char>> v = [] { std::vector<Trans<D, char>> w; for (uint32_t i = 0; i < num_sbc; ++i) w.push_back(make_trans<D, char>((new std::string(std::string("utf<") + cname<D>() + "> to " + sbc(i).name()))->c_str(), strf::utf_t<D>().to_dynamic(), sbc(i))); return w; }();
    pair_run(r, v[k]);
}
template <class D> void from_single(Run& r, uint32_t k)
{
    static std::vector<Trans<char, D>> v = [] { std::vector<Trans<char, D>> w; for (uint32_t i = 0; i < num_sbc; ++i) w.push_back(make_trans<char, D>((new std::string(std::string(sbc(i).name()) + " to utf<" + cname<D>() + ">"))->c_str(), sbc(i), strf::utf_t<D>().to_dynamic())); return w; }();
    pair_run(r, v[k]);
}
template <class SC, class DC> void static_pair(Run& r)
{
    using S = typename SC::code_unit; using D = typename DC::code_unit;
    static std::string n = std::string(SC().name()) + " to " + DC().name() + " (static)";
    static const auto t = make_trans<S, D>(n.c_str(), SC(), DC());
    pair_run(r, t);
}
void single_to_single(Run& r, uint32_t a, uint32_t b)
{
    auto t = make_trans<char, char>("", sbc(a), sbc(b));
    std::string n = std::string(sbc(a).name()) + " to " + sbc(b).name();
    t.name = n.c_str();
    pair_run(r, t);
}
void run(Run& r)
{
    InSim g; OutSim o;
    switch (r.pick(8)) {
        case 0: case 1: case 2: case 3:
            switch (r.pick(5)) {
                case 0: from_utf<char>(r); break;
                case 1: from_utf<char8_t>(r); break;
                case 2: from_utf<char16_t>(r); break;
                case 3: from_utf<char32_t>(r); break;
                default: from_utf<wchar_t>(r); break;
            }
            break;
        case 4: {
            uint32_t k = r.pick(num_sbc);
            switch (r.pick(5)) { case 0: to_single<char>(r, k); break; case 1: to_single<char8_t>(r, k); break; case 2: to_single<char16_t>(r, k); break; case 3: to_single<char32_t>(r, k); break; default: to_single<wchar_t>(r, k); }
            break;
        }
        case 5: {
            uint32_t k = r.pick(num_sbc);
            switch (r.pick(5)) { case 0: from_single<char>(r, k); break; case 1: from_single<char8_t>(r, k); break; case 2: from_single<char16_t>(r, k); break; case 3: from_single<char32_t>(r, k); break; default: from_single<wchar_t>(r, k); }
            break;
        }
        case 6: { uint32_t a = r.pick(num_sbc), b = r.pick(2) ? a : r.pick(num_sbc); single_to_single(r, a, b); break; }
        default:
            switch (r.pick(7)) {
                case 0: static_pair<strf::windows_1252_t<char>, strf::windows_1252_t<char>>(r); break;
                case 1: static_pair<strf::utf32_t<char32_t>, strf::iso_8859_7_t<char>>(r); break;
                case 2: static_pair<strf::iso_8859_3_t<char>, strf::utf32_t<char32_t>>(r); break;
                case 3: static_pair<strf::utf8_t<char>, strf::windows_1251_t<char>>(r); break;
                case 4: static_pair<strf::iso_8859_3_t<char>, strf::utf8_t<char>>(r); break;
                case 5: static_pair<strf::ascii_t<char>, strf::iso_8859_15_t<char>>(r); break;
                default: static_pair<strf::iso_8859_8_t<char>, strf::utf16_t<char16_t>>(r); break;
            }
    }
}
} // namespace
const Property property = {
    "C09", "A run makes a source of valid, malformed and unsupported pieces, picks a pair of charsets, a way to transcode (static, dynamic, composed through UTF-32, unsafe, function templates), flags, and a sequence of output capacities; it transcodes step by step, resuming where each step stopped, into exact-size buffers, with size calculations under the same limits in between. Every step must do what an independent model of the charsets predicts. Non-trivial: at least one step stopped before the end of the source.",
    run, 450000, 20000000, 2000,
    "strf charsets, transcoders, decode_encode and transcode functions, size functions",
    "output arrays and destinations",
    "sequence of output capacities, amounts written and stop reasons"};
} // namespace sim
