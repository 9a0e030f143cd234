// C15: low-level output buffer operations behave as an append-only stream.
#include "history.hpp"
#include "targets.hpp"
namespace sim {
namespace {
HistOpt opts(bool requests) { HistOpt o; o.programs = false; o.requests = requests; o.max_ops = 10; return o; }

// user-defined buffers of every documented minimum size
template <class T, unsigned K> void user_buffer(Run& r)
{
    ev("output_buffer<%zu-byte elements, %u>", sizeof(T), K);
    auto h = gen_history<T>(r, opts(true));
    Schedule sc; sc.run = &r;
    const int fault = (int)r.pick(4);          // 0,1 none 2 turns bad 3 throws
    if (fault == 2) sc.fail_at = (int)r.pick(8);
    if (fault == 3) { sc.throw_at = (int)r.pick(8); sc.throw_id = 1 + (int)r.pick(1000); sc.keep_good_on_throw = 0; }
    SimDest<T, K> d(sc);
    if (r.chance(1, 12)) { ev("bad from the start"); d.make_bad(); }
    const bool bad_at_start = !d.good();
    Text<T> want;
    Text<T> frozen;
    for (size_t i = 0; i < h.size() && !r.violated; ++i) {
        const bool was_good = d.good();
        if (!was_good) frozen = d.snapshot();
        append_text(want, h[i].text);
        bool threw = false;
        try { perform(h[i], d); }
        catch (const SimError& e) {
            threw = true;
            if (e.id != sc.throw_id) violate("wrong_exception", "exception %d instead of %d", e.id, sc.throw_id);
        }
        auto s = d.snapshot();
        if (was_good && d.good() && !threw) {
            if (s != want) violate("not_appended", "after op %zu: %s", i, diff_str(s, want).c_str());
        } else if (was_good) {
            if (d.refreshes() <= (fault == 2 ? sc.fail_at : fault == 3 ? sc.throw_at : 1 << 30)) violate("bad_by_itself", "turned bad without a failing refresh");
            if (!is_prefix(s, want)) violate("not_prefix", "after failing op %zu: %s", i, diff_str(s, want).c_str());
            if (threw) SIM_COUNT("histories_threw");
        } else if (s != frozen) violate("delivered_when_bad", "op %zu on a bad destination delivered characters", i);
    }
    if (bad_at_start && !d.finish().empty()) violate("delivered_when_bad", "a destination bad from the start received characters");
    r.nontrivial |= d.refreshes() > 0;
}

template <class C, class D> void drive(const History<C>& h, D& d, Text<C>& want, Text<C>& upto_bad, bool& went_bad)
{
    for (auto& x : h) {
        if (cur->violated) return;
        bool g = d.good();
        append_text(want, x.text);
        perform(x, d);
        if (g && !d.good() && !went_bad) { went_bad = true; upto_bad = want; }
    }
}
template <class C, class R> void check_fixed(Run& r, const C* buf, size_t cap, const R& res, const Text<C>& want, const Text<C>& upto, bool went_bad, bool requests, bool z)
{
    if (res.ptr < buf || res.ptr > buf + cap) { violate("wrote_outside", "result pointer outside the array"); return; }
    Text<C> got(buf, (const C*)res.ptr);
    if (res.truncated != went_bad) violate("truncated_flag", "truncated is %d", res.truncated);
    if (!went_bad && got != want) violate("not_appended", "%s", diff_str(got, want).c_str());
    if (went_bad && !is_prefix(got, upto)) violate("not_prefix", "%s", diff_str(got, upto).c_str());
    if (!requests && went_bad && want.size() <= cap) violate("truncated_flag", "truncated although %zu characters fit in %zu", want.size(), cap);
    if (!requests && went_bad && got.size() != cap) violate("not_filled", "%zu of %zu characters kept by put/write/iterator", got.size(), cap);
    if (z && *res.ptr != C()) violate("terminator", "no terminator");
    r.nontrivial |= went_bad;
}
template <class C> void fixed(Run& r, bool z)
{
    bool requests = r.chance(1, 2);
    auto h = gen_history<C>(r, opts(requests));
    auto all = history_text(h);
    size_t n;
    switch (r.pick(4)) {
        case 0: n = all.size() + r.pick(4); break;
        case 1: n = r.pick((uint32_t)all.size() + 1); break;
        case 2: n = r.pick(80); break;
        default: n = all.size() ? all.size() - 1 : 0; break;
    }
    if (z && n == 0) n = 1;
    ev("%s of %zu for %zu characters", z ? "cstr_destination" : "array_destination", n, all.size());
    C* a = static_cast<C*>(malloc(n * sizeof(C) + (n == 0)));
    cur->arena.push_back(a);
    if (n == 0) a = (C*)((char*)a);
    Text<C> want, upto; bool bad = false;
    if (z) {
        strf::basic_cstr_destination<C> d(a, a + n);
        drive(h, d, want, upto, bad);
        if (r.violated) return;
        auto res = d.finish();
        check_fixed(r, a, n - 1, res, want, upto, bad, requests, true);
        Text<C> before(a, a + n);
        Text<C> w2, u2; bool b2 = true;
        auto h2 = gen_history<C>(r, opts(true), 0);
        drive(h2, d, w2, u2, b2);
        if (d.good()) violate("good_again", "finished cstr_destination is good");
        if (Text<C>(a, a + n) != before) violate("delivered_when_bad", "operations after finish() changed the array");
    } else {
        strf::array_destination<C> d(a, a + n);
        drive(h, d, want, upto, bad);
        if (r.violated) return;
        auto res = d.finish();
        check_fixed(r, a, n, res, want, upto, bad, requests, false);
        if (bad) {
            Text<C> before(a, a + n);
            auto h2 = gen_history<C>(r, opts(true), 0);
            Text<C> w2, u2; bool b2 = true;
            drive(h2, d, w2, u2, b2);
            auto res2 = d.finish();
            if (Text<C>(a, a + n) != before || res2.ptr != res.ptr || !res2.truncated) violate("delivered_when_bad", "operations after truncation changed the array or the result");
        }
    }
}
template <class C> void strings(Run& r, int kind)
{
    auto h = gen_history<C>(r, opts(true));
    auto h2 = gen_history<C>(r, opts(true), 0);
    Text<C> want, up; bool bad = false;
    std::basic_string<C> s;
    auto after = [&](auto& d) {
        if (d.good()) violate("good_after_finish", "the writer is good after finish()");
        Text<C> w, u; bool b = true;
        drive(h2, d, w, u, b);
    };
    if (kind == 0) {
        for (C c : gen_plain<C>(r, 100)) s.push_back(c);
        append_text(want, Text<C>(s.begin(), s.end()));
        ev("string_appender to %zu characters", s.size());
        bool fin = r.chance(1, 2);
        strf::basic_string_appender<C> d(s);
        { drive(h, d, want, up, bad); }
        if (bad) violate("bad_by_itself", "turned bad");
        d.finish();
        auto s1 = s;
        after(d);
        if (s != s1) violate("delivered_when_bad", "operations after finish() changed the string");
        (void)fin;
    } else if (kind == 1) {
        ev("string_maker");
        strf::basic_string_maker<C> d;
        drive(h, d, want, up, bad);
        if (bad) violate("bad_by_itself", "turned bad");
        s = d.finish();
        after(d);
    } else {
        size_t n = r.pick(3) ? r.pick(300) : 0;
        ev("sized_string_maker %zu", n);
        strf::basic_sized_string_maker<C> d(n);
        drive(h, d, want, up, bad);
        if (bad) violate("bad_by_itself", "turned bad");
        s = d.finish();
        auto s1 = s;
        after(d);
        if (s != s1) violate("delivered_when_bad", "operations after finish() changed the string");
    }
    r.nontrivial = true;
    Text<C> got(s.begin(), s.end());
    if (!r.violated && got != want) violate("not_appended", "%s", diff_str(got, want).c_str());
}
template <class C, class D, class Close> void file_like(Run& r, D& d, Close taken, bool may_fail)
{
    auto h = gen_history<C>(r, opts(true));
    Text<C> want, upto; bool bad = false;
    drive(h, d, want, upto, bad);
    if (r.violated) return;
    if (bad && !may_fail) violate("bad_by_itself", "turned bad although everything was accepted");
    bool was_good = d.good();
    Text<C> before = taken();
    auto res = d.finish();
    Text<C> got = taken();
    if (!was_good && got != before) violate("delivered_when_bad", "finish() of a bad writer delivered");
    if (!was_good && res.success) violate("success", "success reported by a bad writer");
    if (!is_prefix(got, want)) violate("not_prefix", "%s", diff_str(got, want).c_str());
    if (res.success != (got == want)) if (!(bad && got == upto)) violate("success", "success %d, %s", res.success, diff_str(got, want).c_str());
    if (res.success && got != want) violate("not_appended", "%s", diff_str(got, want).c_str());
    if ((size_t)res.count != got.size()) violate("count", "count %zu, accepted %zu", (size_t)res.count, got.size());
    auto h2 = gen_history<C>(r, opts(true), 0);
    Text<C> w, u; bool b = true;
    drive(h2, d, w, u, b);
    if (taken() != got) violate("delivered_when_bad", "operations after finish() delivered characters");
    if (d.good()) violate("good_again", "good after finish()");
    r.nontrivial = true;
}
template <class C> void cfile(Run& r)
{
    SimFile f;
    bool faulty = r.chance(1, 2);
    if (faulty) { f.fail_at = (int64_t)(r.pick(400) * sizeof(C)); f.transient = r.chance(1, 2); }
    f.open(_IONBF, 0);
    ev("FILE*, %zu-byte characters, fails at %ld%s", sizeof(C), (long)f.fail_at, f.transient ? " once" : "");
    auto taken = [&] { Text<C> t(f.got.size() / sizeof(C)); memcpy(t.data(), f.got.data(), t.size() * sizeof(C)); return t; };
    if (r.chance(1, 2)) { strf::narrow_cfile_writer<C, 64> d(f.f); file_like<C>(r, d, taken, faulty); }
    else { strf::narrow_cfile_writer<C, 211> d(f.f); file_like<C>(r, d, taken, faulty); }
}
template <class C> void sbuf(Run& r)
{
    bool faulty = r.chance(1, 2);
    int how = (int)r.pick(2);
    SimStreambuf<C> sb(how, 0, faulty ? SimStreambuf<C>::f_refuse : 0, r.pick(400), r.chance(1, 2));
    ev("streambuf how %d faulty %d", how, faulty);
    strf::basic_streambuf_writer<C> d(sb);
    file_like<C>(r, d, [&] { return sb.taken(); }, faulty);
}
template <class C> void discard(Run& r)
{
    ev("discarder");
    strf::discarder<C> d;
    auto h = gen_history<C>(r, opts(true));
    Text<C> w, u; bool b = true;
    drive(h, d, w, u, b);
    if (d.good()) violate("good_again", "discarder is good");
    r.nontrivial = true;
}
void run(Run& r)
{
    uint32_t k = r.pick(16);
    switch (k) {
        case 0: user_buffer<char, 6>(r); break;
        case 1: user_buffer<char16_t, 6>(r); break;
        case 2: user_buffer<int, 0>(r); break;
        case 3: user_buffer<unsigned char, 1>(r); break;
        case 4: user_buffer<char32_t, 3>(r); break;
        case 5: user_buffer<wchar_t, 8>(r); break;
        case 6: user_buffer<long long, 5>(r); break;
        default:
            with_char_type(r.pick(5), [&](auto c) {
                using C = decltype(c);
                switch (k) {
                    case 7: case 8: fixed<C>(r, true); break;
                    case 9: case 10: fixed<C>(r, false); break;
                    case 11: strings<C>(r, 0); break;
                    case 12: strings<C>(r, 1); break;
                    case 13: strings<C>(r, 2); break;
                    case 14: if (r.chance(1, 10)) discard<C>(r); else cfile<C>(r); break;
                    default: if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) sbuf<C>(r); else sbuf<char>(r); break;
                }
            });
    }
}
}
const Property property{
    "C15",
    "A run applies a random history of put, write, iterator, ensure+advance, fill-the-space, ensure, flush operations to one destination (user-defined buffers with every documented minimum space, C strings, arrays, strings, C streams, stream buffers, discarder) with random buffer sizes, refusals and exceptions, and compares with an append-only vector after every operation. Non-trivial: a refresh, truncation or delivery happened.",
    run, 400000, 8000000, 200,
    "strf's output_buffer, all its destination types, output_buffer_iterator",
    "user-defined output buffers; the device behind FILE* (fopencookie); std::streambuf subclass",
    "sequences of (characters taken, size of the next buffer) at the refreshes of a run"
};
}
