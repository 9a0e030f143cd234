// C03: streambuf destinations deliver exactly the text and report failures truthfully.
#include "history.hpp"
#include "targets.hpp"
#include <ostream>
namespace sim {
namespace {
template <class C, class S> auto call(const S& syn, const Program<C>& p, int split)
{
    const auto& a = p.anys;
    if (split && p.shape <= 1) {
        if (a.size() == 1) return syn(a[0]);
        if (a.size() == 2) return syn(a[0], a[1]);
        if (a.size() == 3) return syn(a[0], a[1], a[2]);
        return syn(a[0], a[1], a[2], a[3]);
    }
    return syn(prog_p<C>{&p});
}
struct Cfg { int how; size_t area; int fault; size_t at; bool transient; int id; };
Cfg pick_cfg(Run& r, size_t len)
{
    Cfg c{};
    c.how = (int)r.pick(3);
    c.area = r.pick(100);
    c.fault = (int)r.pick(3);
    c.at = r.chance(1, 4) ? r.pick(4) * 64 : r.pick((uint32_t)len + 1);
    c.transient = r.chance(1, 2);
    c.id = 1 + (int)r.pick(1000);
    return c;
}
template <class C> void verify(Run& r, const Cfg& c, SimStreambuf<C>& sb, const Text<C>& ref, bool have, bool success, long long count, int threw)
{
    auto got = sb.taken();
    bool fired = sb.faults > 0;
    ev("streambuf took %zu of %zu, fault %d fired %d, threw %d, result %d: success %d count %lld", got.size(), ref.size(), c.fault, fired, threw, have, success, count);
    r.note(got.size() << 20 ^ ref.size() << 4 ^ (uint64_t)fired << 3 ^ (uint64_t)success << 2 ^ (uint64_t)c.how);
    if (fired) r.nontrivial = true;
    if (ref.size() > 64) r.nontrivial = true;
    if (!is_prefix(got, ref)) { violate("not_prefix", "%s", diff_str(got, ref).c_str()); return; }
    if (fired && c.how != 2 && got.size() != c.at) violate("after_failure", "%zu characters taken, the failure was at %zu", got.size(), c.at);
    if (fired && c.how != 2 && c.transient && sb.faults != 1) violate("after_failure", "written to again after the failure");
    if (!fired && got != ref) violate("text_missing", "%s", diff_str(got, ref).c_str());
    if (have) {
        bool all = !fired;
        if (success != all) violate("success", "success is %d, taken %zu of %zu", success, got.size(), ref.size());
        if (c.fault != 2 && count != (long long)got.size()) violate("count", "count is %lld, taken %zu", count, got.size());
    }
}
template <class C> void one_call(Run& r)
{
    using SB = SimStreambuf<C>;
    GenOpt o; o.max_fill = r.chance(1, 3) ? 900 : 150;
    auto* p = gen_program<C>(r, o);
    auto ref = reference_text(*p);
    for (int rep = r.range(1, 2); rep-- && !r.violated;) {
        Cfg c = pick_cfg(r, ref.size());
        if (sizeof(C) == 2) c.how = 0;        // libstdc++ cannot pass U+FFFF through overflow()
        int split = (int)r.pick(2), form = (int)r.pick(2);
        SB sb(c.how, c.area, c.fault, c.at, c.transient); sb.throw_id = c.id;
        ev("%s streambuf how %d area %zu fault %d at %zu%s", char_name<C>(), c.how, c.area, c.fault, c.at, c.transient ? " once" : "");
        StepBudget b(60'000'000, "print to a stream buffer");
        bool success = false, have = false; long long count = 0; int threw = 0;
        try {
            if (form == 0) { auto x = call<C>(strf::to(static_cast<std::basic_streambuf<C>&>(sb)), *p, split); success = x.success; count = x.count; }
            else { auto x = call<C>(strf::to(static_cast<std::basic_streambuf<C>*>(&sb)), *p, split); success = x.success; count = x.count; }
            have = true;
        } catch (const SimError& e) { threw = e.id; }
        if (threw && (c.fault != 2 || threw != c.id)) violate("wrong_exception", "exception %d", threw);
        if (!threw && c.fault == 2 && sb.faults) violate("exception_lost", "the exception of the stream buffer was lost");
        verify(r, c, sb, ref, have, success, count, threw);
    }
}
template <class C> void object(Run& r)
{
    using SB = SimStreambuf<C>;
    HistOpt ho; ho.max_ops = 6; ho.gen.max_fill = 150;
    auto h = gen_history<C>(r, ho);
    auto h2 = gen_history<C>(r, ho, 0);
    auto ref = history_text(h);
    Cfg c = pick_cfg(r, ref.size());
    if (sizeof(C) == 2) c.how = 0;
    int end = (int)r.pick(3);
    SB sb(c.how, c.area, c.fault, c.at, c.transient); sb.throw_id = c.id;
    ev("%s writer, streambuf how %d area %zu fault %d at %zu%s end %d", char_name<C>(), c.how, c.area, c.fault, c.at, c.transient ? " once" : "", end);
    StepBudget b(60'000'000, "print to a stream buffer");
    bool success = false, have = false; long long count = 0; int threw = 0;
    int state = 0;       // 1: destroying
    try {
        strf::basic_streambuf_writer<C> d(sb);
        auto part = [&](auto f) {
            int before = sb.faults;
            try { f(); }
            catch (const SimError& e) {
                threw = e.id;
                if (c.fault != 2 || e.id != c.id) violate("wrong_exception", "exception %d", e.id);
                if (d.good()) violate("good_after_throw", "the writer is good after the stream buffer threw");
                return false;
            }
            if (c.fault == 2 && sb.faults != before) violate("exception_lost", "the exception of the stream buffer was lost");
            return true;
        };
        bool ok = true;
        for (auto& x : h) {
            if (r.violated) return;
            ok = part([&] { perform(x, d); });
            if (!ok) break;
            if (!d.good() && !sb.faults) violate("bad_by_itself", "the writer turned bad although everything was taken");
        }
        auto go_on = [&] {
            auto before = sb.taken(); int f = sb.faults;
            for (auto& x : h2) if (!r.violated) if (!part([&] { perform(x, d); })) violate("after_failure", "output to a bad writer reached the stream buffer");
            if (sb.taken() != before || sb.faults != f) violate("after_finish", "output to a finished or failed writer reached the stream buffer");
        };
        if (!ok) {
            if (end) go_on();
            if (end == 2) { auto t = sb.taken(); auto x = d.finish(); if (x.success) violate("success", "success after an exception"); if (sb.taken() != t) violate("after_failure", "finish() after an exception delivered"); }
        } else if (end != 1) {
            ok = part([&] { auto x = d.finish(); success = x.success; count = x.count; have = true; });
            if (d.good()) violate("good_after_finish", "the writer is good after finish()");
            if (end == 2 && !r.violated) go_on();
        }
        state = 1;
    } catch (const SimError&) { violate(state ? "destructor_threw" : "wrong_exception", "exception at the wrong place"); }
    if (!r.violated) verify(r, c, sb, ref, have, success, count, threw);
}
void run(Run& r)
{
    uint32_t k = r.pick(6);
    bool obj = r.chance(1, 3);
    auto f = [&](auto c) { using C = decltype(c); if (obj) object<C>(r); else one_call<C>(r); };
    switch (k) { case 0: case 1: f(char()); break; case 2: case 3: f(wchar_t()); break; case 4: f(char16_t()); break; default: f(char32_t()); break; }
}
}
const Property property{
    "C03",
    "A run prints a random program, or a history of prints and low-level writes, to a stream buffer that takes whole sequences, single characters or fills a small put area, and that refuses or throws at a seeded character, for good or once; what it took, the success flag, the count and the exception are compared with the reference text. Non-trivial: it refused or threw, or the text was longer than the writer's buffer.",
    run, 200000, 4000000, 100,
    "strf as a whole; basic_streambuf_writer, to(streambuf&), to(streambuf*); std::basic_streambuf",
    "user-defined stream buffer with seeded refusals and exceptions",
    "(characters taken, length of the text, fault fired, success, kind of stream buffer)"
};
}
