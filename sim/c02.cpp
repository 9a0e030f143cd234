// C02: C stream destinations deliver exactly the text and report failures truthfully.
#include "history.hpp"
#include "targets.hpp"
#include <clocale>
#include <cwchar>
#include <sys/mman.h>
#include <fcntl.h>

// seam for wide streams, which fopencookie does not support (linked with --wrap)
namespace { int64_t g_wide_fail = -1; bool g_wide_once = false; int64_t g_wide_n = 0; int g_wide_fired = 0; int64_t g_wide_after = 0; }
extern "C" wint_t __real_fputwc(wchar_t, FILE*);
extern "C" wint_t __wrap_fputwc(wchar_t c, FILE* f)
{
    sim::InSim g;
    if (g_wide_fired) ++g_wide_after;
    if (g_wide_fail >= 0 && g_wide_n >= g_wide_fail && !(g_wide_once && g_wide_fired)) { ++g_wide_fired; SIM_COUNT("fault.fputwc_fails"); errno = EIO; return WEOF; }
    wint_t x = __real_fputwc(c, f);
    if (x != WEOF) ++g_wide_n;
    return x;
}

namespace sim {
namespace {
// what the device must have received, and the number of characters accepted
struct Expect { std::string bytes; std::vector<size_t> ends; };   // end offset of each character
template <class C> Expect expect_narrow(const Text<C>& t)
{
    Expect e;
    e.bytes.assign(reinterpret_cast<const char*>(t.data()), t.size() * sizeof(C));
    for (size_t i = 1; i <= t.size(); ++i) e.ends.push_back(i * sizeof(C));
    return e;
}
struct Cfg { int mode; size_t vbuf; int64_t fail; bool transient; };

template <class C> Cfg pick_cfg(Run& r, size_t bytes)
{
    Cfg c{};
    c.mode = (int)r.pick(4) ? _IONBF : r.pick(2) ? _IOFBF : _IOLBF;
    c.vbuf = 1 + r.pick(300);
    switch (r.pick(5)) {
        case 0: case 1: c.fail = -1; break;
        case 2: c.fail = (int64_t)r.pick((uint32_t)bytes + 1); break;
        case 3: c.fail = (int64_t)(r.pick((uint32_t)bytes + 1) / sizeof(C) * sizeof(C)); break;
        default: c.fail = r.pick(2) ? 0 : (int64_t)(r.pick(5) * 64 * sizeof(C)); break;
    }
    // a device that recovers: glibc drops what it had buffered when a write
    // fails, so only an unbuffered stream says exactly what it accepted
    c.transient = c.mode == _IONBF && r.chance(1, 2);
    return c;
}

void verify(Run& r, const Cfg& c, SimFile& f, const Expect& e, bool enc_refused, bool have_res, bool success, size_t count)
{
    const size_t total = e.ends.size();
    bool fired = f.faults > 0;
    ev("device got %zu of %zu bytes in %llu writes, fault fired %d; result %d: success %d count %zu", f.got.size(), e.bytes.size(), (unsigned long long)f.calls, fired, have_res, success, count);
    r.note(f.got.size() << 20 ^ e.bytes.size() << 2 ^ (uint64_t)fired << 1 ^ (uint64_t)success);
    if (f.got.compare(0, std::string::npos, e.bytes, 0, f.got.size()) != 0 || f.got.size() > e.bytes.size()) {
        size_t k = 0; while (k < f.got.size() && k < e.bytes.size() && f.got[k] == e.bytes[k]) ++k;
        violate("not_prefix", "the device received other bytes than the text, first difference at %zu of %zu/%zu", k, f.got.size(), e.bytes.size());
        return;
    }
    if (c.mode == _IONBF) {
        size_t want = c.fail >= 0 ? std::min((size_t)c.fail, e.bytes.size()) : e.bytes.size();
        if (f.got.size() != want) violate(f.got.size() < want ? "text_missing" : "after_failure", "the device received %zu bytes, expected %zu", f.got.size(), want);
        size_t chars = 0; while (chars < total && e.ends[chars] <= f.got.size()) ++chars;
        bool all = !enc_refused && chars == total;
        if (have_res) {
            if (success != all) violate("success", "success is %d, %zu of %zu characters accepted", success, chars, total + enc_refused);
            if (count != chars) violate("count", "count is %zu, %zu characters accepted", count, chars);
        }
        if (fired && f.calls_after_fault) violate("after_failure", "%llu writes after the failure", (unsigned long long)f.calls_after_fault);
    } else {
        // everything accepted went into the stdio buffer or to the device
        if (!fired && f.got.size() != e.bytes.size()) violate("text_missing", "the device received %zu of %zu bytes", f.got.size(), e.bytes.size());
        if (have_res) {
            if (!fired && !enc_refused && !success) violate("success", "failure reported although the stream accepted everything");
            if (success && (enc_refused || count != total)) violate("count", "success with count %zu of %zu", count, total);
            if (!fired && count != total) violate("count", "count is %zu of %zu", count, total);
            if (count > total) violate("count", "count %zu of %zu", count, total);
            size_t chars = 0; while (chars < total && e.ends[chars] <= f.got.size()) ++chars;
            if (count < chars) violate("count", "count %zu but the device received %zu characters", count, chars);
        }
    }
    if (fired || e.bytes.size() > 64) r.nontrivial = true;
}

template <class C, class S> auto call(const S& syn, const Program<C>& p, int split)
{
    const auto& a = p.anys;
    if (split && p.shape <= 1) {
        if (a.size() == 1) return syn(a[0]);
        if (a.size() == 2) return syn(a[0], a[1]);
        if (a.size() == 3) return syn(a[0], a[1], a[2]);
        return syn(a[0], a[1], a[2], a[3]);
    }
    return syn(prog_p<C>{&p});
}
template <class C> void one_call(Run& r)
{
    GenOpt o; o.max_fill = r.chance(1, 3) ? 900 : 150;
    auto* p = gen_program<C>(r, o);
    auto ref = reference_text(*p);
    const bool refused = false;
    Expect e = expect_narrow(ref);
    for (int rep = r.range(1, 2); rep-- && !r.violated;) {
        Cfg c = pick_cfg<C>(r, e.bytes.size());
        int split = (int)r.pick(2);
        SimFile f; f.fail_at = c.fail; f.transient = c.transient;
        if (!f.open(c.mode, c.vbuf)) return;
        ev("%s stream mode %d buffer %zu fails at %ld%s", char_name<C>(), c.mode, c.vbuf, (long)c.fail, c.transient ? " once" : "");
        StepBudget b(60'000'000, "print to a C stream");
        bool success; size_t count;
        { auto x = call<C>(strf::to<C>(f.f), *p, split); success = x.success; count = x.count; }
        f.close();
        verify(r, c, f, e, refused, true, success, count);
    }
}
template <class C> void object(Run& r)
{
    HistOpt ho; ho.max_ops = 6; ho.gen.max_fill = 150;
    auto h = gen_history<C>(r, ho);
    auto h2 = gen_history<C>(r, ho, 0);
    auto ref = history_text(h);
    const bool refused = false;
    Expect e = expect_narrow(ref);
    Cfg c = pick_cfg<C>(r, e.bytes.size());
    SimFile f; f.fail_at = c.fail; f.transient = c.transient;
    if (!f.open(c.mode, c.vbuf)) return;
    int end = (int)r.pick(3);          // 0 finish, 1 destroy only, 2 finish and go on
    bool big = r.chance(1, 2);
    ev("%s writer%s, stream mode %d buffer %zu fails at %ld%s end %d", char_name<C>(), big ? " 333" : "", c.mode, c.vbuf, (long)c.fail, c.transient ? " once" : "", end);
    bool success = false; size_t count = 0;
    auto body = [&](auto& d) {
        for (auto& x : h) { if (r.violated) return; perform(x, d); if (!d.good() && !(c.fail >= 0) && !refused) violate("bad_by_itself", "the writer turned bad although the stream accepted everything"); }
        if (end == 1) return;
        auto res = d.finish();
        success = res.success; count = res.count;
        if (d.good()) violate("good_after_finish", "the writer is good after finish()");
        if (end == 2) {
            auto before = f.got; auto n = f.calls;
            for (auto& x : h2) if (!r.violated) perform(x, d);
            if (f.got != before || f.calls != n) violate("after_finish", "output after finish() reached the stream");
            auto again = d.finish();
            if (again.success || again.count != count) violate("result_changed_later", "second finish(): success %d count %zu", again.success, again.count);
        }
    };
    StepBudget b(60'000'000, "print to a C stream");
    if (big) { strf::narrow_cfile_writer<C, 333> d(f.f); body(d); }
    else { strf::narrow_cfile_writer<C, 64> d(f.f); body(d); }
    f.close();
    if (!r.violated) verify(r, c, f, e, refused, end != 1, success, count);
}
// wide streams: a real FILE on a memory file of limited size
struct WideFile {
    FILE* f = nullptr; int fd2 = -1;
    int64_t limit = -1;
    bool open(Run& r)
    {
        InSim g;
        int fd = memfd_create("strf-sim", MFD_ALLOW_SEALING | MFD_CLOEXEC);
        if (fd < 0) return false;
        if (limit >= 0) { if (ftruncate(fd, limit) || fcntl(fd, F_ADD_SEALS, F_SEAL_GROW)) return false; }
        fd2 = dup(fd);
        f = fdopen(fd, "w");
        if (!f) return false;
        setvbuf(f, nullptr, _IONBF, 0);
        (void)r;
        return true;
    }
    std::string close()
    {
        InSim g;
        fclose(f); f = nullptr;
        off_t n = lseek(fd2, 0, SEEK_CUR);
        std::string s((size_t)n, '\0');
        if (n && pread(fd2, s.data(), (size_t)n, 0) != n) s.clear();
        ::close(fd2); fd2 = -1;
        return s;
    }
};
// the bytes stdio's own encoder produces, until it refuses a character
Expect expect_wide(Run& r, const Text<wchar_t>& t, bool& refused)
{
    Expect e; refused = false;
    WideFile f;
    if (!f.open(r)) return e;
    for (wchar_t c : t) {
        if (__real_fputwc(c, f.f) == WEOF) { refused = true; break; }
        e.ends.push_back((size_t)lseek(f.fd2, 0, SEEK_CUR));
    }
    e.bytes = f.close();
    return e;
}
void wide(Run& r)
{
    using C = wchar_t;
    bool obj = r.chance(1, 2);
    HistOpt ho; ho.max_ops = obj ? 5 : 1; ho.max_text = 150; ho.gen.max_fill = 150;
    auto h = gen_history<C>(r, ho);
    if (!obj) { h.resize(1); h[0].kind = HOp<C>::program; h[0].prog = gen_program<C>(r, ho.gen, 3); h[0].text = reference_text(*h[0].prog); }
    auto h2 = gen_history<C>(r, ho, 0);
    auto ref = history_text(h);
    bool refused = false;
    Expect e = expect_wide(r, ref, refused);
    size_t total = ref.size();
    WideFile f;
    switch (r.pick(4)) {
        case 0: break;
        case 1: f.limit = (int64_t)r.pick((uint32_t)e.bytes.size() + 1); break;
        default: break;
    }
    g_wide_fail = r.chance(1, 2) ? (int64_t)r.pick((uint32_t)total + 1) : -1; g_wide_once = r.chance(1, 2);
    if (g_wide_fail >= 0) f.limit = -1;
    g_wide_n = 0; g_wide_fired = 0; g_wide_after = 0;
    if (!f.open(r)) { ev("no memory file"); return; }
    int end = obj ? (int)r.pick(3) : 0;
    ev("wide stream, device limit %ld, fputwc fails at %ld%s, end %d", (long)f.limit, (long)g_wide_fail, g_wide_once ? " once" : "", end);
    StepBudget b(60'000'000, "print to a wide C stream");
    bool success = false; size_t count = 0;
    if (!obj) {
        auto x = call<C>(strf::wto(f.f), *h[0].prog, 1);
        success = x.success; count = x.count;
    } else {
        strf::wide_cfile_writer d(f.f);
        for (auto& x : h) if (!r.violated) perform(x, d);
        if (end != 1) {
            auto res = d.finish(); success = res.success; count = res.count;
            if (d.good()) violate("good_after_finish", "the writer is good after finish()");
            if (end == 2) {
                auto n = g_wide_n; auto a = g_wide_after;
                for (auto& x : h2) if (!r.violated) perform(x, d);
                if (g_wide_n != n || g_wide_after != a) violate("after_finish", "output after finish() reached the stream");
            }
        }
    }
    auto got = f.close();
    size_t chars = e.ends.size();                        // what must have been accepted
    bool all = !refused;
    if (f.limit >= 0) { size_t k = 0; while (k < chars && e.ends[k] <= (size_t)f.limit) ++k; if (k < chars) { chars = k; all = false; SIM_COUNT("fault.device_full"); } }
    if (g_wide_fail >= 0 && (size_t)g_wide_fail < chars) { chars = (size_t)g_wide_fail; all = false; }
    if (refused && all) {}
    if (!all && refused) SIM_COUNT("fault.stream_refuses_character");
    size_t bytes = chars ? e.ends[chars - 1] : 0;
    ev("device got %zu bytes of %zu, success %d count %zu of %zu", got.size(), e.bytes.size(), success, count, total);
    r.note(got.size() << 20 ^ e.bytes.size() << 2 ^ (uint64_t)success);
    if (got != e.bytes.substr(0, bytes)) violate(got.size() > bytes ? "after_failure" : "text_missing", "the device received %zu bytes, expected %zu", got.size(), bytes);
    if (g_wide_after > 0) violate("after_failure", "%ld characters offered after the failure", (long)g_wide_after);
    if (end != 1) {
        if (success != all) violate("success", "success is %d, %zu of %zu characters accepted", success, chars, total);
        if (count != chars) violate("count", "count is %zu, %zu characters accepted", count, chars);
    }
    if (!all || total > 64) r.nontrivial = true;
    g_wide_fail = -1;
}
void run(Run& r)
{
    uint32_t k = r.pick(6);
    if (k == 5) {
        { InSim g; setlocale(LC_ALL, "C.UTF-8"); }
        wide(r);
        { InSim g; setlocale(LC_ALL, "C"); }
        return;
    }
    bool obj = r.chance(1, 3);
    with_char_type(k, [&](auto c) { using C = decltype(c); if (obj) object<C>(r); else one_call<C>(r); });
}
}
const Property property{
    "C02",
    "A run prints a random program, or a history of prints and low-level writes, through to(FILE*), wto(FILE*) or the writer classes to a C stream (unbuffered, line or fully buffered with a seeded buffer size) whose device stops taking bytes at a seeded position, for good or once; the bytes the device received, the success flag and the count are compared with the reference text. Non-trivial: the device failed or the text was longer than the writer's buffer.",
    run, 200000, 4000000, 100,
    "strf as a whole; narrow_cfile_writer, wide_cfile_writer, to(FILE*), wto(FILE*); glibc stdio",
    "the device behind the FILE (fopencookie; a memory file of limited size and fputwc for wide streams)",
    "(bytes taken, bytes of the text, fault fired, success)"
};
}
