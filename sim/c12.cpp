// C12: prints of different threads under a scheduler that preempts inside the
// library. The threads are real ones, but only the holder of the baton runs;
// the tape decides after how many basic blocks, and at which accesses to shared
// memory, the baton is handed over and to whom.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
#include "sched.hpp"
#include "rawtrans.hpp"
#include <strf/locale.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sanitizer/allocator_interface.h>

namespace sim {
namespace {
// --------------------------------------------------------------- jobs -----
// What one job delivers, as plain numbers
struct Res {
    std::vector<uint32_t> v;
    void add(uint64_t x) { v.push_back((uint32_t)x); v.push_back((uint32_t)(x >> 32)); }
    template <class C> void text(const Text<C>& t) { add(t.size()); for (C c : t) v.push_back((uint32_t)c); }
    bool operator==(const Res&) const = default;
};
thread_local std::vector<uint32_t>* reports = nullptr;
struct Recorder : strf::transcoding_error_notifier {
    void invalid_sequence(int unit, const char* name, const void*, ptrdiff_t n) override
    { InSim g; if (reports) { reports->push_back((uint32_t)unit); reports->push_back((uint32_t)name[0] << 8 | (uint32_t)name[1]); reports->push_back((uint32_t)n); } }
    void unsupported_codepoint(const char* name, unsigned cp) override
    { InSim g; if (reports) { reports->push_back((uint32_t)name[0] << 8 | (uint32_t)name[1]); reports->push_back(cp); } }
};
void tr_report(void*, ptrdiff_t len, ptrdiff_t pos) { InSim g; if (reports) { reports->push_back((uint32_t)len); reports->push_back((uint32_t)pos); } }

enum { j_sim, j_fail, j_throw, j_array, j_cstr, j_string, j_streambuf, j_file, j_size, j_discard, j_locale, num_jobs, j_raw = num_jobs };
const char* const job_names[] = {"destination", "failing destination", "throwing destination", "array", "cstr", "string", "stream buffer", "C stream", "size", "discarder", "locale punctuation", "transcoding"};
struct Job { int kind = 0; uint64_t sub = 0; int which = 0; virtual void go(Res&) const = 0; virtual ~Job() = default; };
template <class C> struct JobImpl final : Job {
    const Program<C>* p;
    void go(Res& out) const override
    {
        std::vector<uint32_t> rep;
        { InSim g; reports = &rep; }
        switch (kind) {
            case j_sim: case j_fail: case j_throw: {
                Schedule s; s.sub = sub;
                if (kind == j_fail) s.fail_at = (int)(sub % 4);
                if (kind == j_throw) { s.throw_at = (int)(sub % 4); s.throw_id = (int)(sub % 1000); }
                SimDest<C> d(s); d.site_count = false;
                int thrown = -1;
                try { print_program(*p, d); strf::to(d)((C)'!'); } catch (SimError& e) { thrown = e.id; }
                InSim g; out.text(d.snapshot()); out.add(d.good()); out.add((uint64_t)thrown);
                break; }
            case j_array: {
                C buf[260]; size_t cap = sub % 250;
                for (auto& c : buf) c = (C)'#';
                strf::array_destination<C> d(buf, cap);
                print_program(*p, d); strf::to(d)(1234, (C)'x'); print_program(*p, d);
                auto x = d.finish();
                InSim g; Text<C> t(buf, buf + 260); out.text(t); out.add((uint64_t)(x.ptr - buf)); out.add(x.truncated);
                break; }
            case j_cstr: {
                C buf[260]; size_t cap = 1 + sub % 250;
                for (auto& c : buf) c = (C)'#';
                auto x = call_program<C>(strf::to_range(buf, cap), *p, 1);
                auto y = strf::to(buf + 100, 160)(prog_p<C>{p}, 77);
                InSim g; Text<C> t(buf, buf + 260); out.text(t); out.add((uint64_t)(x.ptr - buf)); out.add(x.truncated); out.add((uint64_t)(y.ptr - buf)); out.add(y.truncated);
                break; }
            case j_string: {
                auto s = call_program<C>(strf::to_basic_string<C>, *p, 1);
                auto u = call_program<C>(strf::to_basic_string<C>.reserve_calc(), *p, 1);
                InSim g; out.text(Text<C>(s.begin(), s.end())); out.text(Text<C>(u.begin(), u.end()));
                break; }
            case j_streambuf: {
                SimStreambuf<C> sb(0, 0, sub % 3 == 0 ? SimStreambuf<C>::f_refuse : SimStreambuf<C>::f_none, sub % 300, false);
                auto x = strf::to(static_cast<std::basic_streambuf<C>&>(sb))(prog_p<C>{p});
                InSim g; out.text(sb.taken()); out.add((uint64_t)x.count); out.add(x.success);
                break; }
            case j_file: {
                SimFile f;
                if (sub % 3 == 0) f.fail_at = (int64_t)(sub % 500);
                f.open(_IOFBF, 64 + sub % 100);
                size_t count = 0; bool ok = false;
                if constexpr (sizeof(C) == 1) { auto x = strf::to<C>(f.f)(prog_p<C>{p}); count = (size_t)x.count; ok = x.success; }
                else { auto x = strf::to(f.f)(1, ' ', 0.5, " abc ", strf::hex(sub), ' ', strf::unsafe_transcode(u"\u20ac\u00e9")); count = (size_t)x.count; ok = x.success; }
                f.close();
                InSim g; out.text(Text<char>(f.got.begin(), f.got.end())); out.add(count); out.add(ok);
                break; }
            case j_size: out.add((uint64_t)program_size(*p)); break;
            case j_discard: { strf::discarder<C> d; print_program(*p, d); out.add(d.good()); break; }
            default: {
                auto q = strf::locale_numpunct();
                auto s = strf::to_basic_string<C>.with(q)(!strf::fmt((int64_t)sub), (C)' ', !strf::fixed(1234567.5));
                InSim g; out.text(Text<C>(s.begin(), s.end()));
                break; }
        }
        InSim g; reports = nullptr;
        out.add(rep.size()); for (auto x : rep) out.v.push_back(x);
    }
};

struct RawJob final : Job {
    const Raw* raw;
    void go(Res& out) const override
    {
        std::vector<uint32_t> rep;
        { InSim g; reports = &rep; out.v.reserve(4000); }
        raw->go(out.v, sub, nullptr);
        InSim g; reports = nullptr;
        out.add(rep.size()); for (auto x : rep) out.v.push_back(x);
    }
};
struct Thread { std::vector<const Job*> jobs; std::vector<Res> alone, together; };
void run_jobs(const std::vector<const Job*>& jobs, std::vector<Res>& out)
{
    for (size_t i = 0; i < jobs.size(); ++i) jobs[i]->go(out[i]);
}

bool twins;    // the threads print similar things in similar ways
template <class C> Job* gen_job(Run& r, const std::vector<const Program<C>*>& ps)
{
    auto* j = make<JobImpl<C>>();
    j->which = (int)r.pick((uint32_t)ps.size());
    j->p = ps[(size_t)j->which];
    j->kind = (int)r.pick(twins ? (uint32_t)j_file : (uint32_t)num_jobs);
    if (twins && r.chance(1, 2)) j->kind = j_sim;
    j->sub = 1 + r.pick(1u << 30);
    count_dyn((std::string("job.") + job_names[j->kind]).c_str());
    return j;
}
constexpr size_t fork_words = 1 << 20;
uint32_t* fork_buf = nullptr;
void run(Run& r)
{
    auto* note = make<Recorder>();
    GenOpt o; o.notifier = note; o.tr.fn = tr_report; o.max_fill = 150; o.max_text = 150; o.depth = 1;
    static const uint32_t focus[] = {0x3f, 1u << g_int, 1u << g_float, 1u << g_str, 1u << g_xstr, 1u << g_misc};
    o.groups = focus[r.pick(6)];
    twins = r.chance(1, 2);
    std::vector<const Program<char>*> pc; std::vector<const Program<char16_t>*> p16; std::vector<const Program<char32_t>*> p32;
    std::vector<const Program<wchar_t>*> pw; std::vector<const Program<char8_t>*> p8;
    const uint32_t mixk = twins ? 0 : r.pick(3);            // 0: one character type; 1, 2: two
    const uint32_t k1 = r.pick(5), k2 = mixk ? r.pick(5) : k1;
    auto fill = [&](uint32_t k) {
        with_char_type(k, [&](auto c) {
            using C = decltype(c);
            // often programs that differ in few values only, so that the threads meet in the same code
            std::vector<uint32_t> picks;
            auto add = [&](auto& v) {
                for (int i = twins ? 3 : r.range(1, 3); i--;) {
                    bool similar = !picks.empty() && (twins || r.chance(1, 2));
                    if (similar) { r.tape.echo = &picks; r.tape.echo_at = 0; } else { picks.clear(); r.tape.record = &picks; }
                    v.push_back(gen_program<C>(r, o, 3));
                    r.tape.echo = nullptr; r.tape.record = nullptr;
                }
            };
            if constexpr (std::is_same_v<C, char>) add(pc); else if constexpr (std::is_same_v<C, char16_t>) add(p16);
            else if constexpr (std::is_same_v<C, char32_t>) add(p32); else if constexpr (std::is_same_v<C, wchar_t>) add(pw); else add(p8);
        });
    };
    fill(k1); if (k2 != k1) fill(k2);
    const bool transcode = r.chance(1, 6);
    std::vector<const Raw*> raws;
    if (transcode) for (int i = r.range(1, 3); i--;) raws.push_back(gen_any_raw(r, note));
    const int n = r.range(2, max_threads);
    std::vector<Thread> th((size_t)n);
    for (int t = 0; t < n; ++t) {
        int nj = r.range(1, 3);
        for (int i = 0; i < nj; ++i) {
            const Job* j = nullptr;
            if (transcode && r.chance(3, 4)) {
                auto* x = make<RawJob>();
                x->kind = j_raw; x->which = (int)r.pick((uint32_t)raws.size()); x->raw = raws[(size_t)x->which]; x->sub = 1 + r.pick(1u << 30);
                count_dyn("job.transcoding");
                j = x;
            } else if (t > 0 && !twins && r.chance(1, 3)) j = th[0].jobs[r.pick((uint32_t)th[0].jobs.size())];   // exactly what another thread does
            else with_char_type(r.pick(2) ? k2 : k1, [&](auto c) {
                using C = decltype(c);
                if constexpr (std::is_same_v<C, char>) j = gen_job<C>(r, pc); else if constexpr (std::is_same_v<C, char16_t>) j = gen_job<C>(r, p16);
                else if constexpr (std::is_same_v<C, char32_t>) j = gen_job<C>(r, p32); else if constexpr (std::is_same_v<C, wchar_t>) j = gen_job<C>(r, pw); else j = gen_job<C>(r, p8);
            });
            th[(size_t)t].jobs.push_back(j);
            ev("thread %d job %d: %s, program %d", t, i, job_names[j->kind], j->which);
        }
        th[(size_t)t].alone.resize(th[(size_t)t].jobs.size());
        th[(size_t)t].together.resize(th[(size_t)t].jobs.size());
    }
    // the results of each job when it runs alone: before, afterwards, or in a
    // child process, so that this process may use the library for the first time
    static const uint32_t orders[] = {0, 0, 1, 1, 1, 2};
    const uint32_t order = orders[r.pick(6)];
    auto alone = [&] { for (auto& t : th) run_jobs(t.jobs, t.alone); };
    if (order == 0) alone();
    if (order == 2) {
        InSim g;
        if (!fork_buf) fork_buf = static_cast<uint32_t*>(mmap(nullptr, fork_words * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        pid_t pid = fork();
        if (pid == 0) {
            in_sim = 0;
            alone();
            in_sim = 1;
            size_t k = 0;
            for (auto& t : th) for (auto& x : t.alone) {
                if (k + x.v.size() + 1 > fork_words) _exit(3);
                fork_buf[k++] = (uint32_t)x.v.size();
                std::copy(x.v.begin(), x.v.end(), fork_buf + k); k += x.v.size();
            }
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) violate_exit("alone_failed", "the jobs fail when they run alone (status %d)", st);
        size_t k = 0;
        for (auto& t : th) for (auto& x : t.alone) { size_t m = fork_buf[k++]; x.v.assign(fork_buf + k, fork_buf + k + m); k += m; }
        SIM_COUNT("alone_in_child_process");
    }

    Sched s; s.r = &r; s.n = n;
    s.style = (int)r.pick(4);
    static const int budgets[] = {0, 3, 30, 300};
    s.budget = budgets[r.pick(4)];
    static const int rates[] = {0, 8, 3, 2};
    s.hot_rate = rates[r.pick(4)]; s.hot_budget = 400;
    for (auto& c : r.cleanups) {
        uintptr_t a = (uintptr_t)c.second; size_t sz = __sanitizer_get_allocated_size(c.second);
        s.shared.push_back({a, a + sz});
    }
    std::sort(s.shared.begin(), s.shared.end());
    run_threads(s, [](void* a, int t) { auto& x = (*static_cast<std::vector<Thread>*>(a))[(size_t)t]; run_jobs(x.jobs, x.together); }, &th);
    if (order == 1) alone();
    for (int t = 0; t < n; ++t)
        for (size_t i = 0; i < th[(size_t)t].jobs.size(); ++i) {
            auto& a = th[(size_t)t].alone[i].v; auto& b = th[(size_t)t].together[i].v;
            ev("thread %d job %zu: %zu values", t, i, b.size());
            if (a == b) continue;
            size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
            violate("thread_differs", "thread %d, job %zu (%s, program %d): value %zu of %zu is %x instead of %x (of %zu)", t, i, job_names[th[(size_t)t].jobs[i]->kind],
                    th[(size_t)t].jobs[i]->which, k, b.size(), k < b.size() ? b[k] : 0xffffffff, k < a.size() ? a[k] : 0xffffffff, a.size());
        }
    SIM_COUNT_N("preemptions_in_library", s.inside);
    SIM_COUNT_N("preemptions_at_shared_memory", s.hot_switches);
    SIM_COUNT_N("thread_switches", s.switches);
    if (s.inside) r.nontrivial = true;
}
}
const Property property{
    "C12",
    "A run has two to four threads with one to three jobs each (prints of shared programs to user destinations that refresh, fail or throw, arrays and C strings that are truncated, strings, stream buffers, C streams and discarders, size calculations, calls of the transcoding functions, locale punctuation). Only the holder of a baton runs; it is handed over after a seeded number of basic blocks or at seeded accesses to global data and shared objects. Every job must deliver what it delivers alone (run before, afterwards, or beforehand in a child process so that the threads make the first use of the library in the process). Non-trivial: at least one preemption inside the library.",
    run, 30000, 800000, 4,
    "strf as a whole, its destinations, libstdc++ strings and stream buffers, C stdio, pthreads",
    "thread scheduler (baton), locks and guards of static variables, user destinations, devices behind stream buffers and C streams",
    "sequences of (code location of the preemption, threads)"
};
} // namespace sim

