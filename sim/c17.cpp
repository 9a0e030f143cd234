// C17: prints depend only on their arguments, never on ambient or earlier state.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
#include <cfenv>
#include <clocale>
#include <locale>
#include <locale.h>
#include <alloca.h>
namespace sim {
namespace {
// ------------------------------------------------------------ ambient state
template <class C> struct OddPunct : std::numpunct<C> {
    C do_decimal_point() const override { return (C)'#'; }
    C do_thousands_sep() const override { return (C)'~'; }
    std::string do_grouping() const override { return "\1\2"; }
    std::basic_string<C> do_truename() const override { return {(C)'J', (C)'a'}; }
    std::basic_string<C> do_falsename() const override { return {(C)'N', (C)'e'}; }
};
template <class C> struct OddCtype : std::ctype<C> {
    C do_toupper(C) const override { return (C)'U'; }
    C do_tolower(C) const override { return (C)'l'; }
    C do_widen(char) const override { return (C)'w'; }
};
const int rounding[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
const char* const rounding_name[] = {"to nearest", "upward", "downward", "toward zero"};
struct Env { int round = 0, c = 0, cpp = 0, thread = 0, err = 0; };
struct Ambient {
    std::vector<const char*> c_names;
    std::vector<std::locale> cpp;
    std::vector<locale_t> thread;
    Env now;                       // what the ambient state must be
    std::string c_now;
    void init()
    {
        if (!cpp.empty()) return;
        // only those that exist here; "C" always does
        for (const char* n : {"C", "de_DE.utf8", "as_IN.utf8", "C.UTF-8", "en_US.utf8"}) if (setlocale(LC_ALL, n)) c_names.push_back(n);
        setlocale(LC_ALL, "C");
        cpp.push_back(std::locale::classic());
        std::locale a(std::locale::classic(), new OddPunct<char>);
        cpp.push_back(std::locale(a, new OddPunct<wchar_t>));
        cpp.push_back(std::locale(cpp.back(), new OddCtype<wchar_t>));
        thread.push_back(LC_GLOBAL_LOCALE);
        for (const char* n : c_names) if (n[0] != 'C') if (auto l = newlocale(LC_ALL_MASK, n, (locale_t)0)) thread.push_back(l);
    }
    void apply(const Env& e)
    {
        InSim g;
        fesetround(rounding[e.round]);
        if (e.cpp != now.cpp || e.cpp == 0) std::locale::global(cpp[(size_t)e.cpp]);     // a named one sets the C locale too
        setlocale(LC_ALL, c_names[(size_t)e.c]);
        c_now = setlocale(LC_ALL, nullptr);
        uselocale(thread[(size_t)e.thread]);
        now = e;
        errno = e.err;
    }
    template <class R> Env pick(R& r, bool some)
    {
        Env e = some ? now : Env();
        if (!some || r.pick(2)) e.round = (int)r.pick(4);
        if (!some || r.pick(2)) e.c = (int)r.pick((uint32_t)c_names.size());
        if (!some || r.pick(2)) e.cpp = (int)r.pick((uint32_t)cpp.size());
        if (!some || r.pick(2)) e.thread = r.pick(2) ? (int)r.pick((uint32_t)thread.size()) : 0;
        static const int common[] = {ENOSPC, EINTR, EAGAIN, EILSEQ, ENOMEM, ERANGE, EIO, EPIPE, EBADF, EINVAL, EDOM, EOVERFLOW};
        switch (r.pick(3)) { case 0: e.err = 0; break; case 1: e.err = (int)r.pick(134); break; default: e.err = common[r.pick(12)]; }
        return e;
    }
    std::string show(const Env& e) const
    { return std::string("rounding ") + rounding_name[e.round] + ", C locale " + c_names[(size_t)e.c] + ", C++ locale " + std::to_string(e.cpp) + ", thread locale " + std::to_string(e.thread) + ", errno " + std::to_string(e.err); }
    void check(const char* what, bool with_errno)
    {
        const int err = errno;
        InSim g;
        if (with_errno && err != now.err) violate("errno_changed", "%s: errno is %d, it was %d", what, err, now.err);
        if (fegetround() != rounding[now.round]) violate("rounding_changed", "%s: the rounding mode changed", what);
        const std::locale l;
        if (!(l == cpp[(size_t)now.cpp])) violate("locale_changed", "%s: the C++ locale changed", what);
        if (uselocale((locale_t)0) != thread[(size_t)now.thread]) violate("locale_changed", "%s: the thread's locale changed", what);
        if (c_now != setlocale(LC_ALL, nullptr)) violate("locale_changed", "%s: the C locale changed", what);
    }
} amb;
// what the library finds in memory it did not initialise
__attribute__((noinline)) void dirty_stack(uint64_t pattern)
{
    constexpr size_t n = 24 * 1024;
    auto* p = static_cast<volatile uint64_t*>(alloca(n));
    for (size_t i = 0; i < n / 8; ++i) p[i] = pattern;
}

// ------------------------------------------------------- what callbacks do
struct Plan { SubPick rnd{1}; uint32_t rate = 0; int64_t n = 0, throw_at = -1; bool thrown = false; uint64_t switches = 0; } plan;
void hook(void*, Point)
{
    InSim g;
    int64_t i = plan.n++;
    if (plan.rate && plan.switches < 40 && plan.rnd.pick(plan.rate) == 0) {
        Env e = amb.pick(plan.rnd, true);
        ++plan.switches;
        SIM_COUNT("fault.ambient_change_in_callback");
        amb.apply(e);
    }
    if (i == plan.throw_at) { plan.thrown = true; SIM_COUNT("fault.user_code_throws"); errno = amb.now.err; throw SimError{3}; }
    errno = amb.now.err;
}
void refresh_hook(void*, int) { hook(nullptr, Point::refresh); }

template <class C> struct Subject {
    Program<C>* p = nullptr;
    bool have = false; Text<C> text; std::string where;      // the first complete print
    bool sized = false; ptrdiff_t size = 0;
    std::vector<ptrdiff_t> node_sizes;
    // what the memory the program prints from holds: two subjects may be one program with different contents
    std::vector<Block> blocks; std::vector<std::string> contents;
    void save() { contents.clear(); for (auto& b : blocks) contents.emplace_back((const char*)b.p, b.n * b.unit); }
    void restore() const { for (size_t i = 0; i < blocks.size(); ++i) if (!contents[i].empty()) std::memcpy(blocks[i].p, contents[i].data(), contents[i].size()); }
    void alter(Run& r)
    {
        for (size_t i = 0; i < blocks.size(); ++i) {
            const size_t n = blocks[i].n, u = blocks[i].unit;
            if (n == 0 || r.pick(4) == 0) continue;
            std::string& c = contents[i];
            switch (r.pick(3)) {
                case 0: { size_t k = r.pick((uint32_t)n); std::rotate(c.begin(), c.begin() + (ptrdiff_t)(k * u), c.end()); break; }
                case 1: {                                   // plain ASCII
                    for (size_t j = 0; j < n; ++j) { uint32_t ch = 'A' + (uint32_t)(j % 26); std::memcpy(&c[j * u], &ch, u); }
                    break; }
                default:                                    // one unit everywhere, or a few changed
                    for (uint32_t k = 1 + r.pick(8); k--;) {
                        size_t a = r.pick((uint32_t)n), b = r.pick((uint32_t)n); uint32_t ch = 0x21 + r.pick(94);
                        if (r.pick(2)) std::memmove(&c[a * u], &c[b * u], u); else std::memcpy(&c[a * u], &ch, u);
                    }
            }
        }
    }
};
template <class C> struct Player {
    Run& r; UNotifier* note;
    template <class S> auto facets(const S& syn) { return syn.with(strf::transcoding_error_notifier_ptr{note}, TrNote{tr_point, nullptr}); }
    void complete(Subject<C>& s, const std::string& where, Text<C> t)
    {
        if (s.have && t != s.text) violate("text_differs", "%s differs from %s: %s", where.c_str(), s.where.c_str(), diff_str(t, s.text).c_str());
        if (!s.have) { s.have = true; s.text = std::move(t); s.where = where; }
        r.note(hash_text(s.text));
    }
    void part(Subject<C>& s, const std::string& where, const Text<C>& t)
    { if (s.have && !is_prefix(t, s.text)) violate("text_differs", "%s is not a prefix of %s: %s", where.c_str(), s.where.c_str(), diff_str(t, s.text).c_str()); }

    void print(Subject<C>& s, int step)
    {
        const uint32_t target = r.pick(9);
        const int split = (int)r.pick(2), policy = (int)r.pick(3), fault = r.chance(1, 3) ? 1 + (int)r.pick(3) : 0;
        const size_t small = r.pick(3) ? 30000 : r.pick(300);
        static const char* const tn[] = {"user destination", "user destination", "array", "C string", "to_string", "append", "stream buffer", "C stream", "measurement"};
        std::string where = "print " + std::to_string(step) + " (" + tn[target] + ", " + amb.show(amb.now) + ")";
        plan = Plan{}; plan.rnd = SubPick(1 + r.pick(1u << 30)); plan.rate = r.pick(3) ? 0 : 1 + r.pick(20);
        if (fault == 1) plan.throw_at = r.pick(40);
        ev("%s%s%s", where.c_str(), fault == 1 ? ", user code throws" : fault == 2 ? ", destination fails" : "", plan.rate ? ", callbacks change the ambient state" : "");
        HookScope h(hook, nullptr);
        bool threw = false, good = true, with_errno = true;
        Text<C> got;
        const uint64_t sub = 1 + r.pick(1u << 30), stack = r.tape.wide();
        auto go = [&](auto&& f) {
            StepBudget b(300'000'000, "print of a program");
            dirty_stack(stack);
            errno = amb.now.err;
            try { f(); } catch (const SimError&) { threw = true; } catch (...) { violate("exception", "%s: an exception of another type", where.c_str()); threw = true; }
            amb.check(where.c_str(), with_errno);
        };
        auto pol = [&](const auto& syn) { auto x = facets(syn); return policy == 0 ? call_program<C>(x.no_reserve(), *s.p, split) : policy == 1 ? call_program<C>(x.reserve(small), *s.p, split) : call_program<C>(x.reserve_calc(), *s.p, split); };
        switch (target) {
            case 0: case 1: {
                Schedule sc; sc.sub = sub; sc.on_refresh = refresh_hook;
                if (fault == 2) sc.fail_at = (int)r.pick(4);
                SimDest<C> d(sc);
                go([&] { call_program<C>(facets(strf::to(d)), *s.p, split); });
                good = d.good(); got = d.snapshot();
                break; }
            case 2: case 3: {
                const bool z = target == 3;
                auto* a = static_cast<C*>(malloc((small + 1) * sizeof(C)));
                cur->arena.push_back(a);
                C* end = a; bool trunc = false;
                go([&] { if (z) { auto x = call_program<C>(facets(strf::to(a, small + 1)), *s.p, split); end = x.ptr; trunc = x.truncated; }
                         else { auto x = call_program<C>(facets(strf::to_range(a, small)), *s.p, split); end = x.ptr; trunc = x.truncated; } });
                got.assign(a, end); good = !trunc;
                if (threw) got.clear();
                if (trunc) SIM_COUNT("fault.truncated");
                break; }
            case 4: {
                std::basic_string<C> t;
                go([&] { t = pol(strf::to_basic_string<C>); });
                got.assign(t.begin(), t.end());
                break; }
            case 5: {
                std::basic_string<C> t(r.pick(50), (C)'=');
                const size_t n = t.size();
                go([&] { pol(strf::append(t)); });
                got.assign(t.begin() + (ptrdiff_t)n, t.end());
                break; }
            case 6:
                if constexpr (!std::is_same_v<C, char8_t>) {
                    SimStreambuf<C> sb(std::is_same_v<C, char16_t> ? 0 : (int)r.pick(3), r.pick(30), fault == 2 ? 1 : 0, r.pick(300), false);
                    go([&] { good = call_program<C>(facets(strf::to(sb)), *s.p, split).success; });
                    got = sb.taken();
                }
                else return;
                break;
            case 7: {
                SimFile f; if (fault == 2) f.fail_at = r.pick(900);
                if (!f.open(_IONBF, 0)) return;
                with_errno = false;                        // the C library's business
                go([&] { good = call_program<C>(facets(strf::to<C>(f.f)), *s.p, split).success; });
                f.close();
                got.assign((const C*)f.got.data(), (const C*)f.got.data() + f.got.size() / sizeof(C));
                break; }
            default: {
                ptrdiff_t size = 0;
                std::vector<ptrdiff_t> sizes;
                go([&] { size = program_size(*s.p); for (auto* n : s.p->nodes) { sizes.push_back(n->size()); pre_ny w{strf::width_t(500)}; n->measure(&w); InSim g; sizes.push_back((strf::width_t(500) - w.remaining_width()).round()); } });
                if (threw || r.violated) break;
                if (s.sized && (size != s.size || sizes != s.node_sizes)) violate("size_differs", "%s: calculated %td, before %td", where.c_str(), size, s.size);
                s.sized = true; s.size = size; s.node_sizes = sizes;
                return; }
        }
        if (r.violated) return;
        if (threw && !plan.thrown) { violate("exception", "%s: an exception nobody threw", where.c_str()); return; }
        if (!threw && fault != 2 && !good && target != 2 && target != 3) { violate("result_differs", "%s is reported as failed, without any failure", where.c_str()); return; }
        if (!threw && s.have && (target == 2 || target == 3) && good != (s.text.size() <= small)) { violate("result_differs", "%s: truncation reported %d, %zu characters into %zu", where.c_str(), !good, s.text.size(), small); return; }
        if (!threw && good) complete(s, where, std::move(got));
        else part(s, where, got);
    }
};
template <class C> void go(Run& r)
{
    UNotifier note;
    GenOpt o; o.groups = r.pick(3) ? 0x1f : 0x3f; o.depth = 1; o.notifier = &note; o.tr.fn = tr_point;
    if (r.chance(1, 8)) o.max_fill = 2000;
    if (r.chance(1, 12)) o.max_text = 3000;
    std::vector<Subject<C>> subj;
    std::vector<uint32_t> picks;
    for (int k = r.range(1, 3); k--;) {
        Subject<C> s;
        // often similar to the previous one: same values in another format, and the like
        const bool similar = !subj.empty() && r.pick(3);
        if (similar) { r.tape.echo = &picks; r.tape.echo_at = 0; } else { picks.clear(); r.tape.record = &picks; }
        block_recorder = &s.blocks;
        s.p = gen_program<C>(r, o, 3);
        block_recorder = nullptr;
        r.tape.echo = nullptr; r.tape.record = nullptr;
        s.save();
        subj.push_back(s);
        if (!s.blocks.empty() && r.pick(3) == 0) {           // the same memory with other contents
            SIM_COUNT("fault.memory_reused");
            s.alter(r);
            subj.push_back(s);
        }
    }
    Player<C> x{r, &note};
    int step = 0;
    for (int k = r.range(2, 8); k-- && !r.violated; ++step) {
        if (r.pick(3)) {
            Env e = amb.pick(r, false);
            SIM_COUNT("fault.ambient_change_between_prints");
            amb.apply(e);
        }
        auto& s = subj[r.pick((uint32_t)subj.size())];
        s.restore();
        x.print(s, step);
    }
    amb.apply(Env());
    for (auto& s : subj) if (!r.violated) { s.restore(); x.complete(s, "the print in the default environment", reference_text(*s.p)); if (!s.text.empty()) r.nontrivial = true; }
}
void run(Run& r)
{
    { InSim g; amb.init(); }
    amb.apply(Env());
    with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); });
    amb.apply(Env());
}
}
const Property property{
    "C17",
    "A run prints one to three random programs, often similar to each other, two to eight times in seeded order to seeded destinations, some of which fail, throw or truncate; between prints and inside user callbacks the rounding mode, errno, the global C and C++ locales and the thread's locale change, the unused stack is filled with a seeded pattern before each print, and the memory a program prints from gets other contents and its own back. Complete texts, calculated sizes and reported results of a program must always be the same, also as in the default environment afterwards, and the ambient state must be as last set. Non-trivial: the text is not empty.",
    run, 160000, 4000000, 100,
    "strf as a whole; all destinations and reservation policies; glibc and libstdc++ locales",
    "user destinations, devices behind streams, user code that throws or changes the ambient state",
    "(texts printed, in order)"
};
}
