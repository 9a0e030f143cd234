// C07: exceptions of user code pass through a print.
#include "gen.hpp"
#include "history.hpp"
#include "targets.hpp"
#include "user.hpp"
namespace sim {
namespace {
struct Plan { int64_t n = 0, throw_at = -1; int id = 0; int thrown = 0; Point where = Point::num; };
Plan plan;
void hook(void*, Point p)
{
    InSim g;
    int64_t i = plan.n++;
    if (i != plan.throw_at) return;
    ++plan.thrown; plan.where = p;
    ev("call %ld of user code (%s) throws", (long)i, point_name(p));
    static const char* const names[] = {"fault.iterator_deref_throws", "fault.iterator_incr_throws", "fault.iterator_equal_throws", "fault.transform_throws", "fault.make_printer_throws", "fault.printer_throws", "fault.inside_printer_throws", "fault.override_facet_throws", "fault.notifier_throws", "fault.tr_notifier_throws", "fault.refresh_throws", "fault.create_throws", "fault.allocator_throws"};
    count_dyn(names[(int)p]);
    distinct(set_sites, mix(site_of(__builtin_return_address(0)), (uint64_t)p));
    throw SimError{plan.id};
}
void refresh_hook(void*, int) { user_point(Point::refresh); }
void create_hook() { user_point(Point::create); }
template <class T> struct UAlloc {
    using value_type = T;
    UAlloc() = default;
    template <class U> UAlloc(const UAlloc<U>&) {}
    T* allocate(size_t n) { user_point(Point::alloc); ++user_live; InSim g; return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { --user_live; InSim g; free(p); }
    template <class U> bool operator==(const UAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const UAlloc<U>&) const { return false; }
};
template <class C> using UStr = std::basic_string<C, std::char_traits<C>, UAlloc<C>>;

enum { t_sim, t_creator, t_array, t_string, t_append, t_assign, t_file, t_streambuf, t_measure, num_targets };
const char* const target_names[] = {"user destination", "user destination creator", "array", "to_string", "append", "assign", "FILE", "streambuf", "size calculation"};

template <class C> struct Exec {
    Run& r; const Program<C>* p; int target; int split, policy; size_t reserve, cap; uint64_t sub; int sb_how, sb_area; int64_t sb_fault;
    UNotifier* note;
    Text<C> ref, got;
    bool returned = false; int exc = 0;      // 0 none 1 ours 2 stream buffer's 3 other
    template <class S> auto with_policy(const S& syn)
    { if (policy == 0) call_program<C>(syn.no_reserve(), *p, split); else if (policy == 1) call_program<C>(syn.reserve(reserve), *p, split); else call_program<C>(syn.reserve_calc(), *p, split); }
    // one execution; user code throws at its throw_at-th call
    void once(int64_t throw_at)
    {
        plan = Plan{}; plan.throw_at = throw_at; plan.id = 1000 + (int)r.pick(1000);
        got.clear(); returned = false; exc = 0;
        const int64_t live0 = user_live;
        StepBudget b(60'000'000, "print with user code that throws");
        auto facets = [&](const auto& syn) { return syn.with(strf::transcoding_error_notifier_ptr{note}, TrNote{tr_point, nullptr}); };
        int64_t leaked = 0;
        auto guard = [&](auto&& f) {
            HookScope h(hook, nullptr);
            AllocWatch::begin();
            try { f(); returned = true; }
            catch (const SimError& e) { exc = e.id == plan.id ? 1 : e.id == 5 ? 2 : 3; }
            catch (...) { exc = 3; }
            leaked = (int64_t)AllocWatch::live();
            AllocWatch::end();
        };
        bool full_prefix = true;   // got must be a prefix of ref
        bool sb_fired = false;
        switch (target) {
            case t_sim: {
                Schedule s; s.sub = sub; s.on_refresh = refresh_hook;
                SimDest<C> d(s);
                int ways = split;
                guard([&] { if (ways) print_program(*p, d); else call_program<C>(facets(strf::to(d)), *p, 1); });
                if (!d.good()) violate("turned_bad", "the destination turned bad");
                got = d.snapshot();
                if (exc == 1 && !r.violated) {       // the destination can be used again
                    user_hook = {};
                    Text<C> before = got;
                    if (ways) print_program(*p, d); else call_program<C>(facets(strf::to(d)), *p, 1);
                    auto all = d.finish();
                    append_text(before, ref);
                    if (all != before) violate("unusable", "print to the same destination after the exception: %s", diff_str(all, before).c_str());
                }
                break; }
            case t_creator: {
                Created<C> c;
                SimCreator<C> cr; cr.s.sub = sub; cr.s.on_refresh = refresh_hook; cr.out = &c; cr.on_create = create_hook;
                strf::printing_syntax<SimCreator<C>> syn{cr};
                guard([&] { with_policy(facets(syn)); });
                got = c.text;
                if (returned && c.finished != 1) violate("not_finished", "finish() was called %d times", c.finished);
                break; }
            case t_array: {
                C* a = static_cast<C*>(malloc((cap + 1) * sizeof(C))); 
                cur->arena.push_back(a);
                C* end = a;
                guard([&] { auto x = split ? facets(strf::to_range(a, cap))(prog_p<C>{p}) : call_program<C>(facets(strf::to_range(a, cap)), *p, 1); end = x.ptr; });
                got.assign(a, end);
                if (returned && got.size() < ref.size()) full_prefix = is_prefix(got, ref);
                break; }
            case t_string: {
                guard([&] {
                    if (split) { UStr<C> s = policy == 2 ? call_program<C>(facets(strf::to_basic_string<C, std::char_traits<C>, UAlloc<C>>.reserve_calc()), *p, 1) : call_program<C>(facets(strf::to_basic_string<C, std::char_traits<C>, UAlloc<C>>.reserve(reserve)), *p, 1); InSim g; got.assign(s.data(), s.data() + s.size()); }
                    else { auto s = policy == 2 ? facets(strf::to_basic_string<C>.reserve_calc())(prog_p<C>{p}) : facets(strf::to_basic_string<C>)(prog_p<C>{p}); InSim g; got.assign(s.data(), s.data() + s.size()); }
                });
                break; }
            case t_append: case t_assign: {
                UStr<C> s;
                { InSim g; s.assign(70, (C)'='); if (cap & 1) s.reserve(cap); }
                const int64_t l = user_live;
                guard([&] { if (target == t_append) with_policy(facets(strf::append(s))); else with_policy(facets(strf::assign(s))); });
                (void)l;
                InSim g;
                size_t skip = target == t_append ? 70 : 0;
                Text<C> t(s.data(), s.data() + s.size());
                if (target == t_assign && exc && (t.size() == 70 && t[0] == (C)'=')) t.clear();    // not yet assigned
                if (t.size() < skip) violate("content_lost", "the previous content was lost");
                else got.assign(t.begin() + (ptrdiff_t)skip, t.end());
                break; }
            case t_file: {
                SimFile f; f.open(cap & 1 ? _IOFBF : _IONBF, 100 + cap % 400);
                guard([&] { call_program<C>(facets(strf::to<C>(f.f)), *p, split); });
                f.close();
                got.resize(f.got.size() / sizeof(C)); memcpy(got.data(), f.got.data(), got.size() * sizeof(C));
                break; }
            case t_streambuf: {
                bool f = sb_fault >= 0;
                SimStreambuf<C> sb(sb_how, (size_t)sb_area, f ? SimStreambuf<C>::f_throw : SimStreambuf<C>::f_none, f ? (size_t)sb_fault : 0, false);
                sb.throw_id = 5;
                guard([&] { call_program<C>(facets(strf::to(static_cast<std::basic_streambuf<C>&>(sb))), *p, split); });
                got = sb.taken();
                sb_fired = sb.faults > 0;
                break; }
            default: {
                ptrdiff_t n = 0;
                guard([&] { n = program_size(*p); });
                if (returned) got = ref;
                if (returned && n < (ptrdiff_t)ref.size()) violate("size_too_small", "calculated %td, printed %zu", n, ref.size());
                break; }
        }
        if (r.violated) return;
        ev("%s, %zu characters", returned ? "returned" : exc == 1 ? "the exception arrived" : exc == 2 ? "the stream buffer's exception arrived" : "another exception arrived", got.size());
        if (plan.thrown > 1) violate("thrown_again", "user code was called again and threw again");
        if (plan.thrown && !sb_fired && exc != 1) violate("exception_lost", "user code threw (%s) but %s", point_name(plan.where), returned ? "the print returned" : "another exception arrived");
        if (plan.thrown && sb_fired && exc != 1 && exc != 2) violate("exception_lost", "user code threw (%s) but %s", point_name(plan.where), returned ? "the print returned" : "another exception arrived");
        if (!plan.thrown && sb_fired && exc != 2) violate("exception_lost", "the stream buffer threw but %s", returned ? "the print returned" : "another exception arrived");
        if (!plan.thrown && !sb_fired && !returned) violate("spurious_exception", "an exception arrived that nobody threw");
        if (leaked) violate("leak", "%ld allocations still live", (long)leaked);
        if (user_live != live0) violate("leak", "%ld objects of the user still live", (long)(user_live - live0));
        if (!is_prefix(got, ref) || !full_prefix) violate("not_prefix", "%s", diff_str(got, ref).c_str());
        if (returned && target != t_array && got != ref) violate("text_differs", "%s", diff_str(got, ref).c_str());
    }
};
template <class C> void go(Run& r)
{
    Exec<C> x{r};
    UNotifier note; x.note = &note;
    GenOpt o; o.groups = 0x3f; o.max_fill = r.chance(1, 3) ? 600 : 120; o.max_text = r.chance(1, 3) ? 400 : 120;
    o.notifier = &note; o.tr = TrNote{tr_point, nullptr}; o.depth = 1;
    x.target = (int)r.pick(num_targets);
    // fewer printables, but most of them with user code in them
    if (r.chance(2, 3)) o.groups = 1u << g_user | 1u << g_xstr;
    x.p = gen_program<C>(r, o, 4);
    x.split = (int)r.pick(2); x.policy = (int)r.pick(3);
    x.reserve = r.pick(1000); x.cap = r.pick(1200);
    x.sub = 1 + r.pick(1u << 30);
    x.sb_how = (int)r.pick(3); x.sb_area = 1 + (int)r.pick(40); x.sb_fault = r.chance(1, 2) ? (int64_t)r.pick(400) : -1;
    if (sizeof(C) == 2 && x.sb_how) x.sb_how = 0;       // libstdc++ cannot pass U+FFFF through overflow()
    x.ref = reference_text(*x.p);
    ev("%s, split %d policy %d reserve %zu capacity %zu; reference %zu characters", target_names[x.target], x.split, x.policy, x.reserve, x.cap, x.ref.size());
    count_dyn((std::string("target.") + target_names[x.target]).c_str());
    int64_t fault = x.sb_fault;
    x.sb_fault = -1;
    x.once(-1);                                          // tells how often user code is called
    int64_t n = plan.n;
    ev("user code is called %ld times", (long)n);
    x.sb_fault = fault;
    for (int rep = r.range(1, 4); rep-- && !r.violated && (n || fault >= 0);) {
        x.once(n ? (int64_t)r.pick((uint32_t)n) : -1);
        if (!r.violated) { if (x.exc) { r.nontrivial = true; r.note(mix((uint64_t)plan.where << 8 | (uint64_t)x.target, mix((uint64_t)x.got.size(), (uint64_t)plan.n))); } }
    }
    if (r.violated) return;
    auto again = reference_text(*x.p);                   // facets and arguments are as before
    if (again != x.ref) violate("later_print_differs", "%s", diff_str(again, x.ref).c_str());
    fault = -1; x.sb_fault = -1;
    x.once(-1);
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C07",
    "A run prints a random program that contains user iterators, transforms, printable types, override facets, notifiers, destinations, destination creators and allocators to one of nine targets, first without faults to count the calls of user code, then with the n-th call throwing (and, for stream buffers, also the stream buffer throwing at the n-th character, possibly while an exception is already being handled). The same exception must arrive once, nothing may be leaked, the delivered text must be a prefix, and everything must work afterwards. Non-trivial: an exception arrived.",
    run, 150000, 3000000, 100,
    "strf as a whole and all its destinations",
    "every kind of user extension, throwing at a seeded call",
    "(kind of call that threw, target, characters delivered, number of calls)"
};
}
