// User-supplied extensions: iterators, transforms, printable types, override
// facets and notifiers whose every call is a point at which the simulator may
// throw or print something else.
#pragma once
#include "ops.hpp"
#include <new>

namespace sim {

// not a place to preempt, nor a shared memory access of interest
#define SIM_UNTRACED __attribute__((no_sanitize("coverage")))

enum class Point : int { deref, incr, equal, transform, make_printer, print, print_mid, override_facet, notifier, tr_notifier, refresh, create, alloc, num };
inline const char* point_name(Point p)
{
    static const char* const n[] = {"iterator *", "iterator ++", "iterator ==", "transform", "make_printer", "print", "inside print", "override facet", "error notifier", "tr notifier", "buffer refresh", "destination creator", "allocator"};
    return n[(int)p];
}
struct UserHook { void (*fn)(void*, Point) = nullptr; void* arg = nullptr; };
inline UserHook user_hook;
inline bool inner_separately = false; // print what is nested in a printable to a destination of its own and copy it
inline int64_t user_live = 0;        // living user objects
SIM_UNTRACED inline void user_point(Point p) { if (user_hook.fn) user_hook.fn(user_hook.arg, p); }
struct HookScope {
    UserHook saved;
    HookScope(void (*f)(void*, Point), void* a) : saved(user_hook) { user_hook = {f, a}; }
    ~HookScope() { user_hook = saved; }
};
struct Counted { SIM_UNTRACED Counted() { ++user_live; } SIM_UNTRACED Counted(const Counted&) { ++user_live; } Counted& operator=(const Counted&) = default; SIM_UNTRACED ~Counted() { --user_live; } };

template <class T> struct UIter : Counted {
    using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = const T&; using iterator_category = std::forward_iterator_tag;
    const T* p;
    explicit UIter(const T* q) : p(q) {}
    const T& operator*() const { user_point(Point::deref); return *p; }
    UIter& operator++() { user_point(Point::incr); ++p; return *this; }
    UIter operator++(int) { auto t = *this; ++*this; return t; }
    bool operator==(const UIter& o) const { user_point(Point::equal); return p == o.p; }
    bool operator!=(const UIter& o) const { user_point(Point::equal); return p != o.p; }
};
struct UHex : Counted { auto operator()(int x) const { user_point(Point::transform); return strf::hex((unsigned)x).p(3); } };
template <class C> struct UJoin : Counted { C c; explicit UJoin(C x) : c(x) {} auto operator()(int x) const { user_point(Point::transform); return strf::join(c, x, c) > 7; } };

// prints itself piece by piece, with a print nested into the same destination
template <class C> struct up_text { std::basic_string_view<C> a, b; int n; const Program<C>* inner; };
// delegates to other printables
template <class C> struct up_join { std::basic_string_view<C> a; int n; };
// printed by an override facet
struct up_over { int n; };

struct UNotifier : strf::transcoding_error_notifier {
    void invalid_sequence(int, const char*, const void*, ptrdiff_t) override { user_point(Point::notifier); }
    void unsupported_codepoint(const char*, unsigned) override { user_point(Point::notifier); }
};
inline void tr_point(void*, ptrdiff_t, ptrdiff_t) { user_point(Point::tr_notifier); }

} // namespace sim

namespace strf {
template <class C>
struct printable_def<sim::up_text<C>> {
    using representative = sim::up_text<C>;
    using forwarded_type = sim::up_text<C>;
    struct printer : sim::Counted {
        sim::up_text<C> a;
        explicit printer(const sim::up_text<C>& x) : a(x) {}
        void operator()(strf::destination<C>& d) const
        {
            sim::user_point(sim::Point::print);
            d.write(a.a.data(), a.a.size());
            sim::user_point(sim::Point::print_mid);
            strf::to(d)(a.n, strf::hex(a.n), a.b);
            if (a.inner && sim::inner_separately) { auto t = sim::reference_text(*a.inner); d.write(t.data(), t.size()); }
            else if (a.inner) sim::print_program(*a.inner, d);
            sim::user_point(sim::Point::print_mid);
            strf::put(d, (C)']');
        }
    };
    template <class Pre, class FP>
    static printer make_printer(strf::tag<C>, Pre* pre, const FP&, const sim::up_text<C>& a)
    {
        sim::user_point(sim::Point::make_printer);
        if constexpr (Pre::size_demanded) {
            pre->add_size(a.a.size() + a.b.size() + 41);
            if (a.inner) pre->add_size(sim::program_size(*a.inner));
        }
        pre->add_width(strf::width_t(5));
        sim::user_point(sim::Point::make_printer);
        return printer{a};
    }
};
template <class C>
struct printable_def<sim::up_join<C>> {
    using representative = sim::up_join<C>;
    using forwarded_type = sim::up_join<C>;
    using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class Pre, class FP>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const sim::up_join<C>& x)
    {
        sim::user_point(sim::Point::make_printer);
        return strf::make_printer<C>(pre, fp, strf::join((C)'(', x.a, (C)',', x.n, (C)')'));
    }
    template <class Pre, class FP, class... F>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<F...>& x)
    {
        sim::user_point(sim::Point::make_printer);
        auto v = x.value();
        return strf::make_printer<C>(pre, fp, strf::join((C)'(', v.a, (C)',', v.n, (C)')').set_alignment_format(x.get_alignment_format()));
    }
};
template <>
struct printable_def<sim::up_over> {
    using representative = sim::up_over;
    using forwarded_type = sim::up_over;
    using is_overridable = std::true_type;
    template <class C, class Pre, class FP>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const sim::up_over& x)
    { sim::user_point(sim::Point::make_printer); return strf::make_printer<C>(pre, fp, strf::hex(x.n)); }
};
} // namespace strf
namespace sim {
struct over_facet {
    using category = strf::printable_overrider_c_of<up_over>;
    template <class C, class Pre, class FP>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const up_over& x)
    { user_point(Point::override_facet); return strf::make_printer<C>(pre, fp, strf::join((C)'<', x.n, (C)'>') ^ 12); }
};
struct bool_facet {
    using category = strf::printable_overrider_c_of<bool>;
    template <class C, class Pre, class FP>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, bool x)
    { user_point(Point::override_facet); return strf::make_printer<C>(pre, fp, strf::unsafe_transcode(x ? u"vero" : u"falso")); }
    template <class C, class Pre, class FP, class... F>
    static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, strf::value_and_format<F...> x)
    { user_point(Point::override_facet); return strf::make_printer<C>(pre, fp, strf::unsafe_transcode(x.value() ? u"vero" : u"falso").set_alignment_format(x.get_alignment_format())); }
};
} // namespace sim
