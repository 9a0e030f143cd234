// Type-erased printables ("nodes") and their generators.
#pragma once
#include "dest.hpp"
#include <string_view>

namespace sim {

using pre_nn = strf::premeasurements<strf::size_presence::no, strf::width_presence::no>;
using pre_yn = strf::premeasurements<strf::size_presence::yes, strf::width_presence::no>;
using pre_ny = strf::premeasurements<strf::size_presence::no, strf::width_presence::yes>;
using pre_yy = strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes>;

constexpr int num_paths = 5;   // ways of printing one node, see NodeImpl::print

template <class C> struct Node {
    const char* kind = "";
    std::string desc;
    virtual ~Node() = default;
    virtual void print(strf::destination<C>&, int path) const = 0;
    virtual ptrdiff_t size() const = 0;                 // calculated size
    virtual void measure(pre_nn*) const = 0;
    virtual void measure(pre_yn*) const = 0;
    virtual void measure(pre_ny*) const = 0;
    virtual void measure(pre_yy*) const = 0;
};

template <class C, class P, class FP>
struct NodeImpl final : Node<C> {
    P p; FP fp;
    NodeImpl(const P& p_, const FP& fp_) : p(p_), fp(fp_) {}
    void print(strf::destination<C>& d, int path) const override
    {
        switch (path) {
            case 0: strf::to(d).with(fp)(p); break;     // the usual call
            case 1: { pre_nn pre; auto pr = strf::make_printer<C>(&pre, fp, p); pr(d); break; }
            case 2: { pre_yn pre; auto pr = strf::make_printer<C>(&pre, fp, p); pr(d); break; }
            case 3: { pre_yy pre{strf::width_t(100)}; auto pr = strf::make_printer<C>(&pre, fp, p); pr(d); break; }
            default: { pre_ny pre{strf::width_t(20)}; auto pr = strf::make_printer<C>(&pre, fp, p); pr(d); break; }
        }
    }
    ptrdiff_t size() const override
    { pre_yn pre; strf::measure<C>(&pre, fp, p); return pre.accumulated_ssize(); }
    void measure(pre_nn* x) const override { (void)strf::make_printer<C>(x, fp, p); }
    void measure(pre_yn* x) const override { (void)strf::make_printer<C>(x, fp, p); }
    void measure(pre_ny* x) const override { (void)strf::make_printer<C>(x, fp, p); }
    void measure(pre_yy* x) const override { (void)strf::make_printer<C>(x, fp, p); }
};

// An erased node used as a printable of its own (user-defined printable type)
template <class C> struct any_p { const Node<C>* n; int path; };

// notifier of bad placeholders: calls fn, or ignores them
struct TrNote {
    using category = strf::tr_error_notifier_c;
    void (*fn)(void*, ptrdiff_t len, ptrdiff_t pos) = nullptr;
    void* arg = nullptr;
    template <class Charset>
    void handle(const typename Charset::code_unit*, ptrdiff_t len, Charset, ptrdiff_t pos) const { if (fn) fn(arg, len, pos); }
};

struct GenOpt {
    int max_fill = 200;        // widths, precisions and repetitions
    int max_text = 200;        // string lengths
    bool malformed = true;     // malformed source text allowed
    strf::transcoding_error_notifier* notifier = nullptr;
    TrNote tr;
    uint32_t groups = 0x1f;    // enabled generator groups
    int depth = 0;             // nesting of programs inside user printables
};
enum { g_int = 0, g_float, g_str, g_xstr, g_misc, g_user, num_groups };

// per group and character type, defined in ops_*.cpp
template <class C> Node<C>* gen_int(Run&, const GenOpt&);
template <class C> Node<C>* gen_int2(Run&, const GenOpt&);
template <class C> Node<C>* gen_float(Run&, const GenOpt&);
template <class C> Node<C>* gen_str(Run&, const GenOpt&);
template <class C> Node<C>* gen_str2(Run&, const GenOpt&);
template <class C> Node<C>* gen_xstr(Run&, const GenOpt&);
template <class C> Node<C>* gen_misc(Run&, const GenOpt&);
template <class C> Node<C>* gen_user(Run&, const GenOpt&);   // only with user.hpp's objects linked

inline void count_kind(const char* k) { count_dyn(k); }

template <class C> Node<C>* gen_node(Run& r, const GenOpt& o)
{
    uint32_t g = r.pick(o.groups >> g_user ? num_groups : (uint32_t)g_user);
    while (!(o.groups >> g & 1)) g = (g + 1) % num_groups;
    Node<C>* n;
    switch (g) {
        case g_int: n = r.pick(2) ? gen_int<C>(r, o) : gen_int2<C>(r, o); break;
        case g_float: n = gen_float<C>(r, o); break;
        case g_str: n = r.pick(2) ? gen_str<C>(r, o) : gen_str2<C>(r, o); break;
        case g_xstr: n = gen_xstr<C>(r, o); break;
        case g_user: n = gen_user<C>(r, o); break;
        default: n = gen_misc<C>(r, o); break;
    }
    count_kind(n->kind);
    return n;
}

// A program: printables and how they are combined into print calls
template <class C> struct Program {
    std::vector<Node<C>*> nodes;
    std::vector<int> paths;
    int shape = 0;
    std::vector<any_p<C>> anys;
    Text<C> tr_text, sep;
    int width = 0; int align = 0; char32_t fill = ' ';
    strf::transcoding_error_notifier* notifier = nullptr;
    TrNote tr;
    std::string describe() const;
};
template <class C> Program<C>* gen_program(Run&, const GenOpt&, int max_nodes = 4, int shape = -1);
template <class C> void print_program(const Program<C>&, strf::destination<C>&);
template <class C> ptrdiff_t program_size(const Program<C>&);
// the same program printed with one uninterrupted ample buffer
template <class C> Text<C> reference_text(const Program<C>&);
constexpr int num_shapes = 9;

template <class C> const char* char_name();
template <> inline const char* char_name<char>() { return "char"; }
template <> inline const char* char_name<char8_t>() { return "char8_t"; }
template <> inline const char* char_name<char16_t>() { return "char16_t"; }
template <> inline const char* char_name<char32_t>() { return "char32_t"; }
template <> inline const char* char_name<wchar_t>() { return "wchar_t"; }

// calls f(C{}) for one of the five character types
template <class F> void with_char_type(uint32_t k, F&& f)
{
    switch (k % 5) {
        case 0: f(char()); break;
        case 1: f(char16_t()); break;
        case 2: f(char32_t()); break;
        case 3: f(wchar_t()); break;
        default: f(char8_t()); break;
    }
}

// text helpers
template <class C> Text<C> gen_text(Run&, const GenOpt&, int max_len);   // code units, maybe malformed
} // namespace sim

namespace strf {
template <class C>
struct printable_def<sim::any_p<C>> {
    using representative = sim::any_p<C>;
    using forwarded_type = sim::any_p<C>;
    struct printer { sim::any_p<C> a; void operator()(strf::destination<C>& d) const { a.n->print(d, a.path); } };
    template <class Pre, class FP>
    static printer make_printer(strf::tag<C>, Pre* pre, const FP&, const sim::any_p<C>& a)
    { a.n->measure(pre); return printer{a}; }
};
} // namespace strf
