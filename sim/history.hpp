// Histories of low-level output operations and prints, applied to a
// destination and, as the reference model, to an append-only vector.
#pragma once
#include "ops.hpp"
#include <strf/iterator.hpp>
#include <algorithm>

namespace sim {

#ifdef SIM_NO_OPS
template <class C> constexpr bool has_programs = false;
#else
template <class C> constexpr bool has_programs = std::is_same_v<C, char> || std::is_same_v<C, char8_t> || std::is_same_v<C, char16_t> || std::is_same_v<C, char32_t> || std::is_same_v<C, wchar_t>;
#endif

// the whole program as one printable, usable in any print call
template <class C> struct prog_p { const Program<C>* p; };

struct HistOpt {
    bool programs = true;      // print programs (needs the ops objects)
    bool requests = true;      // explicit ensure/flush: these may truncate fixed arrays
    int max_ops = 8;
    int max_text = 300;
    GenOpt gen;
};

// prints the program with a print syntax, its printables given separately if `split`
template <class C, class P> auto call_program(const P& syn, const Program<C>& p, int split)
{
    const auto& a = p.anys;
    if (split && p.shape <= 1) {
        if (a.size() == 1) return syn(a[0]);
        if (a.size() == 2) return syn(a[0], a[1]);
        if (a.size() == 3) return syn(a[0], a[1], a[2]);
        return syn(a[0], a[1], a[2], a[3]);
    }
    if (split && p.shape == 4) {      // tr() as a member of the syntax
        std::basic_string_view<C> t(p.tr_text.data(), p.tr_text.size());
        if (a.size() == 1) return syn.tr(t, a[0]);
        if (a.size() == 2) return syn.tr(t, a[0], a[1]);
        if (a.size() == 3) return syn.tr(t, a[0], a[1], a[2]);
        return syn.tr(t, a[0], a[1], a[2], a[3]);
    }
    return syn(prog_p<C>{&p});
}

// the same, with an end of line
template <class C, class P> auto call_program_line(const P& syn, const Program<C>& p, int split)
{
    const auto& a = p.anys;
    if (split && p.shape <= 1) {
        if (a.size() == 1) return syn.line(a[0]);
        if (a.size() == 2) return syn.line(a[0], a[1]);
        if (a.size() == 3) return syn.line(a[0], a[1], a[2]);
        return syn.line(a[0], a[1], a[2], a[3]);
    }
    if (split && p.shape == 4) {
        std::basic_string_view<C> t(p.tr_text.data(), p.tr_text.size());
        if (a.size() == 1) return syn.trline(t, a[0]);
        if (a.size() == 2) return syn.trline(t, a[0], a[1]);
        if (a.size() == 3) return syn.trline(t, a[0], a[1], a[2]);
        return syn.trline(t, a[0], a[1], a[2], a[3]);
    }
    return syn.line(prog_p<C>{&p});
}
template <class C> struct HOp {
    enum Kind { put, write, iter, fill, spaced, ensure, flush, program, write_none, num_kinds };
    int kind = 0;
    Text<C> text;              // what it appends
    int n = 0;
    const Program<C>* prog = nullptr;
};

template <class C> using History = std::vector<HOp<C>>;

template <class C> void append_text(Text<C>& t, const Text<C>& x) { t.insert(t.end(), x.begin(), x.end()); }

template <class C> Text<C> gen_plain(Run& r, int max_len)
{
    int len;
    switch (r.pick(5)) {
        case 0: len = (int)r.pick(4); break;
        case 1: len = (int)r.pick(20); break;
        case 2: len = 56 + (int)r.pick(16); break;
        case 3: len = 120 + (int)r.pick(16); break;
        default: len = (int)r.pick((uint32_t)max_len + 1); break;
    }
    if (len > max_len) len = max_len;
    uint32_t a = r.pick(1000);
    Text<C> t;
    for (int i = 0; i < len; ++i) t.push_back((C)('!' + (a + (uint32_t)i * 7) % 90));
    return t;
}

template <class C> HOp<C> gen_hop(Run& r, const HistOpt& o)
{
    HOp<C> h;
    h.kind = (int)r.pick(HOp<C>::num_kinds);
    if (!o.programs && h.kind == HOp<C>::program) h.kind = HOp<C>::put;
    if (!o.requests && (h.kind == HOp<C>::ensure || h.kind == HOp<C>::flush || h.kind == HOp<C>::fill || h.kind == HOp<C>::spaced)) h.kind = HOp<C>::write;
    switch (h.kind) {
        case HOp<C>::put: case HOp<C>::write: case HOp<C>::iter: h.text = gen_plain<C>(r, o.max_text); h.n = (int)r.pick(3); break;
        case HOp<C>::fill: h.text = gen_plain<C>(r, 64); h.n = (int)r.pick(3); break;
        case HOp<C>::spaced: h.text = gen_plain<C>(r, o.max_text); break;
        case HOp<C>::ensure: h.n = (int)r.pick(65); break;
        default: break;
    }
    return h;
}
template <class C> History<C> gen_history(Run& r, const HistOpt& o, int min_ops = 1)
{
    static const char* const kn[] = {"put", "write", "iterator", "ensure+advance", "fill the space", "ensure", "flush", "print", "write nothing"};
    static const char* const cn[] = {"op.put", "op.write", "op.iterator", "op.ensure_advance", "op.fill_space", "op.ensure", "op.flush", "op.print", "op.write_nothing"};
    History<C> h;
    int n = r.range(min_ops, o.max_ops);
    for (int i = 0; i < n; ++i) {
        h.push_back(gen_hop<C>(r, o));
        auto& x = h.back();
        if (x.kind == HOp<C>::program) {
            if constexpr (has_programs<C>) {
                x.prog = gen_program<C>(r, o.gen, 3);
                x.text = reference_text(*x.prog);
            } else x.kind = HOp<C>::flush;
        }
        count_dyn(cn[x.kind]);
        ev("op %d: %s, %zu characters, n %d", i, kn[x.kind], x.text.size(), x.n);
    }
    return h;
}
template <class C> Text<C> history_text(const History<C>& h)
{
    Text<C> t;
    for (auto& x : h) append_text(t, x.text);
    return t;
}

// Applies one operation, with the checks that hold for every destination
template <class C, class D> void perform(const HOp<C>& h, D& d)
{
    constexpr int least = (int)D::min_space_after_recycle;
    const bool was_good = d.good();
    const C* p = h.text.data();
    const size_t n = h.text.size();
    strf::output_buffer<C, 0>& d0 = d;
    switch (h.kind) {
        case HOp<C>::put:
            for (size_t i = 0; i < n; ++i) strf::put(d0, p[i]);
            break;
        case HOp<C>::write:
            if (h.n == 0) d.write(p, n);
            else if (h.n == 1) d.write(p, (int)n);
            else if (n % 4 == 1) {
                if constexpr (std::is_same_v<C, char>) {     // no allocation here: faults hit the library's only
                    char z[512];
                    if (n < sizeof z && !std::memchr(p, 0, n)) { std::memcpy(z, p, n); z[n] = 0; strf::write(d0, z); }
                    else d.write(p, n);
                }
                else d.write(p, (unsigned short)n);
            } else if (n % 4 == 2) d0.write(p, (unsigned)n);
            else { size_t k = n / 3; d.write(p, (ptrdiff_t)k); d0.write(p + k, (long long)(n - k)); }
            break;
        case HOp<C>::iter: {
            auto it = strf::make_iterator(d0);
            if (h.n) it = std::copy(p, p + n, it);
            else for (size_t i = 0; i < n; ++i) *it++ = p[i];
            if (it.failed() == d.good()) violate("iterator_failed", "failed() of the iterator contradicts good()");
            break;
        }
        case HOp<C>::fill: {
            size_t done = 0;
            while (done < n) {
                int m = (int)std::min<size_t>(n - done, (size_t)least);
                switch (n % 5) {                      // every integer type, and the old name
                    case 0: d.ensure((size_t)m); break;
                    case 1: d.ensure((unsigned char)m); break;
                    case 2: d.require(m); break;
                    default: d.ensure(m); break;
                }
                if (d.buffer_sspace() < m) { violate("space_not_guaranteed", "%td characters of space after ensure(%d)", d.buffer_sspace(), m); return; }
                std::copy(p + done, p + done + m, d.buffer_ptr());
                if (h.n == 0) { if (n % 2) d.advance((unsigned char)m); else d.advance((size_t)m); }
                else if (h.n == 1) d.advance_to(d.buffer_ptr() + m);
                else for (int i = 0; i < m; ++i) d.advance();
                done += (size_t)m;
            }
            break;
        }
        case HOp<C>::spaced: {
            size_t done = 0;
            while (done < n) {
                size_t m = std::min(n - done, d.buffer_space());
                std::copy(p + done, p + done + m, d.buffer_ptr());
                d.advance((ptrdiff_t)m);
                done += m;
                if (done < n) {
                    d.flush();
                    if (d.buffer_space() < (size_t)least) { violate("space_not_guaranteed", "%zu characters of space after flush()", d.buffer_space()); return; }
                    if (!d.good()) break;
                }
            }
            break;
        }
        case HOp<C>::ensure: {
            int m = std::min(h.n, least);
            bool enough = d.buffer_sspace() >= m;
            C* q = d.buffer_ptr(); C* e = d.buffer_end();
            d.ensure(m);
            if (d.buffer_sspace() < m) violate("space_not_guaranteed", "%td characters of space after ensure(%d)", d.buffer_sspace(), m);
            if (enough && (d.buffer_ptr() != q || d.buffer_end() != e)) violate("ensure_moved", "ensure(%d) changed the buffer although it had the space", m);
            break;
        }
        case HOp<C>::flush:
            d.flush();
            if (d.buffer_sspace() < least) violate("space_not_guaranteed", "%td characters of space after flush()", d.buffer_sspace());
            break;
        case HOp<C>::program:
            if constexpr (D::min_space_after_recycle >= 64) {
                if constexpr (has_programs<C>) {
                    StepBudget b(30'000'000, "print of a program");
                    print_program(*h.prog, static_cast<strf::destination<C>&>(d));
                }
            }
            break;
        default: d.write(p, 0); d.write((const C*)nullptr, 0); d.ensure(0); break;
    }
    if (!was_good && d.good()) violate("good_again", "the destination turned good again");
    if (d.ptr() != d.buffer_ptr() || d.pointer() != d.buffer_ptr() || d.end() != d.buffer_end() || d.sspace() != d.buffer_sspace() || d.space() != d.buffer_space())
        violate("accessors", "accessors of the buffer contradict each other");
    if (d.buffer_ptr() > d.buffer_end()) violate("bad_buffer", "buffer pointer behind the end of the buffer");
}

template <class C> bool is_prefix(const Text<C>& a, const Text<C>& b)
{ return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class C> size_t first_diff(const Text<C>& a, const Text<C>& b)
{ size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return k; }
template <class C> std::string diff_str(const Text<C>& got, const Text<C>& want)
{
    size_t k = first_diff(got, want);
    return "first difference at " + std::to_string(k) + " (lengths " + std::to_string(got.size()) + " and " + std::to_string(want.size()) + "): got ..." +
        show(got.data() + k, got.size() - k, 50) + " expected ..." + show(want.data() + k, want.size() - k, 50);
}
} // namespace sim

namespace strf {
template <class C>
struct printable_def<sim::prog_p<C>> {
    using representative = sim::prog_p<C>;
    using forwarded_type = sim::prog_p<C>;
    struct printer { sim::prog_p<C> a; void operator()(strf::destination<C>& d) const { sim::print_program(*a.p, d); } };
    template <class Pre, class FP>
    static printer make_printer(strf::tag<C>, Pre* pre, const FP&, const sim::prog_p<C>& a)
    { if constexpr (Pre::size_demanded) pre->add_size(sim::program_size(*a.p)); pre->add_width(strf::width_t{10}); return printer{a}; }
};
} // namespace strf
