#include "gen.hpp"
namespace sim {
template <class C> std::string Program<C>::describe() const
{
    static const char* const sh[] = {"sequential", "one_call", "join", "join_align", "tr", "range", "separated_range", "inner_facets", "nested_join"};
    std::string s = sh[shape];
    s += '[';
    for (size_t i = 0; i < nodes.size(); ++i) { if (i) s += ", "; s += nodes[i]->desc; s += '@'; s += std::to_string(paths[i]); }
    s += ']';
    if (shape == 3) { s += " width " + std::to_string(width); }
    return s;
}

template <> Program<SIM_CHAR>* gen_program<SIM_CHAR>(Run& r, const GenOpt& o, int max_nodes, int shape)
{
    using C = SIM_CHAR;
    auto* p = make<Program<C>>();
    p->shape = shape >= 0 ? shape : (int)r.pick(num_shapes);
    int n = r.range(1, max_nodes);
    for (int i = 0; i < n; ++i) {
        p->nodes.push_back(gen_node<C>(r, o));
        p->paths.push_back((int)r.pick(num_paths));
        p->anys.push_back({p->nodes.back(), p->paths.back()});
    }
    if (p->shape == 4) {
        Text<C> t;
        int k = r.range(1, 6);
        for (int i = 0; i < k; ++i) {
            auto lit = gen_text<C>(r, o, 50);
            for (C& c : lit) if (c == (C)'{' || c == 0) c = (C)'.';
            t.insert(t.end(), lit.begin(), lit.end());
            static const char* const ph[] = {"{}", "{0}", "{1}", "{2}", "{3}", "{{", "{-note}", "{7}"};
            for (const char* q = ph[r.pick(8)]; *q; ++q) t.push_back((C)*q);
        }
        auto sv = keep(t);
        p->tr_text.assign(sv.begin(), sv.end());
    }
    if (p->shape == 6) { p->sep = gen_text<C>(r, o, 70); for (C& c : p->sep) if (c == 0) c = (C)'0'; }
    p->sep.push_back(0);
    p->width = pick_count(r, o.max_fill * 2);
    p->align = (int)r.pick(3);
    p->fill = pick_fill(r);
    p->notifier = o.notifier; p->tr = o.tr;
    std::string d = p->describe();
    ev("%s program %s", char_name<C>(), d.c_str());
    return p;
}

namespace {
// calls f with the printables of the program combined as its shape demands
template <class C, class F> void combine(const Program<C>& p, F&& f)
{
    const auto& a = p.anys;
    const size_t n = a.size();
    strf::alignment_format al; al.fill = p.fill; al.width = strf::width_t(p.width); al.alignment = (strf::text_alignment)p.align;
    std::basic_string_view<C> trs(p.tr_text.data(), p.tr_text.size());
    switch (p.shape) {
        case 1:
            if (n == 1) f(a[0]); else if (n == 2) f(a[0], a[1]); else if (n == 3) f(a[0], a[1], a[2]); else f(a[0], a[1], a[2], a[3]);
            break;
        case 2:
            if (n == 1) f(strf::join(a[0])); else if (n == 2) f(strf::join(a[0], a[1])); else if (n == 3) f(strf::join(a[0], a[1]), a[2]); else f(a[0], strf::join(a[1], a[2], a[3]));
            break;
        case 3:
            if (n == 1) f(strf::join(a[0]).set_alignment_format(al)); else if (n == 2) f(strf::join(a[0], a[1]).set_alignment_format(al));
            else if (n == 3) f(strf::join(a[0], a[1]).set_alignment_format(al), a[2]); else f(a[0], strf::join(a[1], a[2], a[3]).set_alignment_format(al));
            break;
        case 4:
            if (n == 1) f(strf::tr(trs, a[0])); else if (n == 2) f(strf::tr(trs, a[0], a[1])); else if (n == 3) f(strf::tr(trs, a[0], a[1], a[2])); else f(strf::tr(trs, a[0], a[1], a[2], a[3]));
            break;
        case 5: f(strf::range(a.data(), a.data() + n)); break;
        case 6: f(strf::separated_range(a.data(), a.data() + n, p.sep.data())); break;
        case 7:
            if (n == 1) f(strf::with()(a[0])); else f(strf::with(strf::lowercase)(a[0], a[1]), strf::range(a.data() + 2, a.data() + n));
            break;
        case 8:
            if (n == 1) f(strf::join(strf::join(a[0]).set_alignment_format(al)));
            else f(strf::join(a[0], strf::join(a[1], strf::separated_range(a.data() + 2, a.data() + n, p.sep.data())).set_alignment_format(al)));
            break;
        default: break;
    }
}
}

template <> void print_program<SIM_CHAR>(const Program<SIM_CHAR>& p, strf::destination<SIM_CHAR>& d)
{
    if (p.shape == 0) { for (size_t i = 0; i < p.nodes.size(); ++i) p.nodes[i]->print(d, p.paths[i]); return; }
    combine(p, [&](const auto&... x) { strf::to(d).with(strf::transcoding_error_notifier_ptr{p.notifier}, p.tr)(x...); });
}
template <> ptrdiff_t program_size<SIM_CHAR>(const Program<SIM_CHAR>& p)
{
    ptrdiff_t s = 0;
    if (p.shape == 0) { for (auto* n : p.nodes) s += n->size(); return s; }
    combine(p, [&](const auto&... x) { pre_yn pre; strf::measure<SIM_CHAR>(&pre, strf::pack(), x...); s = pre.accumulated_ssize(); });
    return s;
}
template <> Text<SIM_CHAR> reference_text<SIM_CHAR>(const Program<SIM_CHAR>& p)
{
    SimDest<SIM_CHAR> d{Schedule{}};
    d.site_count = false;
    print_program(p, d);
    return d.finish();
}
template struct Program<SIM_CHAR>;
template Text<SIM_CHAR> gen_text<SIM_CHAR>(Run&, const GenOpt&, int);
} // namespace sim
