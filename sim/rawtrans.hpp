// Calls of the transcoding functions themselves (not through a print): one
// step into an ample array, one into a destination, and the size.
#pragma once
#include "transmodel.hpp"

namespace sim {
struct Raw {
    virtual void go(std::vector<uint32_t>& out, uint64_t sub, void (*on_refresh)(void*, int)) const = 0;
    virtual ~Raw() = default;
};
template <class S, class D> struct RawImpl final : Raw {
    const Trans<S, D>* t; std::basic_string_view<S> src; int way; strf::transcode_flags flags; strf::transcoding_error_notifier* note;
    void go(std::vector<uint32_t>& out, uint64_t sub, void (*on_refresh)(void*, int)) const override
    {
        const S *a = src.data(), *b = a + src.size();
        D* buf; size_t cap = 4 * src.size() + 8;
        { InSim g; buf = (D*)malloc(cap * sizeof(D)); }
        auto add = [&](uint64_t x) { out.push_back((uint32_t)x); };
        auto x = t->array[way](*t, a, b, buf, buf + cap, note, flags);
        { InSim g; add((uint64_t)(x.dst_ptr - buf)); for (D* p = buf; p < x.dst_ptr; ++p) out.push_back((uint32_t)*p); add((uint64_t)(x.stale_src_ptr - a)); add((uint64_t)x.u32dist); add((uint64_t)x.stop_reason); free(buf); }
        if (t->size[way]) {
            auto z = t->size[way](*t, a, b, (ptrdiff_t)(sub & 1 ? cap : cap / 4), flags);
            InSim g; add((uint64_t)z.ssize); add((uint64_t)(z.stale_src_ptr - a)); add((uint64_t)z.u32dist); add((uint64_t)z.stop_reason);
        }
        if (t->dest[way]) {
            Schedule s; s.sub = sub; s.on_refresh = on_refresh;
            SimDest<D> d(s); d.site_count = false;
            auto z = t->dest[way](*t, a, b, d, note, flags);
            InSim g;
            auto text = d.snapshot();
            add(text.size()); for (D c : text) out.push_back((uint32_t)c);
            add((uint64_t)z.ssize); add((uint64_t)(z.stale_src_ptr - a)); add((uint64_t)z.u32dist); add((uint64_t)z.stop_reason);
        }
    }
};
template <class S> strf::dynamic_charset<S> raw_charset(uint32_t k)
{
    if constexpr (std::is_same_v<S, char>) { if (k) return sbc(k % num_sbc); }
    (void)k;
    return strf::utf_t<S>().to_dynamic();
}
template <class S, class D> Raw* gen_raw(Run& r, strf::transcoding_error_notifier* note)
{
    auto* x = make<RawImpl<S, D>>();
    auto sc = raw_charset<S>(r.pick(3) ? r.pick(30) : 0);
    auto dc = raw_charset<D>(r.pick(3) ? r.pick(30) : 0);
    auto* t = make<Trans<S, D>>(make_trans<S, D>("raw", sc, dc));
    x->t = t; x->note = note;
    x->way = (int)r.pick(Trans<S, D>::ways);
    if (r.pick(2)) x->way = Trans<S, D>::composed;
    while (!t->array[x->way]) x->way = (x->way + 1) % Trans<S, D>::ways;
    x->flags = (strf::transcode_flags)(r.pick(3) ? 0 : r.pick(8));
    GenOpt o;
    Text<S> src;
    if (is_utf(sc.id())) {
        for (int n = (int)r.pick(90); n--;) { if (r.pick(8) == 7) put_malformed(r, src); else put_u(src, r.pick(2) ? (uint32_t)r.range('a', 'z') : r.pick(2) ? pick_latin(r) : pick_codepoint(r)); }
    } else for (int n = (int)r.pick(90); n--;) src.push_back((S)(r.pick(3) ? 0x20 + r.pick(0x5f) : 0x80 + r.pick(0x80)));
    if (way_is_unsafe(x->way)) {
        Text<S> ok;
        for (auto& it : model_items(src.data(), src.size(), t->sc, t->dc, strf::with_lax_surrogate_policy(x->flags)))
            if (it.kind != Kind::invalid) ok.insert(ok.end(), src.begin() + it.off, src.begin() + it.off + it.len);
        src = ok;
    }
    x->src = keep(src);
    ev("transcoding %s to %s by %s, flags %d, %zu units", sc.name(), dc.name(), way_name(x->way), (int)x->flags, src.size());
    return x;
}
inline Raw* gen_any_raw(Run& r, strf::transcoding_error_notifier* note)
{
    switch (r.pick(6)) {
        case 0: case 1: return gen_raw<char, char>(r, note);
        case 2: return gen_raw<char, char16_t>(r, note);
        case 3: return gen_raw<char16_t, char>(r, note);
        case 4: return gen_raw<char32_t, char>(r, note);
        default: return gen_raw<char16_t, char32_t>(r, note);
    }
}
} // namespace sim
