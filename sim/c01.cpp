// C01: the delivered text does not depend on where the buffers end.
#include "ops.hpp"
#include <mutex>
namespace sim {
namespace {
// upper bound for the number of refreshes an execution may need: each refresh
// must be justified by text that was delivered before it or is delivered after
template <class C> void go(Run& r)
{
    GenOpt o;
    auto* p = gen_program<C>(r, o);
    Text<C> ref;
    { StepBudget b(30'000'000, "reference print"); ref = reference_text(*p); }
    ev("reference: %zu characters, hash %016llx", ref.size(), (unsigned long long)hash_text(ref));
    int schedules = r.range(1, 3);
    for (int s = 0; s < schedules && !r.violated; ++s) {
        Schedule sc; sc.run = &r;
        switch (r.pick(5)) {
            case 0: sc.initial = r.range(0, 200); sc.fixed = 64; break;      // tightest
            case 1: sc.initial = 0; sc.fixed = 64; break;
            case 2: sc.initial = (int)r.pick((uint32_t)ref.size() + 2); break;
            default: break;
        }
        SimDest<C> d(sc);
        { StepBudget b(60'000'000, "print through small buffers"); print_program(*p, d); }
        const auto& got = d.finish();
        ev("schedule %d: %d refreshes, %zu characters, hash %016llx", s, d.refreshes(), got.size(), (unsigned long long)hash_text(got));
        if (d.refreshes()) { r.nontrivial = true; SIM_COUNT("prints_suspended"); }
        SIM_COUNT_N("refreshes", (uint64_t)d.refreshes());
        if (!d.good()) violate("destination_bad", "the destination turned bad by itself");
        if (got != ref) {
            size_t k = 0; while (k < got.size() && k < ref.size() && got[k] == ref[k]) ++k;
            violate("text_differs", "text depends on the buffers, first difference at %zu (lengths %zu and %zu): got ...%s expected ...%s",
                    k, got.size(), ref.size(), show(got.data() + k, got.size() - k, 60).c_str(), show(ref.data() + k, ref.size() - k, 60).c_str());
        }
        if (d.eager()) violate("eager_refresh", "a refresh was requested although at least 64 characters of space were left");
        // every refresh must be caused by a lack of the guaranteed space or make
        // progress in the text: more refreshes than characters never are
        if ((size_t)d.refreshes() > ref.size() + 8 * p->nodes.size() + 8)
            violate("too_many_refreshes", "%d refreshes for %zu characters", d.refreshes(), ref.size());
    }
}
void run(Run& r) { with_char_type(r.pick(5), [&](auto c) { go<decltype(c)>(r); }); }
}
const Property property{
    "C01",
    "A run prints a random program of printables, formats, facets and charsets once into one ample buffer and then through 1-3 random sequences of buffer sizes (refreshed buffers hold at least 64 characters, the first one any number including none); the texts must be equal, accesses stay inside the exact-size buffers and sources (AddressSanitizer) and the number of refreshes stays bounded. Non-trivial: at least one print was suspended by a refresh.",
    run, 250000, 1200000, 50,
    "the whole of strf (headers and src/strf.cpp, built from the current tree)",
    "destination whose buffer sizes come from the seed",
    "sequences of (characters taken, size of the next buffer) at the refreshes of a run"
};
}
