// C04, C05, C08: one allocator with tens of thousands of grants outstanding at once (counters, lists and offsets
// that are wide enough for hundreds need not be wide enough for these).
#include "world.h"

#include <algorithm>

using namespace rt;
using namespace ktl;

namespace sim
{
    namespace
    {
        constexpr size_t BIG = 1200000;
        using LB = linear_allocator<BIG>;
        using U0 = Up<0, U_OWNS>; using U1 = Up<1, U_OWNS>;
        struct VComp { const char* name; AnyAlloc* (*make)(); bool arena, noisy; size_t retains = 0; };
        // arena: once everything is back, what was granted before must be granted again
        // retains: up to this size a released block serves the next request, so that upstream 0 is only asked for new peaks
        const VComp vcomps[] = {
            { "cascade", [] { return make_plain<cascading<LB>>(); }, true, false },
            { "shared_cascade", [] { return make_plain<shared<cascading<LB>>, true>(); }, true, false },
            { "linear", [] { return make_plain<LB>(); }, true, false },
            { "threaded_linear", [] { return make_plain<atomic_shared<threaded<LB>>, true>(); }, true, false },
            { "stack", [] { return make_over<stack_allocator<BIG>, stack<BIG>, true>(); }, true, false },
            { "freelist", [] { return make_plain<freelist<0, 32, U0>>(); }, true, false, 32 },
            { "freelist_cascade", [] { return make_plain<freelist<0, 16, cascading<LB>>>(); }, true, false },
            { "segragator", [] { return make_plain<segragator<16, freelist<0, 16, U0>, U1>>(); }, true, false, 16 },
            { "freelist_mid", [] { return make_plain<freelist<4, 24, U0>>(); }, true, false, 24 },
            { "threaded_freelist", [] { return make_plain<atomic_shared<threaded<freelist<0, 64, U0>>>, true>(); }, true, false, 64 },
            { "fallback", [] { return make_plain<fallback<linear_allocator<600000>, U1>>(); }, true, false },
            { "fallback_cascade", [] { return make_plain<fallback<linear_allocator<200000>, cascading<linear_allocator<400000>>>>(); }, true, false },
            { "overflow", [] { return make_plain<overflow<U0, SimStream>>(*stream()); }, true, true },
            { "mallocator", [] { return make_plain<mallocator, true>(); }, true, false },
        };
        constexpr size_t NV = sizeof vcomps / sizeof *vcomps;
    }

    struct Volume : Scenario
    {
        const Plan& plan; const VComp& vc; UpState up; NodeReg nreg; SimStream strm; AnyAlloc* h = nullptr;
        struct G { uintptr_t p; size_t n; uint64_t tag; };
        std::vector<G> held; uint64_t tag = 1; uint64_t grants = 0; size_t small = 0, peak = 0;
        enum { V_GROW = 0, V_SHRINK, V_BIG, V_DROPBIG, V_NUM };

        explicit Volume(const Plan& p) : plan(p), vc(vcomps[size_t(p.knob(K_USER)) % NV]) {}

        void setup() override
        {
            ups() = &up; nodes() = &nreg; stream() = &strm; big_blocks(4u << 20);
            h = vc.make();
            note(uint64_t(plan.knob(K_USER)));
        }

        bool grow(size_t n)
        {
            void* p; { Sut s; p = h->allocate(n); }
            progressed();
            if (!p) return false;
            uintptr_t a = reinterpret_cast<uintptr_t>(p);
            if (a & 15) violate("misaligned", "allocate(%zu) returns %p, which is not aligned to std::max_align_t (op %d)", n, p, op_id());
            if (!in_arena(p) || !live_range(p, n)) violate("grant-not-live", "allocate(%zu) returns a range of which not every byte is live memory (grant %zu, op %d)", n, held.size(), op_id());
            G g{ a, n, tag++ };
            std::memcpy(p, &g.tag, std::min<size_t>(n, 8)); if (n >= 16) std::memcpy(reinterpret_cast<char*>(p) + n - 8, &g.tag, 8);
            held.push_back(g); grants++;
            if (n <= vc.retains)
            {
                small++; peak = std::max(peak, small);
                if (up.pool[0].allocs > peak) violate("retained-not-used", "at most %zu blocks were ever outstanding at once, but the freelist asked its underlying allocator %llu times (op %d)", peak, (unsigned long long)up.pool[0].allocs, op_id());
            }
            return true;
        }
        void check(const G& g, const char* when)
        {
            if (!live_range(reinterpret_cast<void*>(g.p), g.n)) violate("grant-not-live", "the memory of a grant of %zu bytes is gone while the client holds it (%s, %zu outstanding, op %d)", g.n, when, held.size(), op_id());
            size_t k = std::min<size_t>(g.n, 8);
            if (std::memcmp(reinterpret_cast<void*>(g.p), &g.tag, k) || (g.n >= 16 && std::memcmp(reinterpret_cast<char*>(g.p) + g.n - 8, &g.tag, 8))) violate("contents-lost", "a grant of %zu bytes changed while the client held it (%s, %zu outstanding, op %d)", g.n, when, held.size(), op_id());
        }
        void shrink(size_t i)
        {
            G g = held[i]; held[i] = held.back(); held.pop_back();
            check(g, "at release");
            if (g.n <= vc.retains) small--;
            { Sut s; h->deallocate(reinterpret_cast<void*>(g.p), g.n); }
            progressed();
        }
        void survey(const char* when)
        {
            for (auto& g : held) check(g, when);
            std::vector<G> v = held;
            std::sort(v.begin(), v.end(), [](const G& a, const G& b) { return a.p < b.p; });
            for (size_t i = 1; i < v.size(); i++) if (v[i - 1].p + v[i - 1].n > v[i].p) violate("overlap", "two of %zu outstanding grants overlap (%zu and %zu bytes, op %d)", v.size(), v[i - 1].n, v[i].n, op_id());
            if (h->hasOwns())
                for (size_t i = 0; i < held.size(); i += 1 + held.size() / 40)
                {
                    bool o; { Sut s; o = h->owns(reinterpret_cast<void*>(held[i].p)); } progressed();
                    if (!o) violate("grant-not-owned", "owns() denies one of %zu outstanding grants (op %d)", held.size(), op_id());
                }
        }

        size_t pick(int64_t how, Rng& r) { switch (how % 4) { case 0: return held.size() - 1; case 1: return 0; case 2: return size_t(how >> 2) % held.size(); default: return size_t(r.below(held.size())); } }

        std::vector<G> big; size_t largest = 0;
        void exec(const Op& op) override
        {
            Rng r(uint64_t(op.c) * 77 + uint64_t(op.id));
            switch (op.kind)
            {
            case V_GROW: { size_t n = 1 + size_t(op.c) % 16; for (int64_t i = 0; i < op.b && held.size() < 70000; i++) if (!grow(n)) break; break; }
            case V_SHRINK: for (int64_t i = 0; i < op.b && !held.empty(); i++) shrink(pick(op.c, r)); break;
            case V_BIG: if (grow(size_t(op.b))) { largest = std::max(largest, held.back().n); big.push_back(held.back()); held.pop_back(); } break;
            default: if (!big.empty()) { held.push_back(big.back()); big.pop_back(); shrink(held.size() - 1); }
            }
            if (held.size() > 65536) probe("volumes_beyond_16_bits");
            note(held.size(), grants);
            survey("after an operation");
            for (auto& g : big) check(g, "after an operation");
        }

        void quiesce() override
        {
            disarm();
            for (auto& g : big) held.push_back(g);
            big.clear();
            survey("at the end");
            Rng r(plan.seed);
            int64_t how = int64_t(plan.seed % 64);
            while (!held.empty()) shrink(pick(how, r));
            // everything is back: what could be had before can be had again
            if (largest && !grow(largest)) violate("not-reusable", "a grant of %zu bytes was possible before, but after everything was returned it is refused", largest);
            while (!held.empty()) shrink(0);
            // as much as before can be had again, twice over
            for (int k = 0; k < 2; k++)
            {
                size_t n = vc.noisy ? 2000 : std::min<size_t>(grants, 30000);
                for (size_t i = 0; i < n; i++) if (!grow(16)) violate("not-reusable", "after %llu grants were returned, grant %zu of %zu is refused", (unsigned long long)grants, i, n);
                survey("after everything was returned once");
                while (!held.empty()) shrink(pick(how + k, r));
            }
        }

        void teardown() override
        {
            h->destroyHandle(); delete h;
            for (int k = 0; k < 6; k++)
            {
                auto& p = up.pool[k];
                if (!p.live.empty()) violate("upstream-not-returned", "after everything was returned and the allocator destroyed, upstream %d still misses %zu of %llu blocks", k, p.live.size(), (unsigned long long)p.allocs);
                if (p.allocs != p.frees) violate("upstream-imbalance", "upstream %d handed out %llu blocks and got %llu back", k, (unsigned long long)p.allocs, (unsigned long long)p.frees);
            }
            if (live_blocks()) violate("leak", "after everything was returned and the allocator destroyed, %zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            if (!strm.text.empty()) violate("false-report", "the overflow allocator reports something although nobody did anything wrong: %.200s", strm.text.c_str());
            ups() = nullptr;
        }
    };

    static void gen_some(Rng& r, Plan& p, bool huge)
    {
        p.knobs.resize(K_USER + 1, 0);
        p.knobs[K_RED] = 0; p.knobs[K_SKEW] = r.range(0, 3); p.knobs[K_FILL] = r.range(0, 3); p.knobs[K_CLIENTS] = 1;
        p.knobs[K_PLACE] = 1; p.knobs[K_QUOTA] = 0;
        p.knobs[K_USER] = r.chance(30) ? int64_t(r.below(2)) : int64_t(r.below(NV));
        int id = 0;
        auto add = [&](int kind, int64_t b) { Op o; o.id = id++; o.client = 1; o.kind = kind; o.b = b; o.c = int64_t(r.below(256)); p.ops.push_back(o); };
        auto bigSize = [&](int64_t lo, int64_t hi) { return r.chance(40) ? r.pick(std::vector<int64_t>{ 65536, 131072, 65520, 65537, 196608, 65535, 32768 }) : r.range(lo, hi); };
        for (int i = int(r.below(3)); i > 0; i--) if (r.chance(40)) add(Volume::V_BIG, bigSize(1, 400000));
        int64_t n = !huge ? (r.chance(60) ? r.range(200, 1500) : r.range(1500, 5000)) : r.chance(60) ? r.range(65500, 67500) : r.chance(50) ? r.range(200, 5000) : r.range(1, 5);
        add(Volume::V_GROW, n);
        if (r.chance(80)) add(Volume::V_BIG, bigSize(150000, 1150000));
        if (r.chance(60)) add(Volume::V_SHRINK, n > 65536 && r.chance(60) ? n - 65536 + r.range(0, 30) : r.range(1, 3000));
        if (r.chance(40)) add(Volume::V_GROW, r.range(1, 3000));
        if (r.chance(40)) add(Volume::V_DROPBIG, 0);
        if (r.chance(40)) add(Volume::V_SHRINK, r.range(1, 30000));
        if (r.chance(30)) add(Volume::V_GROW, r.range(1, 2000));
    }
    static void gen_volume(Rng& r, Plan& p) { gen_some(r, p, true); }
    static void gen_middle(Rng& r, Plan& p) { gen_some(r, p, false); }
    static Scenario* make_volume(const Plan& p) { return new Volume(p); }
    static Register v4({ "volume_grants", "C04", 1, gen_volume, make_volume });
    static Register m4({ "thousands_grants", "C04", 200, gen_middle, make_volume });
    static Register v5({ "volume_routing", "C05", 1, gen_volume, make_volume });
    static Register m5({ "thousands_routing", "C05", 150, gen_middle, make_volume });
    static Register v8({ "volume_reuse", "C08", 1, gen_volume, make_volume });
    static Register m8({ "thousands_reuse", "C08", 200, gen_middle, make_volume });
}
