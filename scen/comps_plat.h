// The branches of utility/aligned_malloc.h that other platforms compile, next to the one of this platform: the
// including file removes the macros of this platform and renames the library's namespace, so that a second
// instance of every header lives in the same program. PLAT is the name of the instance.
#include "world.h"

using namespace ktl;
namespace sim
{
    #define S(...) std::vector<size_t>{ __VA_ARGS__ }
    using L256 = linear_allocator<256>;
    using L64 = linear_allocator<64>;
    using U0 = Up<0, U_OWNS>;
    static N pm() { N n = mal(); n.a = PLAT_OFFSET; return n; }

    static RegComp p1({ PLAT "_malloc", false, pm(), [] { return make_plain<mallocator, true>(); }, S(1, 8, 15, 16, 24, 100, 4000), PLAT_FLAGS });
    static RegComp p2({ PLAT "_freelist", false, fl(0, 64, pm()), [] { return make_plain<freelist<0, 64, mallocator>>(); }, S(1, 8, 63, 64, 65), PLAT_FLAGS });
    static RegComp p3({ PLAT "_casc", false, casc(lin(64)), [] { return make_plain<cascading<L64>>(); }, S(1, 16, 32, 48, 64, 65), PLAT_FLAGS });
    static RegComp p4({ PLAT "_fallback", false, fb(lin(64), pm()), [] { return make_plain<fallback<L64, mallocator>>(); }, S(1, 16, 32, 64, 65, 100), PLAT_FLAGS });
    static RegComp p5({ PLAT "_shared_seg", false, seg(32, lin(256), pm()), [] { return make_plain<shared<segragator<32, L256, mallocator>>, true>(); }, S(1, 16, 32, 33, 100), PLAT_FLAGS });
    static RegComp p6({ PLAT "_typed24", false, typ(24, pm()), [] { return make_plain<Typed<B24, mallocator>, true>(); }, S(1, 24, 25, 48, 240), PLAT_FLAGS });
    static RegComp p7({ PLAT "_shared_mt", true, seg(32, fl(0, 32, casc(lin(96))), pm()), [] { return make_plain<atomic_shared<threaded<segragator<32, freelist<0, 32, cascading<linear_allocator<96>>>, mallocator>>>, true>(); }, S(8, 32, 33, 100), PLAT_FLAGS });
}
