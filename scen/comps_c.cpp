// Single-threaded compositions: builders, typed views, counting upstreams, many blocks per arena.
#include "world.h"

using namespace ktl;
namespace sim
{
    using L256 = linear_allocator<256>;
    using L64 = linear_allocator<64>;
    using U0 = Up<0, U_OWNS>; using U1 = Up<1, U_OWNS>; using U2 = Up<2, U_OWNS>; using U3 = Up<3, U_OWNS>; using U4 = Up<4, U_OWNS>; using U5 = Up<5, U_OWNS>;
    using P0 = Up<0, 0>; using P1 = Up<1, 0>; using P4 = Up<4, 0>;
    using UC0 = Up<0, U_OWNS | U_CONSTRUCT>; using UC1 = Up<1, U_OWNS | U_CONSTRUCT>; using UC2 = Up<2, U_OWNS | U_CONSTRUCT>;
    using UM0 = Up<0, U_OWNS | U_MAX>; using UM1 = Up<1, U_OWNS | U_MAX>;

    #define S(...) std::vector<size_t>{ __VA_ARGS__ }

    static RegComp c1({ "seg_builder_min4", false, seg(16, up(0), seg(48, up(1), seg(160, up(2), up(3)))), [] { return make_plain<segragator_builder_min<U0, threshold<16>, U1, threshold<48>, U2, threshold<160>, U3>>(); }, S(1, 16, 17, 48, 49, 160, 161, 400), CF_STUBS });
    static RegComp c2({ "seg_builder_max3", false, seg(24, up(0), seg(100, up(1), up(2))), [] { return make_plain<segragator_builder_max<U0, threshold<24>, U1, threshold<100>, U2>>(); }, S(1, 24, 25, 100, 101, 400), CF_STUBS });
    static RegComp c3({ "seg_builder_min6", false, seg(8, up(0), seg(16, up(1), seg(32, up(2), seg(64, up(3), seg(128, up(4), up(5)))))),
        [] { return make_plain<segragator_builder_min<U0, threshold<8>, U1, threshold<16>, U2, threshold<32>, U3, threshold<64>, U4, threshold<128>, U5>>(); }, S(1, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129), CF_STUBS });
    static RegComp c4({ "seg_builder_max5", false, seg(8, up(0), seg(16, up(1), seg(32, up(2), seg(64, up(3), up(4))))),
        [] { return make_plain<segragator_builder_max<U0, threshold<8>, U1, threshold<16>, U2, threshold<32>, U3, threshold<64>, P4>>(); }, S(1, 8, 9, 16, 17, 32, 33, 64, 65, 200), CF_STUBS });
    static RegComp c5({ "fallback_builder_min4", false, fb(up(0), fb(up(1), fb(up(2), up(3)))), [] { return make_plain<fallback_builder_min<U0, U1, U2, U3>>(); }, S(1, 16, 64, 200), CF_STUBS });
    static RegComp c6({ "fallback_builder_max3", false, fb(up(0), fb(up(1), up(2))), [] { return make_plain<fallback_builder_max<U0, U1, U2>>(); }, S(1, 16, 64, 200), CF_STUBS });
    static RegComp c7({ "fallback_builder_min5", false, fb(lin(64), fb(up(1), fb(up(2), fb(up(3), up(4))))), [] { return make_plain<fallback_builder_min<L64, U1, U2, U3, U4>>(); }, S(1, 16, 64, 200), CF_STUBS });
    static RegComp c8({ "seg_counting", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, UC0, UC1>>(); }, S(16, 32, 33, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp c9({ "seg_counting_second", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, U0, UC1>>(); }, S(16, 32, 33, 64), CF_STUBS | CF_COUNTS1 });
    static RegComp c10({ "fallback_counting", false, fb(up(0), up(1)), [] { return make_plain<fallback<UC0, UC1>>(); }, S(16, 32, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp c11({ "fallback_counting_second", false, fb(lin(64), up(1)), [] { return make_plain<fallback<L64, UC1>>(); }, S(16, 32, 64, 100), CF_STUBS | CF_COUNTS1 });
    static RegComp c12({ "fallback_counting_first", false, fb(up(0), up(1)), [] { return make_plain<fallback<UC0, P1>>(); }, S(16, 32, 64), CF_STUBS | CF_COUNTS0 });
    static RegComp c13({ "freelist_counting", false, fl(0, 64, up(0)), [] { return make_plain<freelist<0, 64, UC0>>(); }, S(16, 64, 65), CF_STUBS | CF_COUNTS0 });
    static RegComp c14({ "overflow_counting", false, ovf(up(0)), [] { return make_plain<overflow<UC0, SimStream>>(*stream()); }, S(16, 64, 100), CF_STUBS | CF_OVERFLOW | CF_COUNTS0 });
    static RegComp c15({ "shared_seg_counting", false, seg(32, fl(0, 32, up(0)), up(2)), [] { return make_plain<shared<segragator<32, freelist<0, 32, UC0>, UC2>>, true>(); }, S(16, 32, 33, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS2 });
    static RegComp c16({ "reference_counting", false, fb(up(0), up(1)), [] { return make_over<reference<fallback<UC0, UC1>>, fallback<UC0, UC1>, true>(); }, S(16, 32, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp c17({ "typed8_linear", false, typ(8, lin(256)), [] { return make_plain<Typed<uint64_t, shared<L256>>, true>(); }, S(1, 8, 16, 24, 100, 248, 256), 0 });
    static RegComp c18({ "typed24_malloc", false, typ(24, mal()), [] { return make_plain<Typed<B24, mallocator>, true>(); }, S(1, 24, 25, 48, 240), 0 });
    static RegComp c19({ "typed24_up", false, typ(24, seg(48, up(0), up(1))), [] { return make_plain<Typed<B24, shared<segragator<48, UM0, UM1>>>, true>(); }, S(1, 24, 25, 48, 49, 240), CF_STUBS });
    static RegComp c20({ "typed2_freelist", false, typ(2, fl(0, 64, up(0))), [] { return make_plain<Typed<uint16_t, shared<freelist<0, 64, U0>>>, true>(); }, S(2, 8, 63, 64, 65), CF_STUBS });
    static RegComp c21({ "casc_many", false, casc(lin(8192)), [] { return make_plain<cascading<linear_allocator<8192>>>(); }, S(16, 32, 48, 4096, 8192), 0 });
    static RegComp c22({ "freelist_casc_many", false, fl(0, 24, casc(lin(16384))), [] { return make_plain<freelist<0, 24, cascading<linear_allocator<16384>>>>(); }, S(8, 24, 25), 0 });
    static RegComp c23({ "fallback_casc_max", false, fb(casc(lin(64)), casc(lin(256))), [] { return make_plain<fallback<cascading<L64>, cascading<L256>>>(); }, S(16, 48, 64, 65, 100, 256), 0 });
    static RegComp c24({ "seg_casc_max", false, seg(64, casc(lin(64)), casc(lin(256))), [] { return make_plain<segragator<64, cascading<L64>, cascading<L256>>>(); }, S(16, 48, 64, 65, 100, 256), 0 });
    static RegComp c25({ "shared_casc_max", false, casc(lin(256)), [] { return make_plain<shared<cascading<L256>>, true>(); }, S(16, 48, 64, 100, 256, 257), 0 });
}
