// Single-threaded compositions.
#include "world.h"

using namespace ktl;
namespace sim
{
    using L256 = linear_allocator<256>;
    using L64 = linear_allocator<64>;
    using U0 = Up<0, U_OWNS>; using U1 = Up<1, U_OWNS>; using U2 = Up<2, U_OWNS>; using U3 = Up<3, U_OWNS>;
    using P0 = Up<0, 0>; using P1 = Up<1, 0>;
    using UC0 = Up<0, U_OWNS | U_CONSTRUCT>; using UC1 = Up<1, U_OWNS | U_CONSTRUCT>;
    using UM0 = Up<0, U_OWNS | U_MAX>; using UM1 = Up<1, U_OWNS | U_MAX>;

    #define S(...) std::vector<size_t>{ __VA_ARGS__ }

    static RegComp b1({ "malloc", false, mal(), [] { return make_plain<mallocator, true>(); }, S(1, 8, 16, 24, 100, 4000), 0 });
    static RegComp b2({ "linear", false, lin(256), [] { return make_plain<L256>(); }, S(1, 8, 16, 17, 32, 64, 100, 250, 256, 257), 0 });
    static RegComp b2b({ "linear_odd", false, lin(200), [] { return make_plain<linear_allocator<200>>(); }, S(1, 8, 16, 24, 40, 100, 192, 200), 0 });
    static RegComp b2c({ "linear_tiny", false, lin(24), [] { return make_plain<linear_allocator<24>>(); }, S(1, 8, 16, 17, 24), 0 });
    static RegComp b2d({ "linear_big", false, lin(65536 + 512), [] { return make_plain<linear_allocator<65536 + 512>>(); }, S(64, 256, 16384, 32768), 0 });
    static RegComp b2e({ "stack_big", false, lin(65536 + 512), [] { return make_over<stack_allocator<65536 + 512>, stack<65536 + 512>, true>(); }, S(64, 256, 16384, 32768), 0 });
    static RegComp b3({ "stack", false, lin(256), [] { return make_over<stack_allocator<256>, stack<256>, true>(); }, S(1, 8, 16, 17, 32, 64, 100, 250, 256, 257), 0 });
    static RegComp b4({ "null", false, nul(), [] { return make_plain<null_allocator, true>(); }, S(1, 16, 100), 0 });
    static RegComp b5({ "freelist_malloc", false, fl(0, 64, mal()), [] { return make_plain<freelist<0, 64, mallocator>>(); }, S(1, 8, 16, 63, 64, 65), 0 });
    static RegComp b6({ "freelist_mid_up", false, fl(16, 64, up(0)), [] { return make_plain<freelist<16, 64, P0>>(); }, S(8, 16, 17, 40, 64, 65), CF_STUBS });
    static RegComp b7({ "freelist_min_up", false, fl(0, 8, up(0)), [] { return make_plain<freelist<0, 8, U0>>(); }, S(1, 7, 8, 9), CF_STUBS });
    static RegComp b8({ "seg_up_up", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, U0, U1>>(); }, S(1, 31, 32, 33, 64, 500), CF_STUBS });
    static RegComp b9({ "seg_plain_plain", false, seg(64, up(0), up(1)), [] { return make_plain<segragator<64, P0, P1>>(); }, S(1, 63, 64, 65, 200), CF_STUBS });
    static RegComp b10({ "fallback_up_up", false, fb(up(0), up(1)), [] { return make_plain<fallback<U0, P1>>(); }, S(1, 16, 64, 300), CF_STUBS });
    static RegComp b11({ "fallback_linear_up", false, fb(lin(64), up(1)), [] { return make_plain<fallback<L64, U1>>(); }, S(1, 16, 32, 48, 64, 65, 100), CF_STUBS });
    static RegComp b12({ "fallback_linear_malloc", false, fb(lin(64), mal()), [] { return make_plain<fallback<L64, mallocator>>(); }, S(1, 16, 32, 48, 64, 65, 100), 0 });
    static RegComp b13({ "fallback_fallback", false, fb(fb(up(0), up(1)), up(2)), [] { return make_plain<fallback<fallback<U0, U1>, U2>>(); }, S(1, 16, 64), CF_STUBS });
    static RegComp b14({ "fallback_right", false, fb(up(0), fb(up(1), up(2))), [] { return make_plain<fallback<U0, fallback<U1, U2>>>(); }, S(1, 16, 64), CF_STUBS });
    static RegComp b15({ "seg_tree_min", false, seg(64, seg(16, up(0), up(1)), up(2)), [] { return make_plain<segragator<64, segragator<16, U0, U1>, U2>>(); }, S(1, 16, 17, 64, 65, 300), CF_STUBS });
    static RegComp b16({ "seg_builder_max", false, seg(8, fl(0, 8, mal()), seg(128, fl(0, 128, mal()), seg(512, casc(lin(512)), mal()))),
        [] { return make_plain<segragator_builder_max<freelist<0, 8, mallocator>, threshold<8>, freelist<0, 128, mallocator>, threshold<128>, cascading<linear_allocator<512>>, threshold<512>, mallocator>>(); }, S(1, 8, 9, 128, 129, 256, 512, 513), 0 });
    static RegComp b17({ "casc_linear", false, casc(lin(64)), [] { return make_plain<cascading<L64>>(); }, S(1, 16, 32, 48, 64, 65), 0 });
    static RegComp b18({ "casc_nodes", false, casc(lin(96)), [] { return make_plain<cascading<Node<96>>>(); }, S(1, 16, 32, 48, 96, 97), CF_NODES });
    static RegComp b18f({ "casc_nodes_frail", false, casc(lin(96)), [] { return make_plain<cascading<Node<96, false, true>>>(); }, S(1, 16, 32, 48, 96, 97), CF_NODES });
    static RegComp b18g({ "fallback_casc_nodes_frail", false, fb(lin(64), casc(lin(160))), [] { return make_plain<shared<fallback<linear_allocator<64>, cascading<Node<160, false, true>>>>, true>(); }, S(16, 32, 48, 160), 0 });
    static RegComp b18c({ "casc_nodes_counting", false, casc(lin(96)), [] { return make_plain<cascading<Node<96, true>>>(); }, S(16, 32, 48, 96, 97), CF_NODES });
    static RegComp b18d({ "seg_casc_nodes_counting", false, seg(32, casc(lin(96)), casc(lin(160))), [] { return make_plain<shared<segragator<32, cascading<Node<96, true>>, cascading<Node<160, true>>>>, true>(); }, S(16, 32, 48, 96, 160, 161), 0 });
    static RegComp b18e({ "fallback_casc_nodes_counting", false, fb(lin(64), casc(lin(160))), [] { return make_plain<fallback<linear_allocator<64>, cascading<Node<160, true>>>>(); }, S(16, 32, 48, 160), 0 });
    static RegComp b19({ "casc_freelist_linear", false, casc(fl(0, 32, lin(64))), [] { return make_plain<cascading<freelist<0, 32, L64>>>(); }, S(1, 16, 32, 33), 0 });
    static RegComp b20({ "overflow_up", false, ovf(up(0)), [] { return make_plain<overflow<U0, SimStream>>(*stream()); }, S(1, 8, 13, 16, 100), CF_STUBS | CF_OVERFLOW });
    static RegComp b21({ "overflow_freelist", false, ovf(fl(0, 256, up(0))), [] { return make_plain<overflow<freelist<0, 256, U0>, SimStream>>(*stream()); }, S(1, 8, 100, 128, 129), CF_STUBS | CF_OVERFLOW });
    static RegComp b22({ "shared_linear", false, lin(256), [] { return make_plain<shared<L256>, true>(); }, S(1, 16, 32, 64, 100, 256), 0 });
    static RegComp b23({ "shared_freelist_up", false, fl(0, 64, up(0)), [] { return make_plain<shared<freelist<0, 64, U0>>, true>(); }, S(8, 64, 65), CF_STUBS });
    static RegComp b24({ "atomic_shared_casc", false, casc(lin(64)), [] { return make_plain<atomic_shared<cascading<L64>>, true>(); }, S(16, 32, 64, 65), 0 });
    static RegComp b25({ "reference_linear", false, lin(256), [] { return make_over<reference<L256>, L256, true>(); }, S(1, 16, 64, 100, 256), 0 });
    static RegComp b26({ "reference_seg", false, seg(32, up(0), up(1)), [] { return make_over<reference<segragator<32, U0, U1>>, segragator<32, U0, U1>, true>(); }, S(8, 32, 33, 64), CF_STUBS });
    static RegComp b27({ "global_linear", false, lin(256), [] { return make_global<L256>(); }, S(1, 16, 64, 100, 256), CF_GLOBAL });
    static RegComp b28({ "global_freelist", false, fl(0, 64, mal()), [] { return make_global<freelist<0, 64, mallocator>>(); }, S(8, 64, 65), CF_GLOBAL });
    static RegComp b28b({ "global_casc", false, casc(lin(96)), [] { return make_global<cascading<linear_allocator<96>>>(); }, S(8, 48, 96, 97), CF_GLOBAL });
    static RegComp b28c({ "global_seg_up", false, seg(32, fl(0, 32, up(0)), up(1)), [] { return make_global<segragator<32, freelist<0, 32, U0>, U1>>(); }, S(8, 32, 33, 100), CF_GLOBAL | CF_STUBS });
    static RegComp b29({ "seg_freelist_seg", false, seg(32, fl(0, 32, up(0)), seg(128, fl(32, 128, up(1)), up(2))), [] { return make_plain<segragator<32, freelist<0, 32, U0>, segragator<128, freelist<32, 128, U1>, U2>>>(); }, S(8, 32, 33, 128, 129), CF_STUBS });
    static RegComp b30({ "fallback_null_up", false, fb(nul(), up(1)), [] { return make_plain<fallback<null_allocator, U1>>(); }, S(8, 100), CF_STUBS });
    static RegComp b31({ "fallback_casc_up", false, fb(casc(lin(64)), up(1)), [] { return make_plain<fallback<cascading<L64>, U1>>(); }, S(16, 48, 64, 65, 100), CF_STUBS });
    static RegComp b32({ "freelist_casc", false, fl(0, 48, casc(lin(96))), [] { return make_plain<freelist<0, 48, cascading<linear_allocator<96>>>>(); }, S(8, 48, 49), 0 });
    static RegComp b33({ "seg_linear_linear", false, seg(32, lin(64), lin(256)), [] { return make_plain<segragator<32, L64, L256>>(); }, S(8, 32, 33, 64, 128), 0 });
    static RegComp b34({ "fallback_linear_linear", false, fb(lin(64), lin(256)), [] { return make_plain<fallback<L64, L256>>(); }, S(8, 32, 64, 65, 128, 256), 0 });
    static RegComp b35({ "fallback_stack_up", false, fb(lin(128), up(1)), [] { return make_over<fallback<stack_allocator<128>, U1>, stack<128>, true>(); }, S(8, 32, 64, 128, 129), CF_STUBS });
    static RegComp b36({ "seg_max", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, UM0, UM1>>(); }, S(8, 32, 33), CF_STUBS });
    static RegComp b37({ "seg_construct", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, UC0, P1>>(); }, S(16, 32, 33, 64), CF_STUBS | CF_COUNTS0 });
    static RegComp b38({ "overflow_linear", false, ovf(lin(1024)), [] { return make_plain<overflow<linear_allocator<1024>, SimStream>>(*stream()); }, S(1, 16, 100, 500, 896, 897), CF_OVERFLOW });
    static RegComp b39({ "freelist_overflow", false, fl(0, 64, ovf(up(0))), [] { return make_plain<freelist<0, 64, overflow<U0, SimStream>>>(*stream()); }, S(8, 64, 65), CF_STUBS | CF_OVERFLOW });
    // each part has a lock of its own, which may fail in owns() too
    static RegComp b41({ "fallback_threaded", false, fb(up(0), up(1)), [] { return make_plain<shared<fallback<threaded<UC0>, threaded<UC1>>>, true>(); }, S(8, 16, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp b42({ "seg_threaded", false, seg(32, up(0), up(1)), [] { return make_plain<segragator<32, threaded<UC0>, threaded<U1>>>(); }, S(8, 16, 32, 33, 64), CF_STUBS | CF_COUNTS0 });
    static RegComp b42b({ "fallback_threaded_overflow", false, fb(ovf(up(0)), ovf(up(1))), [] { return make_plain<fallback<threaded<overflow<U0, SimStream>>, threaded<overflow<U1, SimStream>>>>(*stream(), *stream()); }, S(8, 16, 64), CF_STUBS | CF_OVERFLOW });
    static RegComp b42c({ "seg_threaded_overflow", false, seg(32, ovf(up(0)), ovf(up(1))), [] { return make_plain<segragator<32, threaded<overflow<U0, SimStream>>, threaded<overflow<U1, SimStream>>>>(*stream(), *stream()); }, S(8, 16, 32, 33, 64), CF_STUBS | CF_OVERFLOW });
    static RegComp b42d({ "overflow_fallback_threaded", false, ovf(fb(up(0), up(1))), [] { return make_plain<overflow<fallback<threaded<UC0>, threaded<UC1>>, SimStream>>(*stream()); }, S(8, 16, 64), CF_STUBS | CF_OVERFLOW | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp b43({ "casc_threaded", false, casc(lin(96)), [] { return make_plain<cascading<threaded<Node<96, true>>>>(); }, S(16, 32, 48, 96, 97), CF_NODES });
    static RegComp b40({ "threaded_plain", false, fl(0, 64, up(0)), [] { return make_plain<threaded<freelist<0, 64, U0>>>(); }, S(8, 64, 65), CF_STUBS });
}
