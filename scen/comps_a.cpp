// Compositions shared among threads, and single-threaded ones (first half).
#include "world.h"

using namespace ktl;
namespace sim
{
    template<typename A> using ts = atomic_shared<threaded<A>>;
    using F1 = freelist<0, 64, mallocator>;
    using L256 = linear_allocator<256>;
    using L64 = linear_allocator<64>;
    using U0 = Up<0, U_OWNS>; using U1 = Up<1, U_OWNS>; using U2 = Up<2, U_OWNS>;
    using UC0 = Up<0, U_OWNS | U_CONSTRUCT>; using UC1 = Up<1, U_OWNS | U_CONSTRUCT>;

    #define S(...) std::vector<size_t>{ __VA_ARGS__ }

    // --- thread safe
    static RegComp a1({ "ts_malloc", true, mal(), [] { return make_plain<ts<mallocator>, true>(); }, S(1, 8, 16, 24, 100, 600), 0 });
    static RegComp a2({ "ts_freelist_malloc", true, fl(0, 64, mal()), [] { return make_plain<ts<F1>, true>(); }, S(8, 16, 64, 33, 65), 0 });
    static RegComp a3({ "ts_linear", true, lin(256), [] { return make_plain<ts<L256>, true>(); }, S(16, 32, 48, 64, 100, 128, 256), 0 });
    static RegComp a4({ "ts_casc_linear", true, casc(lin(64)), [] { return make_plain<ts<cascading<L64>>, true>(); }, S(16, 32, 48, 64, 80), 0 });
    static RegComp a5({ "ts_casc_freelist_linear", true, casc(fl(0, 32, lin(64))), [] { return make_plain<ts<cascading<freelist<0, 32, L64>>>, true>(); }, S(8, 16, 32, 33), 0 });
    static RegComp a6({ "ts_seg_freelist_malloc", true, seg(32, fl(0, 32, mal()), fl(32, 128, mal())), [] { return make_plain<ts<segragator<32, freelist<0, 32, mallocator>, freelist<32, 128, mallocator>>>, true>(); }, S(8, 32, 33, 64, 128, 129), 0 });
    static RegComp a7({ "ts_fallback_linear_malloc", true, fb(lin(64), mal()), [] { return make_plain<ts<fallback<L64, mallocator>>, true>(); }, S(16, 32, 48, 64, 65, 200), 0 });
    static RegComp a8({ "ts_up", true, up(0), [] { return make_plain<ts<U0>, true>(); }, S(1, 16, 40, 64, 300), CF_STUBS });
    static RegComp a9({ "ts_freelist_up", true, fl(0, 64, up(0)), [] { return make_plain<ts<freelist<0, 64, U0>>, true>(); }, S(8, 16, 64, 65), CF_STUBS });
    static RegComp a10({ "ts_seg_up_up", true, seg(32, up(0), up(1)), [] { return make_plain<ts<segragator<32, UC0, UC1>>, true>(); }, S(8, 31, 32, 33, 64), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp a11({ "ts_fallback_up_up", true, fb(up(0), up(1)), [] { return make_plain<ts<fallback<UC0, UC1>>, true>(); }, S(8, 16, 64, 200), CF_STUBS | CF_COUNTS0 | CF_COUNTS1 });
    static RegComp a12({ "ts_overflow_up", true, ovf(up(0)), [] { return make_plain<ts<overflow<U0, SimStream>>, true>(*stream()); }, S(1, 8, 16, 40, 100), CF_STUBS | CF_OVERFLOW });
    static RegComp a13({ "ts_overflow_linear", true, ovf(lin(1024)), [] { return make_plain<ts<overflow<linear_allocator<1024>, SimStream>>, true>(*stream()); }, S(16, 32, 100, 400), CF_OVERFLOW });
    static RegComp a14({ "global_threaded_linear", true, lin(256), [] { return make_global<threaded<L256>>(); }, S(16, 32, 64, 100, 256), CF_GLOBAL });
    static RegComp a15({ "global_threaded_freelist", true, fl(0, 64, mal()), [] { return make_global<threaded<F1>>(); }, S(8, 16, 64), CF_GLOBAL });
    static RegComp a16({ "ts_freelist_linear", true, fl(0, 32, lin(256)), [] { return make_plain<ts<freelist<0, 32, L256>>, true>(); }, S(8, 16, 32), 0 });
    static RegComp a17({ "ts_reference_up", true, fl(0, 64, up(0)), [] { return make_over<ts<reference<freelist<0, 64, U0>>>, freelist<0, 64, U0>, true>(); }, S(8, 64, 65), CF_STUBS });
    static RegComp a18({ "ts_fallback_freelist_up", true, fb(fl(0, 32, lin(128)), up(1)), [] { return make_plain<ts<fallback<freelist<0, 32, linear_allocator<128>>, U1>>, true>(); }, S(8, 32, 33, 100), CF_STUBS });
    static RegComp a19({ "ts_casc_up_nodes", true, casc(lin(96)), [] { return make_plain<ts<cascading<Node<96>>>, true>(); }, S(16, 32, 48, 96), CF_NODES });
    static RegComp a19b({ "ts_casc_frail_nodes", true, casc(lin(96)), [] { return make_plain<ts<cascading<Node<96, false, true>>>, true>(); }, S(16, 32, 48, 96), CF_NODES });
    static RegComp a20({ "ts_stack", true, lin(256), [] { return make_over<ts<stack_allocator<256>>, stack<256>, true>(); }, S(16, 32, 64, 128, 256), 0 });
    static RegComp a21({ "ts_shared_inside", true, fl(0, 64, lin(256)), [] { return make_plain<atomic_shared<threaded<shared<freelist<0, 64, L256>>>>, true>(); }, S(8, 16, 64), 0 });
    static RegComp a22({ "ts_type_over", true, seg(64, lin(256), up(2)), [] { return make_plain<ts<segragator<64, L256, U2>>, true>(); }, S(8, 64, 65, 100), CF_STUBS });
}
