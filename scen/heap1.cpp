#include "heap.h"
namespace sim
{
    static TrackReg* g_tracks; TrackReg*& tracks() { return g_tracks; }
    Scenario* make_heap_kit(int kit, const Plan& p)
    {
        switch (kit)
        {
        case HK_INT_LESS_INST: return new HeapScen<int, std::less<int>, EnvInst>(p);
        case HK_INT_GREATER_MALLOC: return new HeapScen<int, std::greater<int>, EnvMalloc>(p);
        case HK_KI_DIR_INST: return new HeapScen<KI, Dir, EnvInst>(p);
        case HK_KI_LESS_LINEAR: return new HeapScen<KI, std::less<KI>, EnvLinear>(p);
        case HK_KI_GREATER_REF: return new HeapScen<KI, std::greater<KI>, EnvRef>(p);
        case HK_TR_LESS_INST: return new HeapScen<Tracked, std::less<Tracked>, EnvInst>(p);
        case HK_TR_GREATER_CONSTRUCT: return new HeapScen<Tracked, std::greater<Tracked>, EnvConstruct>(p);
        case HK_TR_DIR_SHARED: return new HeapScen<Tracked, Dir, EnvShared>(p);
        case HK_TR_LESS_OVERFLOW: return new HeapScen<Tracked, std::less<Tracked>, EnvOverflow>(p);
        case HK_TR_LESS_SPLIT: return new HeapScen<Tracked, std::less<Tracked>, EnvSplit>(p);
        case HK_TR_GREATER_SPARE: return new HeapScen<Tracked, std::greater<Tracked>, EnvSpare>(p);
        case HK_PIN_DIR_INST: return new HeapScen<Pinned<8>, Dir, EnvInst>(p);
        case HK_PIN_LESS_CONSTRUCT: return new HeapScen<Pinned<8>, std::less<Pinned<8>>, EnvConstruct>(p);
        default: return nullptr;
        }
    }
}
