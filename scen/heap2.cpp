#include "heap.h"
namespace sim
{
    Scenario* make_heap_kit2(int kit, const Plan& p)
    {
        switch (kit)
        {
        case HK_TR_DIR_SEG: return new HeapScen<Tracked, Dir, EnvSeg>(p);
        case HK_TR_GREATER_FALLBACK: return new HeapScen<Tracked, std::greater<Tracked>, EnvFallback>(p);
        case HK_TR_LESS_STACK: return new HeapScen<Tracked, std::less<Tracked>, EnvStack>(p);
        case HK_TR_DIR_STD: return new HeapScen<Tracked, Dir, EnvStd>(p);
        case HK_TR_DIR_INST: return new HeapScen<Tracked, Dir, EnvInst>(p);
        case HK_TR_DIR_CONSTRUCT: return new HeapScen<Tracked, Dir, EnvConstruct>(p);
        case HK_INT_DIR_CONSTRUCT: return new HeapScen<int, Dir, EnvConstruct>(p);
        case HK_KI_GREATER_OVERFLOW: return new HeapScen<KI, std::greater<KI>, EnvOverflow>(p);
        case HK_TR_DIR_MT: return new HeapScen<Tracked, Dir, EnvMT>(p);
        case HK_TR_LESS_MTOVERFLOW: return new HeapScen<Tracked, std::less<Tracked>, EnvMTOverflow>(p);
        case HK_KI_DIR_MTCASC: return new HeapScen<KI, Dir, EnvMTCascade>(p);
        case HK_WIDE_GREATER_SHARED: return new HeapScen<Pinned<104>, std::greater<Pinned<104>>, EnvShared>(p);
        case HK_WIDE_DIR_SPLIT: return new HeapScen<Pinned<104>, Dir, EnvSplit>(p);
        case HK_U8_GREATER_INST: return new HeapScen<uint8_t, std::greater<uint8_t>, EnvInst>(p);
        default: return nullptr;
        }
    }
}
