#include "stl.h"
namespace sim
{
    Scenario* make_stl1(int e, const Plan& p)
    {
        switch (e)
        {
        case SE_SHARED: return new Stl<EnvShared>(p);
        case SE_MALLOC: return new Stl<EnvMalloc>(p);
        case SE_SEG: return new Stl<EnvSeg>(p);
        case SE_OVERFLOW: return new Stl<EnvOverflow>(p);
        default: return nullptr;
        }
    }
}
