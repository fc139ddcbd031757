#include "stl_frail.h"

namespace sim
{
    Scenario* make_frail2(int e, const Plan& p)
    {
        switch (e)
        {
        case FE_CASCADE: return new FrailWorld<EnvBigCascade>(p);
        case FE_SEG: return new FrailWorld<EnvSeg>(p);
        case FE_MTOVERFLOW: return new FrailWorld<EnvMTOverflow>(p);
        default: return new FrailWorld<EnvMTBigCascade>(p);
        }
    }
}
