#include "stl.h"
namespace sim
{
    Scenario* make_stl4(int e, const Plan& p)
    {
        switch (e)
        {
        case SE_MTOVERFLOW: return new Stl<EnvMTOverflow>(p);
        case SE_MTGLOBAL: return new Stl<EnvMTGlobal>(p);
        case SE_MTCASCADE: return new Stl<EnvMTBigCascade>(p);
        default: return nullptr;
        }
    }
}
