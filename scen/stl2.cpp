#include "stl.h"
namespace sim
{
    Scenario* make_stl2(int e, const Plan& p)
    {
        switch (e)
        {
        case SE_CONSTRUCT: return new Stl<EnvConstruct>(p);
        case SE_FALLBACK: return new Stl<EnvFallback>(p);
        case SE_SEGREF: return new Stl<EnvSegRef>(p);
        default: return nullptr;
        }
    }
}
