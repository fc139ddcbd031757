#include "stl.h"
namespace sim
{
    Scenario* make_stl3(int e, const Plan& p)
    {
        switch (e)
        {
        case SE_GLOBAL: return new Stl<EnvGlobal>(p);
        case SE_INST: return new Stl<EnvInst>(p);
        case SE_CASCADE: return new Stl<EnvBigCascade>(p);
        case SE_MT: return new Stl<EnvMT>(p);
        default: return nullptr;
        }
    }
}
