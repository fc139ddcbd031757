#include "stl.h"
namespace sim
{
    Scenario* make_stl5(int e, const Plan& p)
    {
        switch (e)
        {
        case SE_SPLIT: return new Stl<EnvSplit>(p);
        case SE_SPARE: return new Stl<EnvSpare>(p);
        default: return nullptr;
        }
    }
}
