#include "containers.h"
namespace sim { Scenario* make_array_kit2(int kit, const Plan& p) { return make_kit2<false>(kit, p); } }
