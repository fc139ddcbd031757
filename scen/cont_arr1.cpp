#include "containers.h"
namespace sim { Scenario* make_array_kit(int kit, const Plan& p) { return make_kit<false>(kit, p); } }
