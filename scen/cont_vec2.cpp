#include "containers.h"
namespace sim { Scenario* make_vector_kit2(int kit, const Plan& p) { return make_kit2<true>(kit, p); } }
