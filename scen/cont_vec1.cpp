#include "containers.h"
namespace sim { Scenario* make_vector_kit(int kit, const Plan& p) { return make_kit<true>(kit, p); } }
