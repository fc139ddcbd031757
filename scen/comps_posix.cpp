// aligned_malloc over posix_memalign: what a 32-bit Linux build compiles.
#include "../sim/rt.h"
#include <array>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <limits>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include <unistd.h>
#undef __LP64__
#define ktl ktl_posix
#define PLAT "posix"
#define PLAT_OFFSET 0
#define PLAT_FLAGS 0
#include "comps_plat.h"
