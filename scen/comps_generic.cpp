// aligned_malloc over a malloc that aligns to 8 bytes only: what a platform with no aligned allocation compiles.
#include "../sim/rt.h"
#include <array>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <limits>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#undef __LP64__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#undef _POSIX_ADVISORY_INFO
#define ktl ktl_generic
#define PLAT "generic"
#define PLAT_OFFSET 1
#define PLAT_FLAGS CF_MALLOC8
#include "comps_plat.h"
