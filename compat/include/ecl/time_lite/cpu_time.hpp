#ifndef ECL_TIME_LITE_CPU_TIME_HPP_
#define ECL_TIME_LITE_CPU_TIME_HPP_
#include "functions.hpp"
namespace ecl { inline TimeError cpu_time(TimeStructure& t) { return TimeError(ecl_compat_cpu(&t) == 0 ? NoError : UnknownError); } }
#endif
