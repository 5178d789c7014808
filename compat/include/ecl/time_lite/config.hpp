#ifndef ECL_TIME_LITE_CONFIG_HPP_
#define ECL_TIME_LITE_CONFIG_HPP_
#include <ecl/config/ecl.hpp>
#define ECL_HAS_RT_TIMERS
#define ECL_HAS_CPUTIME
#endif
