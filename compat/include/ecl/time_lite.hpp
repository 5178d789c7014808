#ifndef ECL_TIME_LITE_HPP_
#define ECL_TIME_LITE_HPP_
#include "time_lite/config.hpp"
#include "time_lite/types.hpp"
#include "time_lite/errors.hpp"
#include "time_lite/functions.hpp"
#include "time_lite/cpu_time.hpp"
#endif
