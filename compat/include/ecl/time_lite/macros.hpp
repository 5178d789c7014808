#ifndef ECL_TIME_LITE_MACROS_HPP_
#define ECL_TIME_LITE_MACROS_HPP_
#define ecl_time_lite_PUBLIC
#define ecl_time_lite_LOCAL
#endif
