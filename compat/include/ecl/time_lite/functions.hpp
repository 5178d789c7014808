/* Stand-in for ecl_time_lite: the clocks. A harness may define ECL_COMPAT_VIRTUAL_CLOCK for the whole
 * build and provide the hooks below, which makes every timing decision of the library a generated input. */
#ifndef ECL_TIME_LITE_FUNCTIONS_HPP_
#define ECL_TIME_LITE_FUNCTIONS_HPP_
#include <errno.h>
#include "types.hpp"
#include "errors.hpp"
#ifdef ECL_COMPAT_VIRTUAL_CLOCK
int ecl_compat_epoch(struct timespec*);
int ecl_compat_realtime(struct timespec*);
int ecl_compat_cpu(struct timespec*);
int ecl_compat_sleep_until(const struct timespec*);
#else
inline int ecl_compat_epoch(struct timespec* t) { return clock_gettime(CLOCK_REALTIME, t); }
inline int ecl_compat_realtime(struct timespec* t) { return clock_gettime(CLOCK_REALTIME, t); }
inline int ecl_compat_cpu(struct timespec* t) { return clock_gettime(CLOCK_PROCESS_CPUTIME_ID, t); }
inline int ecl_compat_sleep_until(const struct timespec* t) { return clock_nanosleep(CLOCK_REALTIME, TIMER_ABSTIME, t, NULL); }
#endif
namespace ecl {
inline TimeError epoch_time(TimeStructure& t) { return TimeError(ecl_compat_epoch(&t) == 0 ? NoError : UnknownError); }
inline TimeError realtime_epoch_time(TimeStructure& t) { return TimeError(ecl_compat_realtime(&t) == 0 ? NoError : UnknownError); }
inline TimeError sleep_until(const TimeStructure& t) { return TimeError(ecl_compat_sleep_until(&t) == 0 ? NoError : UnknownError); }
}
#endif
