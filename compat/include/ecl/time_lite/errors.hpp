#ifndef ECL_TIME_LITE_ERRORS_HPP_
#define ECL_TIME_LITE_ERRORS_HPP_
#include <ecl/errors/handlers.hpp>
namespace ecl {
class TimeError : public Error { public: TimeError(const ErrorFlag& f = UnknownError) : Error(f) {} };
}
#endif
