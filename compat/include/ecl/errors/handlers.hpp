/* Stand-in for ecl_errors: error flags and the value class that carries one. */
#ifndef ECL_ERRORS_HANDLERS_HPP_
#define ECL_ERRORS_HANDLERS_HPP_
#include "macros.hpp"
namespace ecl {
enum ErrorFlag {
  NoError, UnknownError, OutOfRangeError, ConstructorError, DestructorError, ConversionError,
  BlockingError, BusyError, CloseError, ConfigurationError, ConnectionError, ConnectionRefusedError,
  InterruptedError, InvalidArgError, InvalidInputError, InvalidObjectError, IsLockedError, MemoryError,
  NotFoundError, NotInitialisedError, NotSupportedError, OpenError, OutOfResourcesError, PermissionsError,
  PosixError, RaiiError, ReadError, SystemFailureError, TimeOutError, UsageError, WriteError,
  ArgNotSupportedError, LastErrorFlag_
};
class Error {
public:
  Error(const ErrorFlag& flag = UnknownError) : error_flag(flag) {}
  virtual ~Error() {}
  Error(const Error&) = default;
  Error& operator=(const Error&) = default;
  ErrorFlag flag() const { return error_flag; }
  virtual const char* what() const {
    static const char* names[] = {
      "NoError","UnknownError","OutOfRangeError","ConstructorError","DestructorError","ConversionError",
      "BlockingError","BusyError","CloseError","ConfigurationError","ConnectionError","ConnectionRefusedError",
      "InterruptedError","InvalidArgError","InvalidInputError","InvalidObjectError","IsLockedError","MemoryError",
      "NotFoundError","NotInitialisedError","NotSupportedError","OpenError","OutOfResourcesError","PermissionsError",
      "PosixError","RaiiError","ReadError","SystemFailureError","TimeOutError","UsageError","WriteError","ArgNotSupportedError"};
    return (error_flag >= 0 && error_flag < LastErrorFlag_) ? names[error_flag] : "?";
  }
  bool operator==(const Error& o) const { return error_flag == o.error_flag; }
  bool operator!=(const Error& o) const { return error_flag != o.error_flag; }
protected:
  ErrorFlag error_flag;
};
}
#endif
