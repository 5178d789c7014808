#ifndef ECL_ERRORS_MACROS_HPP_
#define ECL_ERRORS_MACROS_HPP_
#include <ecl/config/macros.hpp>
#define ecl_errors_PUBLIC
#define ecl_errors_LOCAL
#define ECL_STR(s) #s
#define ECL_XSTR(s) ECL_STR(s)
#define LOC __FILE__ ":" ECL_XSTR(__LINE__)
#endif
