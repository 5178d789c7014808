#ifndef ECL_ERRORS_COMPILE_TIME_ASSERT_HPP_
#define ECL_ERRORS_COMPILE_TIME_ASSERT_HPP_
#include "macros.hpp"
namespace ecl { namespace errors {
template <bool> class CompileTimeAssert;
template <> class CompileTimeAssert<true> {};
template <int x> struct CompileTimeAssertTest {};
}}
#define ecl_compile_time_assert(expr) static_assert((expr), "ecl_compile_time_assert")
#endif
