#ifndef ECL_ERRORS_HPP_
#define ECL_ERRORS_HPP_
#include "errors/macros.hpp"
#include "errors/compile_time_assert.hpp"
#include "errors/handlers.hpp"
#endif
