#ifndef ECL_CONFIG_HPP_
#define ECL_CONFIG_HPP_
#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
namespace ecl { inline bool is_big_endian() { return false; } }
#endif
