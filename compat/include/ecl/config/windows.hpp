#ifndef ECL_CONFIG_WINDOWS_HPP_
#define ECL_CONFIG_WINDOWS_HPP_
#endif
