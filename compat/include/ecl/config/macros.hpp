#ifndef ECL_CONFIG_MACROS_HPP_
#define ECL_CONFIG_MACROS_HPP_
#define ECL_HELPER_IMPORT __attribute__ ((visibility("default")))
#define ECL_HELPER_EXPORT __attribute__ ((visibility("default")))
#define ECL_HELPER_LOCAL  __attribute__ ((visibility("hidden")))
#define ECL_HELPERS_LOCAL ECL_HELPER_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_DONT_INLINE __attribute__((noinline))
#define ECL_UNUSED __attribute__((unused))
#ifndef ECL_CXX11_FOUND
#define ECL_CXX11_FOUND 1
#endif
#endif
