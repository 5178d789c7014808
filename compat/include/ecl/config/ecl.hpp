/* Stand-in for ecl_config's generated header: the platform facts of this sandbox. */
#ifndef ECL_CONFIG_ECL_HPP_
#define ECL_CONFIG_ECL_HPP_
#define ECL_IS_POSIX
#define ECL_HAS_POSIX_THREADS
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_CHAR_IS_SIGNED
#include <unistd.h>
#endif
