/* stand-in for the autotools config.h: the options build.sh configures */
#define CONFIG_ACCELERATORS 1
#define CONFIG_COMPAT 1
#define CONFIG_EXT_PRECISION 1
#define CONFIG_SPARSE 1
#define HAVE_FLOAT_H 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBM 1
#define HAVE_MALLOC 1
#define HAVE_MATH_H 1
#define HAVE_PTHREAD_H 1
#define HAVE_SQRT 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define PACKAGE "armas"
#define PACKAGE_BUGREPORT "none"
#define PACKAGE_NAME "Another Rewrite of Matrix Algebra Subroutines"
#define PACKAGE_STRING "Another Rewrite of Matrix Algebra Subroutines verif"
#define PACKAGE_TARNAME "armas"
#define PACKAGE_URL "https://github.com/hrautila/armas"
#define PACKAGE_VERSION "verif"
#define STDC_HEADERS 1
#define VERSION "verif"
#ifndef __cplusplus
#define restrict __restrict__
#endif
