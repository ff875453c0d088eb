/* build configuration of the simulation build (what ./configure finds on Linux) */
#ifndef SIM_CONFIG_H
#define SIM_CONFIG_H
#define HAVE_CLOCK_GETTIME 1
#define HAVE_ENDIAN_H 1
#define HAVE_DECL_STRPTIME 1
#define PACKAGE_VERSION "sim"
#endif
