#ifndef CALIPER_CONFIG_H
#define CALIPER_CONFIG_H

#define CALIPER_HAVE_OMPT 
#define CALIPER_HAVE_MPI
/* #undef CALIPER_HAVE_MPIT */
#define CALIPER_HAVE_LIBUNWIND
/* #undef CALIPER_HAVE_LIBCURL */
/* #undef CALIPER_HAVE_PAPI */
/* #undef CALIPER_HAVE_LIBPFM */
#define CALIPER_HAVE_SAMPLER
/* #undef CALIPER_HAVE_NVTX */
/* #undef CALIPER_HAVE_TAU */
/* #undef CALIPER_HAVE_VTUNE */
#define CALIPER_HAVE_GOTCHA
/* #undef CALIPER_HAVE_SOS */
/* #undef CALIPER_HAVE_CUPTI */
#define CALIPER_HAVE_LIBDW
/* #undef CALIPER_HAVE_VTUNE */
/* #undef CALIPER_HAVE_ADIAK */
/* #undef CALIPER_HAVE_PCP */
/* #undef CALIPER_HAVE_VARIORUM */
/* #undef CALIPER_HAVE_ROCTX */
/* #undef CALIPER_HAVE_ROCTRACER */
/* #undef CALIPER_HAVE_ROCPROFILER */
/* #undef CALIPER_HAVE_UMPIRE */
/* #undef CALIPER_HAVE_CRAYPAT */
/* #undef CALIPER_HAVE_LDMS */
#define CALIPER_HAVE_KOKKOS
/* #undef CALIPER_HAVE_ARCH */
#ifdef CALIPER_HAVE_PAPI
/* #undef CALIPER_WITH_PAPI_RDPMC */
#endif

#define CALIPER_MPIWRAP_USE_GOTCHA

/* #undef CALIPER_ENABLE_HISTOGRAMS */

#define CALIPER_BUILD_TESTING

// Version information -- numerical and a version string
#define CALIPER_MAJOR_VERSION 2
#define CALIPER_MINOR_VERSION 15
#define CALIPER_PATCH_VERSION 0
#define CALIPER_VERSION       "2.15.0-dev"

/* #undef TEST_USE_OMP */

#endif // CALIPER_CONFIG_H
