#ifndef VERIF_CONFIG_HPP
#define VERIF_CONFIG_HPP
/* stands in for the configured src/config.hpp; the features are chosen per harness with -DVERIF_... */
#ifdef VERIF_MPI
#define SCHNEK_HAVE_MPI
#endif
#ifdef VERIF_HDF5
#define SCHNEK_HAVE_HDF5
#endif
#ifdef VERIF_HDF_PARALLEL
#define SCHNEK_USE_HDF_PARALLEL
#endif
#ifdef VERIF_KOKKOS
#define SCHNEK_HAVE_KOKKOS
#endif
#define SCHNEK_VERSION 1.2.0
#define OMPI_SKIP_MPICXX
#endif
