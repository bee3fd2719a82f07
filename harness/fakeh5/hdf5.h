// Simulated parallel HDF5: files live in memory, every rank is a fiber of the simulated MPI (fake/mpi.h).
// Calls that parallel HDF5 requires to be collective have to be made by all ranks of the file's communicator with the
// same arguments; a rank that stays away shows up as a deadlock, different arguments as a mismatch.
#ifndef VERIF_FAKE_HDF5_H
#define VERIF_FAKE_HDF5_H
#include <cstddef>
#include <cstdint>
#include <mpi.h>
#define H5_HAVE_PARALLEL 1
#define H5_VERS_MAJOR 1
#define H5_VERS_MINOR 10
#define H5_VERS_RELEASE 10
#define H5Dopen_vers 2
#define H5Dcreate_vers 2
#define H5Acreate_vers 2
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef long long hssize_t; typedef int htri_t; typedef unsigned hbool_t;
enum H5S_seloper_t { H5S_SELECT_SET = 0 }; enum H5FD_mpio_xfer_t { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE = 1 };
enum H5F_scope_t { H5F_SCOPE_LOCAL, H5F_SCOPE_GLOBAL };
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5P_FILE_ACCESS ((hid_t)1001)
#define H5P_DATASET_XFER ((hid_t)1002)
#define H5P_DATASET_CREATE ((hid_t)1003)
#define H5P_FILE_CREATE ((hid_t)1004)
#define H5T_NATIVE_INT ((hid_t)2001)
#define H5T_NATIVE_FLOAT ((hid_t)2002)
#define H5T_NATIVE_DOUBLE ((hid_t)2003)
#define H5S_UNLIMITED ((hsize_t)-1)
hid_t H5Pcreate(hid_t cls); herr_t H5Pclose(hid_t); herr_t H5Pset_sieve_buf_size(hid_t, size_t); herr_t H5Pset_alignment(hid_t, hsize_t, hsize_t); herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info); herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t); herr_t H5Pset_coll_metadata_write(hid_t, hbool_t); herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t);
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t); hid_t H5Fopen(const char *, unsigned, hid_t); herr_t H5Fclose(hid_t); herr_t H5Fflush(hid_t, H5F_scope_t);
hid_t H5Dcreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t); hid_t H5Dopen2(hid_t, const char *, hid_t); herr_t H5Dclose(hid_t); hid_t H5Dget_space(hid_t); herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *); herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *); herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *); herr_t H5Sselect_none(hid_t); herr_t H5Sselect_all(hid_t); herr_t H5Sclose(hid_t); int H5Sget_simple_extent_ndims(hid_t); int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
hid_t H5Acreate2(hid_t, const char *, hid_t, hid_t, hid_t, hid_t); herr_t H5Awrite(hid_t, hid_t, const void *); herr_t H5Aclose(hid_t); htri_t H5Aexists(hid_t, const char *); htri_t H5Lexists(hid_t, const char *, hid_t); herr_t H5open(); herr_t H5close();
#define H5Dopen H5Dopen2
#define H5Dcreate H5Dcreate2
#define H5Acreate H5Acreate2
#endif
