#pragma once
#include <cstddef>
typedef long hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef int htri_t;
enum H5T_class_t { H5T_NO_CLASS = -1, H5T_COMPOUND = 6 }; enum H5S_seloper_t { H5S_SELECT_SET = 0 };
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_TRUNC 2u
#define H5T_VARIABLE ((size_t)-1)
#define HOFFSET(S,M) (offsetof(S,M))
extern hid_t H5T_C_S1, H5T_FORTRAN_S1, H5T_NATIVE_DOUBLE, H5T_NATIVE_FLOAT, H5T_NATIVE_INT, H5T_NATIVE_UINT, H5T_NATIVE_LONG, H5T_NATIVE_ULONG, H5T_NATIVE_CHAR;
extern "C" {
herr_t H5Dclose(hid_t); hid_t H5Dcreate2(hid_t,const char*,hid_t,hid_t,hid_t,hid_t,hid_t); hid_t H5Dget_space(hid_t); hid_t H5Dget_type(hid_t);
hid_t H5Dopen2(hid_t,const char*,hid_t); herr_t H5Dread(hid_t,hid_t,hid_t,hid_t,hid_t,void*); herr_t H5Dwrite(hid_t,hid_t,hid_t,hid_t,hid_t,const void*);
herr_t H5Fclose(hid_t); hid_t H5Fcreate(const char*,unsigned,hid_t,hid_t); hid_t H5Fopen(const char*,unsigned,hid_t);
herr_t H5Gclose(hid_t); hid_t H5Gcreate2(hid_t,const char*,hid_t,hid_t,hid_t); hid_t H5Gopen2(hid_t,const char*,hid_t); htri_t H5Lexists(hid_t,const char*,hid_t);
herr_t H5Sclose(hid_t); hid_t H5Screate_simple(int,const hsize_t*,const hsize_t*); int H5Sget_simple_extent_dims(hid_t,hsize_t*,hsize_t*); int H5Sget_simple_extent_ndims(hid_t);
herr_t H5Sselect_hyperslab(hid_t,H5S_seloper_t,const hsize_t*,const hsize_t*,const hsize_t*,const hsize_t*);
hid_t H5Tarray_create2(hid_t,unsigned,const hsize_t*); herr_t H5Tclose(hid_t); hid_t H5Tcopy(hid_t); hid_t H5Tcreate(H5T_class_t,size_t); htri_t H5Tequal(hid_t,hid_t);
herr_t H5Tinsert(hid_t,const char*,size_t,hid_t); herr_t H5Tset_size(hid_t,size_t);
}
