#pragma once
#include <stdint.h>
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t;
enum { H5F_ACC_RDONLY, H5P_DEFAULT = 0, H5S_SELECT_SET = 0, H5T_NATIVE_DOUBLE = 1, H5S_ALL = 0 };
hid_t H5Fopen(const char*, unsigned, hid_t); hid_t H5Gopen(hid_t, const char*, hid_t); hid_t H5Dopen(hid_t, const char*, hid_t);
hid_t H5Dget_space(hid_t); hid_t H5Screate_simple(int, const hsize_t*, const hsize_t*);
herr_t H5Sselect_hyperslab(hid_t, int, const hsize_t*, const hsize_t*, const hsize_t*, const hsize_t*);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*); herr_t H5Sselect_none(hid_t);
herr_t H5Sclose(hid_t); herr_t H5Dclose(hid_t); herr_t H5Gclose(hid_t); herr_t H5Fclose(hid_t);
