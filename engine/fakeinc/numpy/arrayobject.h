#ifndef FAKE_NPY
#define FAKE_NPY
typedef short npy_int16; typedef unsigned short npy_uint16;
typedef int npy_int32; typedef unsigned int npy_uint32;
typedef long npy_int64; typedef unsigned long npy_uint64;
typedef float npy_float32; typedef double npy_float64;
#define NPY_INT32_FMT "d"
#define NPY_FLOAT64_FMT "g"
#endif
