#ifndef FAKE_FLOAT
#define FAKE_FLOAT
#include "Python.h"
#define FLT_MAX 3.402823466e+38
#define FLT_MIN 1.175494351e-38
#define FLT_EPSILON 1.192092896e-07
#define DBL_MAX 1.7976931348623157e+308
#define DBL_MIN 2.2250738585072014e-308
#define DBL_EPSILON 2.220446049250313e-16
#endif
