#ifndef FAKE_PYTHON_H
#define FAKE_PYTHON_H
typedef unsigned long size_t;
typedef long ssize_t;
typedef long intptr_t;
typedef unsigned long uintptr_t;
typedef struct _FILE FILE;
typedef int va_list;
extern FILE *stdout;
extern FILE *stderr;
int printf(const char *f, ...);
int fprintf(FILE *o, const char *f, ...);
int vprintf(const char *f, va_list a);
int sprintf(char *s, const char *f, ...);
int snprintf(char *s, size_t n, const char *f, ...);
int fflush(FILE *f);
void *malloc(size_t n);
void *calloc(size_t n, size_t m);
void *realloc(void *p, size_t n);
void free(void *p);
void *memcpy(void *d, const void *s, size_t n);
void *memmove(void *d, const void *s, size_t n);
void *memset(void *d, int c, size_t n);
int memcmp(const void *d, const void *s, size_t n);
int strcmp(const char *a, const char *b);
size_t strlen(const char *a);
double fabs(double x); double sqrt(double x); double pow(double x, double y);
double exp(double x); double log(double x); double sin(double x);
double cos(double x); double tan(double x); double acos(double x);
double asin(double x); double atan(double x); double atan2(double x, double y);
double floor(double x); double ceil(double x); double fmod(double x, double y);
double fmin(double x, double y); double fmax(double x, double y);
double cbrt(double x); double round(double x);
int abs(int x);
void exit(int c);
void qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *));
void assert(int x);
typedef struct _PyObject PyObject;
extern PyObject *PyExc_RuntimeError;
extern PyObject *PyExc_ValueError;
void PyErr_SetString(PyObject *e, const char *m);
int PyErr_Occurred(void);
void PyErr_Print(void);
void PyErr_Clear(void);
void *PyMem_Malloc(size_t n);
void *PyMem_Realloc(void *p, size_t n);
void PyMem_Free(void *p);
void va_start(va_list a, ...);
void va_end(va_list a);
typedef long npy_intp;
#define INFINITY (1.0/0.0)
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define NULL ((void *) 0)
#define EXIT_SUCCESS 0
#define RAND_MAX 2147483647
#define __restrict
#define inline
#endif
