#ifndef MKL_STUB_H
#define MKL_STUB_H
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
extern "C" int LAPACKE_dstev(int, char, int, double *, double *, double *, int);
#endif
