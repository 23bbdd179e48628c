#pragma once
/* Declarations used for analysing the sources without an installed BLAS. */
typedef enum {CblasRowMajor=101, CblasColMajor=102} CBLAS_ORDER;
typedef enum {CblasNoTrans=111, CblasTrans=112, CblasConjTrans=113, CblasConjNoTrans=114} CBLAS_TRANSPOSE;
#define CBLAS_G(T) void cblas_##T##gemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, long m, long n, long k, const void *alpha, const void *a, long lda, const void *b, long ldb, const void *beta, void *c, long ldc);
CBLAS_G(z) CBLAS_G(c)
void cblas_dgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, long m, long n, long k, double alpha, const double *a, long lda, const double *b, long ldb, double beta, double *c, long ldc);
void cblas_daxpy(long n, double alpha, const double *x, long incx, double *y, long incy);
void cblas_zaxpy(long n, const void *alpha, const void *x, long incx, void *y, long incy);
void cblas_dcopy(long n, const double *x, long incx, double *y, long incy);
void cblas_zcopy(long n, const void *x, long incx, void *y, long incy);
void cblas_dscal(long n, double alpha, double *x, long incx);
void cblas_zscal(long n, const void *alpha, void *x, long incx);
