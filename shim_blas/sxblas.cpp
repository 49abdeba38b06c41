// The two CBLAS routines the library uses, from the definition of the interface (symbolic execution only; replays use the installed ATLAS).
extern "C" {
#include <cblas.h>
}
#include "sx.h"
static int most(int a, int b) { return a > b ? a : b; }
extern "C" void cblas_sgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int M, int N, int K, float alpha, const float* A, int lda, const float* B, int ldb, float beta, float* C, int ldc) {
  bool r = o == CblasRowMajor, a = ta != CblasNoTrans, b = tb != CblasNoTrans; // stored rows (row-major) or columns (column-major) have lda elements
  sx_assert((M >= 0) & (N >= 0) & (K >= 0) & (lda >= most(1, a == r ? M : K)) & (ldb >= most(1, b == r ? K : N)) & (ldc >= most(1, r ? N : M)), "the matrix product is called within the BLAS contract");
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { float s = 0; for (int k = 0; k < K; k++) s += A[a == r ? k * lda + i : i * lda + k] * B[b == r ? j * ldb + k : k * ldb + j]; float* c = C + (r ? i * ldc + j : j * ldc + i); *c = beta == 0 ? alpha * s : beta * *c + alpha * s; }
}
extern "C" void cblas_sgemv(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, int M, int N, float alpha, const float* A, int lda, const float* X, int incX, float beta, float* Y, int incY) {
  bool r = o == CblasRowMajor, t = ta != CblasNoTrans; int n = t ? N : M, m = t ? M : N; // A is stored as M x N
  sx_assert((M >= 0) & (N >= 0) & (incX != 0) & (incY != 0) & (lda >= most(1, r ? N : M)), "the matrix-vector product is called within the BLAS contract");
  if (incX < 0) X -= (long)(m - 1) * incX; if (incY < 0) Y -= (long)(n - 1) * incY;
  for (int i = 0; i < n; i++) { float s = 0; for (int j = 0; j < m; j++) { int p = t ? j : i, q = t ? i : j; s += A[r ? p * lda + q : q * lda + p] * X[j * incX]; } float* y = Y + (long)i * incY; *y = beta == 0 ? alpha * s : beta * *y + alpha * s; }
}
