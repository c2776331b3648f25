# cython: language_level=3
"""Reference BLAS whose every access is instrumented, and a numpy allocator
whose blocks come straight from malloc (exact bounds, no small-block cache) and
are filled with a byte that the harness chooses."""
from thinc.backends.cblas cimport CBlas, set_daxpy, set_dgemm, set_dscal, set_saxpy, set_sgemm, set_sscal
from thinc.backends.numpy_ops import NumpyOps


cdef extern from "checked.hh":
    void checked_sgemm(bint tA, bint tB, int M, int N, int K, float alpha, const float* A, int lda, const float* B, int ldb, float beta, float* C, int ldc) nogil
    void checked_dgemm(bint tA, bint tB, int M, int N, int K, double alpha, const double* A, int lda, const double* B, int ldb, double beta, double* C, int ldc) nogil
    void checked_saxpy(int N, float alpha, const float* X, int incX, float* Y, int incY) nogil
    void checked_daxpy(int N, double alpha, const double* X, int incX, double* Y, int incY) nogil
    void checked_sscal(int N, float alpha, float* X, int incX) nogil
    void checked_dscal(int N, double alpha, double* X, int incX) nogil
    object install_allocator()
    void set_fill_byte(int b)
    long alloc_count()
    int planted(int n)


cdef CBlas make():
    cdef CBlas c = CBlas()
    set_sgemm(c, checked_sgemm)
    set_dgemm(c, checked_dgemm)
    set_saxpy(c, checked_saxpy)
    set_daxpy(c, checked_daxpy)
    set_sscal(c, checked_sscal)
    set_dscal(c, checked_dscal)
    return c


class CheckedOps(NumpyOps):
    name = "numpy"

    def cblas(self):
        return make()


def install():
    install_allocator()


def fill(int b):
    set_fill_byte(b)


def allocations():
    return alloc_count()


def overflow(int n):
    """A planted overflow: shows that the sanitizer is awake."""
    return planted(n)
