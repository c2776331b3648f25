#pragma once
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>

template <class T>
static void gemm_(bool tA, bool tB, int M, int N, int K, T alpha, const T* A, int lda, const T* B, int ldb, T beta, T* C, int ldc) {
    for (int i = 0; i < M; i++)
        for (int j = 0; j < N; j++) {
            T s = 0;
            for (int k = 0; k < K; k++)
                s += (tA ? A[(size_t)k * lda + i] : A[(size_t)i * lda + k]) * (tB ? B[(size_t)j * ldb + k] : B[(size_t)k * ldb + j]);
            T* c = &C[(size_t)i * ldc + j];
            *c = (beta == 0 ? 0 : beta * *c) + alpha * s;
        }
}
template <class T> static void axpy_(int N, T a, const T* X, int ix, T* Y, int iy) {
    for (int i = 0; i < N; i++) Y[(long)i * iy] += a * X[(long)i * ix];
}
template <class T> static void scal_(int N, T a, T* X, int ix) {
    for (int i = 0; i < N; i++) X[(long)i * ix] *= a;
}
static void checked_sgemm(int tA, int tB, int M, int N, int K, float al, const float* A, int lda, const float* B, int ldb, float be, float* C, int ldc) { gemm_<float>(tA, tB, M, N, K, al, A, lda, B, ldb, be, C, ldc); }
static void checked_dgemm(int tA, int tB, int M, int N, int K, double al, const double* A, int lda, const double* B, int ldb, double be, double* C, int ldc) { gemm_<double>(tA, tB, M, N, K, al, A, lda, B, ldb, be, C, ldc); }
static void checked_saxpy(int N, float a, const float* X, int ix, float* Y, int iy) { axpy_<float>(N, a, X, ix, Y, iy); }
static void checked_daxpy(int N, double a, const double* X, int ix, double* Y, int iy) { axpy_<double>(N, a, X, ix, Y, iy); }
static void checked_sscal(int N, float a, float* X, int ix) { scal_<float>(N, a, X, ix); }
static void checked_dscal(int N, double a, double* X, int ix) { scal_<double>(N, a, X, ix); }

static std::atomic<int> fill_byte_{0};
static std::atomic<long> allocs_{0};
static void set_fill_byte(int b) { fill_byte_ = b; }
static long alloc_count() { return allocs_; }
static void* a_malloc(void*, size_t n) {
    allocs_++;
    void* p = malloc(n ? n : 1);
    if (p) memset(p, fill_byte_, n);
    return p;
}
static void* a_calloc(void*, size_t n, size_t s) { allocs_++; return calloc(n ? n : 1, s ? s : 1); }
static void* a_realloc(void*, void* p, size_t n) { return realloc(p, n ? n : 1); }
static void a_free(void*, void* p, size_t) { free(p); }
static PyDataMem_Handler handler_ = {"exact", 1, {NULL, a_malloc, a_calloc, a_realloc, a_free}};

static PyObject* install_allocator() {
    if (_import_array() < 0) return NULL;
    PyObject* cap = PyCapsule_New(&handler_, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject* old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}
static int planted(int n) {
    volatile int* p = (int*)malloc(n * sizeof(int));
    for (int i = 0; i < n; i++) p[i] = 0;
    int r = p[n];
    free((void*)p);
    return r;
}
