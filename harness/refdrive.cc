// The reference programs (src/reference) as callables.  REF_MAIN is the program's own text in which the values of the
// block "UPDATE ALL THE FOLLOWING VALUES" are replaced by calls of gals_set_*, and kernel launches by gals_launch.
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <tuple>
#include <vector>
extern "C" {
double gals_set_xlim1(); double gals_set_xlim2(); double gals_set_ylim1(); double gals_set_ylim2();
double gals_set_dt(); double gals_set_Tfinal(); double gals_set_T_period();
unsigned gals_set_nx(); unsigned gals_set_ny(); unsigned gals_set_option(); unsigned gals_set_printstep(); unsigned gals_set_TileSize();
void gals_copied(const void*, const void*, unsigned long);
void gals_grid(unsigned, unsigned, unsigned, unsigned, unsigned, unsigned);
}
#if defined(REF_CUDA)
#define __global__
#define __device__
#define __host__
#define __shared__ static
struct dim3 { unsigned int x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} dim3(const dim3& o) : x(o.x), y(o.y), z(o.z) {} };
extern dim3 blockIdx, threadIdx, blockDim, gridDim;
static inline void __syncthreads() {}
typedef int cudaError_t;
typedef int* cudaEvent_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum { cudaSuccess = 0 };
template <typename T> static inline int cudaMalloc(T** p, unsigned long n) { *p = (T*)malloc(n); return 0; }
static inline int cudaFree(void* p) { return 0; }
static inline int cudaMemcpy(void* d, const void* s, unsigned long n, cudaMemcpyKind)
{
  gals_copied(d, s, n);
  for (unsigned long i = 0; i < n / sizeof(double); ++i) ((double*)d)[i] = ((const double*)s)[i];
  return 0;
}
static inline int cudaMemset(void* d, int v, unsigned long n) { memset(d, v, n); return 0; }
static inline int cudaDeviceSynchronize() { return 0; }
static inline int cudaThreadSynchronize() { return 0; }
static inline int cudaGetLastError() { return 0; }
static inline int cudaEventCreate(cudaEvent_t*) { return 0; }
static inline int cudaEventDestroy(cudaEvent_t) { return 0; }
static inline int cudaEventRecord(cudaEvent_t, int = 0) { return 0; }
static inline int cudaEventSynchronize(cudaEvent_t) { return 0; }
static inline int cudaEventElapsedTime(float* t, cudaEvent_t, cudaEvent_t) { *t = 0; return 0; }
static inline void gals_launch(const dim3& g, const dim3& b, unsigned long = 0, int = 0) { gals_grid(g.x, g.y, g.z, b.x, b.y, b.z); }
#endif
#define main ref_main
#include REF_MAIN
#undef main
extern "C" {
#if defined(REF_OMP)
int d_main(int argc, char** argv) { return ref_main(argc, argv); }
#else
int d_main(int, char**) { return ref_main(); }
#endif
typedef std::vector<std::vector<double>> gridv;
typedef std::vector<std::vector<unsigned int>> intv;
double* d_e(gridv* g, unsigned i, unsigned j) { return &(*g)[i][j]; }
unsigned* d_u(intv* g, unsigned i, unsigned j) { return &(*g)[i][j]; }
double* d_x(std::vector<double>* g, unsigned i) { return &(*g)[i]; }
unsigned long d_rows(gridv* g) { return g->size(); }
unsigned long d_cols(gridv* g, unsigned i) { return (*g)[i].size(); }
unsigned long d_urows(intv* g) { return g->size(); }
unsigned long d_ucols(intv* g, unsigned i) { return (*g)[i].size(); }
unsigned long d_len(std::vector<double>* g) { return g->size(); }
#if defined(REF_CUDA)
// what the initialisation kernel does, one thread per node (C32)
void d_init(double* f, double* fx, double* fy, double* fxy, double* x, double* y, unsigned nx, unsigned ny) { allocate_levelset_matrices(f, fx, fy, fxy, x, y, nx, ny); }
#endif
void d_copy(double* d, const double* s, unsigned n) { for (unsigned i = 0; i < n; ++i) d[i] = s[i]; }
}
