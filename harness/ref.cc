// Probes of the reference solvers (src/reference): the whole program is included, its main renamed, so that every
// header it uses is the one it would be built with.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <tuple>
#include <vector>
#if defined(REF_CUDA)
#define __global__
#define __device__
#define __host__
#define __shared__ static
struct gals_dim { unsigned int x, y, z; };
extern gals_dim blockIdx, threadIdx, blockDim, gridDim;

static inline void __syncthreads() {}
#include "Allocation.h"
#include "AdvectionPointCalcsCUDA.cu"
#include "VortexVelocityCUDA.cu"
#elif defined(REF_OLD)
#define main ref_main
#include "GALS_Advection.cpp"
#undef main
#elif defined(REF_SERIAL)
#define main ref_main
#include "GALS_Advection.cpp"
#undef main
using namespace galsfunctions;
#elif defined(REF_OMP)
#define main ref_main
#include "GALS_Advection_OpenMP.cpp"
#undef main
using namespace galsfunctions;
#endif

extern "C" {
#if !defined(REF_OLD)
double r_hx(double x, double y, double px, double py, double pxy, double old, unsigned t, double dt, double T) { return Heuns_X(x, y, px, py, pxy, old, t, dt, T); }
double r_hy(double x, double y, double px, double py, double pxy, double old, unsigned t, double dt, double T) { return Heuns_Y(x, y, px, py, pxy, old, t, dt, T); }
#endif
double r_hp(double* f, double* fx, double* fy, double* fxy, double x, double y, double a, double b, double dx, double dy) { return hp(f, fx, fy, fxy, x, y, a, b, dx, dy); }
double r_hermx(double* f, double* fx, double* fy, double* fxy, double x, double y, double a, double b, double dx, double dy) { return hermx(f, fx, fy, fxy, x, y, a, b, dx, dy); }
double r_hermy(double* f, double* fx, double* fy, double* fxy, double x, double y, double a, double b, double dx, double dy) { return hermy(f, fx, fy, fxy, x, y, a, b, dx, dy); }
double r_u(double x, double y, double t, double T) { return Velx(x, y, t, T); }
double r_v(double x, double y, double t, double T) { return Vely(x, y, t, T); }
double r_ux(double x, double y, double t, double T) { return gradUx(x, y, t, T); }
double r_uy(double x, double y, double t, double T) { return gradUy(x, y, t, T); }
double r_vx(double x, double y, double t, double T) { return gradVx(x, y, t, T); }
double r_vy(double x, double y, double t, double T) { return gradVy(x, y, t, T); }
double r_phi(double x, double y) { return initialize(x, y); }
double r_phix(double x, double y) { return derivxinit(x, y); }
double r_phiy(double x, double y) { return derivyinit(x, y); }
double r_phixy(double x, double y) { return derivxyinit(x, y); }

#if defined(REF_CUDA)
void r_sc(double x, double y, double px, double py, unsigned t, double dt, double T, double* out)
{
  char* rk = (char*)"RK3";
  SuperConsistentScheme(x, y, px, py, t, dt, T, rk, out, out + 1, 0);
}
void r_heun(double x, double y, double xa, double ya, double px, double py, unsigned t, double dt, double T, double* out) { Heuns_internal(x, y, xa, ya, px, py, t, dt, T, out, out + 1, 0); }
void k_find(double* x, double* y, double* xa, double* ya, unsigned nx, unsigned ny, unsigned* cx, unsigned* cy, unsigned* tr, double x1, double x2, double y1, double y2, unsigned tile)
{
  find_advection_point_location_cuda(x, y, xa, ya, nx, ny, cx, cy, tr, x1, x2, y1, y2, tile);
}
void k_init(double* f, double* fx, double* fy, double* fxy, double* x, double* y, unsigned nx, unsigned ny) { allocate_levelset_matrices_CUDA(f, fx, fy, fxy, x, y, nx, ny); }
void h_init(double* f, double* fx, double* fy, double* fxy, double* x, double* y, unsigned nx, unsigned ny) { allocate_levelset_matrices(f, fx, fy, fxy, x, y, nx, ny); }
void h_vel(double* u, double* v, double* x, double* y, unsigned nx, unsigned ny, double t, double T) { allocate_levelset_velocity(u, v, nx, ny, x, y, t, T); }
void h_nodes(double* x, double* y, double x1, double y1, double dx, double dy, unsigned nx, unsigned ny) { gridnodes(x, y, x1, y1, dx, dy, nx, ny); }
void k_foot(double* x, double* y, double* xa, double* ya, unsigned nx, unsigned t, double dt, double T, unsigned tile) { advection_point_cuda(x, y, xa, ya, nx, t, dt, T, tile); }
void k_mixed(double* fx, double* fy, double* fxy, unsigned nx, unsigned ny, double dx, double dy, unsigned tile) { update_mixed_derivatives(fx, fy, fxy, nx, ny, dx, dy, tile); }
void k_copy(double* f, double* fx, double* fy, double* mf, double* mfx, double* mfy, unsigned nx, unsigned tile) { devicetodevicecopy(f, fx, fy, mf, mfx, mfy, nx, tile); }
void k_update(double* x, double* y, double* xa, double* ya, unsigned* cx, unsigned* cy, unsigned* tr, unsigned t, double dt, double* f, double* fx, double* fy, double* fxy,
              double* mf, double* mfx, double* mfy, double T, unsigned nx, unsigned ny, unsigned tile)
{
  char *rk = (char*)"RK3", *sc = (char*)"SuperConsistent";
  update_levelset_data_cuda(x, y, xa, ya, cx, cy, tr, t, dt, f, fx, fy, fxy, mf, mfx, mfy, sc, rk, T, nx, ny, tile);
}
#elif !defined(REF_OLD)
void r_sc(double x, double y, double px, double py, unsigned t, double dt, double T, double* out)
{
  char* rk = (char*)"RK3";
  std::tie(out[0], out[1]) = SuperConsistentScheme(x, y, px, py, t, dt, T, rk);
}
void r_sce(double x, double y, double px, double py, unsigned t, double dt, double T, double* out)
{
  char* eu = (char*)"Euler";
  std::tie(out[0], out[1]) = SuperConsistentScheme(x, y, px, py, t, dt, T, eu);
}
void r_heun(double x, double y, double xa, double ya, double px, double py, unsigned t, double dt, double T, double* out) { std::tie(out[0], out[1]) = Heuns_internal(x, y, xa, ya, px, py, t, dt, T); }
void g_vec(vectorarray* x) { ::new (x) vectorarray(); }
void g_grid(gridarray* g, unsigned nx, unsigned ny) { ::new (g) gridarray(); g->resize(ny, vectorarray(nx, 0.0)); }
void g_empty(gridarray* g) { ::new (g) gridarray(); }
void g_igrid(intgridarray* g, unsigned nx, unsigned ny) { ::new (g) intgridarray(); g->resize(ny, intvectorarray(nx, 0)); }
double* g_at(gridarray* g, unsigned i, unsigned j) { return &(*g)[i][j]; }
unsigned* g_iat(intgridarray* g, unsigned i, unsigned j) { return &(*g)[i][j]; }
double* g_v(vectorarray* x, unsigned i) { return &(*x)[i]; }
unsigned long g_size(vectorarray* x) { return x->size(); }
void g_nodes(vectorarray* x, vectorarray* y, double x1, double y1, double dx, double dy, unsigned nx, unsigned ny) { gridnodes(*x, *y, x1, y1, dx, dy, nx, ny); }
void g_init(gridarray* f, gridarray* fx, gridarray* fy, gridarray* fxy, vectorarray* x, vectorarray* y, unsigned nx, unsigned ny) { allocate_levelset_matrices(*f, *fx, *fy, *fxy, *x, *y, nx, ny); }
void g_vel(gridarray* u, gridarray* v, vectorarray* x, vectorarray* y, unsigned nx, unsigned ny, double t, double T) { allocate_levelset_velocity(*u, *v, nx, ny, *x, *y, t, T); }
void g_foot_rk(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, unsigned t, double dt, double T) { char* s = (char*)"RK3"; advection_point(*x, *y, *xa, *ya, t, dt, T, s); }
void g_foot_eu(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, unsigned t, double dt, double T) { char* s = (char*)"Euler"; advection_point(*x, *y, *xa, *ya, t, dt, T, s); }
void g_footp_rk(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, unsigned t, double dt, double T, unsigned lo, unsigned hi) { char* s = (char*)"RK3"; advection_point_MPI(*x, *y, *xa, *ya, t, dt, T, lo, hi, s); }
void g_footp_eu(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, unsigned t, double dt, double T, unsigned lo, unsigned hi) { char* s = (char*)"Euler"; advection_point_MPI(*x, *y, *xa, *ya, t, dt, T, lo, hi, s); }
void g_mixed(gridarray* fx, gridarray* fy, gridarray* fxy, unsigned nx, unsigned ny, double dx, double dy) { update_mixed_derivatives(*fx, *fy, *fxy, nx, ny, dx, dy); }
void g_mixedp(gridarray* fx, gridarray* fy, gridarray* fxy, unsigned nx, unsigned ny, double dx, double dy, unsigned lo, unsigned hi) { update_mixed_derivatives_mpi(*fx, *fy, *fxy, nx, ny, dx, dy, lo, hi); }
void g_find(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, intgridarray* cx, intgridarray* cy, intgridarray* tr, double x1, double x2, double y1, double y2) { find_advection_point_location(*x, *y, *xa, *ya, *cx, *cy, *tr, x1, x2, y1, y2); }
void g_findp(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, intgridarray* cx, intgridarray* cy, intgridarray* tr, double x1, double x2, double y1, double y2, unsigned lo, unsigned hi) { find_advection_point_location_MPI(*x, *y, *xa, *ya, *cx, *cy, *tr, x1, x2, y1, y2, lo, hi); }
#define UPD(name, scheme, extra, call) \
void name(vectorarray* x, vectorarray* y, gridarray* xa, gridarray* ya, intgridarray* cx, intgridarray* cy, intgridarray* tr, unsigned t, double dt, \
          gridarray* f, gridarray* fx, gridarray* fy, gridarray* fxy, gridarray* mf, gridarray* mfx, gridarray* mfy, gridarray* mfxy, double T extra) \
{ char *sc = (char*)scheme, *rk = (char*)"RK3"; call; }
#define NOARG
#define ARGS , unsigned lo, unsigned hi
#define ALL update_levelset_data(*x, *y, *xa, *ya, *cx, *cy, *tr, t, dt, *f, *fx, *fy, *fxy, *mf, *mfx, *mfy, *mfxy, sc, rk, T)
#define PART update_levelset_data_mpi(*x, *y, *xa, *ya, *cx, *cy, *tr, t, dt, *f, *fx, *fy, *fxy, *mf, *mfx, *mfy, *mfxy, sc, rk, lo, hi, T)
UPD(g_update, "SuperConsistent", NOARG, ALL)
UPD(g_updatep, "SuperConsistent", ARGS, PART)
UPD(g_update_h, "Heuns", NOARG, ALL)
UPD(g_updatep_h, "Heuns", ARGS, PART)
#endif
}
