#include "world.h"
PROBE void w_grid_1(G<1>* g, int nx, int, int, int pad, double x0, double x1, double y0, double y1, double z0, double z1)
{ new (g) G<1>(nx); g->setPadding(pad); g->generate(x0, x1, y0, y1, z0, z1); }
PROBE void w_grid_2(G<2>* g, int nx, int ny, int, int pad, double x0, double x1, double y0, double y1, double z0, double z1)
{ new (g) G<2>(nx, ny); g->setPadding(pad); g->generate(x0, x1, y0, y1, z0, z1); }
PROBE void w_grid_3(G<3>* g, int nx, int ny, int nz, int pad, double x0, double x1, double y0, double y1, double z0, double z1)
{ new (g) G<3>(nx, ny, nz); g->setPadding(pad); g->generate(x0, x1, y0, y1, z0, z1); }
#define W(d) \
PROBE const void* a_x_##d(G<d>* g, int i, int j, int k, int c) { return &g->x(i, j, k)[c]; } \
PROBE double g_dx_##d(const G<d>* g, int c) { return g->dX()[c]; } \
PROBE double g_odx_##d(const G<d>* g, int c) { return g->oneOverDX()[c]; } \
PROBE double g_x_##d(const G<d>* g, int i, int j, int k, int c) { return (*g)(i, j, k)[c]; } \
PROBE int g_size_##d(const G<d>* g) { return g->size(); } \
PROBE void w_as_##d(Array<G<d>, double>* a, const G<d>* g) { new (a) Array<G<d>, double>(*g); } \
PROBE void w_av_##d(Array<G<d>, Vec3<double>>* a, const G<d>* g) { new (a) Array<G<d>, Vec3<double>>(*g); } \
PROBE void w_am_##d(Array<G<d>, Mat3<double>>* a, const G<d>* g) { new (a) Array<G<d>, Mat3<double>>(*g); } \
PROBE void w_ls_##d(Levelset<G<d>, double>* a, const G<d>* g) { new (a) Levelset<G<d>, double>(*g); } \
PROBE void w_lv_##d(LevelsetVelocity<G<d>, double>* a, const G<d>* g) { new (a) LevelsetVelocity<G<d>, double>(*g); } \
PROBE const void* a_s_##d(const Array<G<d>, double>* a, int i, int j, int k) { return &(*a)(i, j, k); } \
PROBE const void* a_v_##d(Array<G<d>, Vec3<double>>* a, int i, int j, int k, int c) { return &(*a)(i, j, k)[c]; } \
PROBE const void* a_m_##d(Array<G<d>, Mat3<double>>* a, int i, int j, int k, int c, int e) { return &(*a)(i, j, k)(c, e); } \
PROBE const void* a_n_##d(Array<G<d>, VecN<double, G<d>::num_mixed_derivatives>>* a, int i, int j, int k, int c) { return &(*a)(i, j, k)[c]; } \
PROBE const void* l_phi_##d(Levelset<G<d>, double>* l) { return &l->phi(); } \
PROBE const void* l_psi_##d(Levelset<G<d>, double>* l) { return &l->psi(); } \
PROBE const void* l_mix_##d(Levelset<G<d>, double>* l) { return &l->phiMixedDerivatives(); } \
PROBE const void* l_phip_##d(Levelset<G<d>, double>* l) { return &l->phiPrev(); } \
PROBE const void* l_psip_##d(Levelset<G<d>, double>* l) { return &l->psiPrev(); } \
PROBE const void* l_mixp_##d(Levelset<G<d>, double>* l) { return &l->phiMixedDerivativesPrev(); } \
PROBE const void* l_phii_##d(Levelset<G<d>, double>* l) { return &l->phiInterpPrev(); } \
PROBE const void* l_psii_##d(Levelset<G<d>, double>* l) { return &l->psiInterpPrev(); } \
PROBE const void* v_vel_##d(LevelsetVelocity<G<d>, double>* l) { return &l->velocity(); } \
PROBE const void* v_grad_##d(LevelsetVelocity<G<d>, double>* l) { return &l->velocityGradient(); }
W(1) W(2) W(3)
