#include "world.h"
#define W(d) \
PROBE void w_gridre_##d(G<d>* g, double x0, double x1, double y0, double y1, double z0, double z1) { g->generate(x0, x1, y0, y1, z0, z1); } \
PROBE void w_gridpad_##d(G<d>* g, int pad) { g->setPadding(pad); } \
PROBE void w_grid3_##d(G<d>* g, int nx, int ny, int nz) { new (g) G<d>(nx, ny, nz); } \
PROBE void w_gridctor1_##d(G<d>* g, int nx) { new (g) G<d>(nx); } \
PROBE void w_gridctor2_##d(G<d>* g, int nx, int ny) { new (g) G<d>(nx, ny); } \
PROBE void w_gridctor3_##d(G<d>* g, int nx, int ny, int nz) { new (g) G<d>(nx, ny, nz); } \
PROBE int g_dim_##d(const G<d>* g) { return g->dimension(); } \
PROBE int g_pad_##d(const G<d>* g) { return g->getPadding(); } \
PROBE int g_mask_##d(const G<d>* g, int a) { return g->getMask()[a]; } \
PROBE int g_cells_##d(const G<d>* g, int a) { return g->numCells()[a]; } \
PROBE unsigned long g_total_##d(const G<d>* g) { return g->totalCells(); } \
PROBE unsigned long g_index_##d(const G<d>* g, int i, int j, int k) { return g->index(i, j, k); } \
PROBE unsigned long g_indexv_##d(const G<d>* g, int i, int j, int k) { return g->index(Vec3<int>(i, j, k)); } \
PROBE const void* p_x_##d(G<d>* g, int i, int j, int k) { return &g->x(i, j, k); } \
PROBE const void* p_c_##d(const G<d>* g, int i, int j, int k) { return &(*g)(i, j, k); } \
PROBE const void* p_cv_##d(const G<d>* g, int i, int j, int k) { return &(*g)(Vec3<int>(i, j, k)); } \
PROBE int g_base_##d(const G<d>* g, double x, double y, double z, int a) { return g->baseNodeId(Vec3<double>(x, y, z))[a]; } \
PROBE const void* g_basecoord_##d(const G<d>* g, double x, double y, double z) { return &(*g)(g->baseNodeId(Vec3<double>(x, y, z))); } \
PROBE unsigned long g_baseidx_##d(const G<d>* g, double x, double y, double z) { return g->index(g->baseNodeId(Vec3<double>(x, y, z))); } \
PROBE int g_axis_##d(int r, int c) { return G<d>::axis_vectors(r, c); } \
PROBE double g_ident_##d(int r, int c) { return G<d>::identity_mat(r, c); }
W(1) W(2) W(3)
#define A(d, n, T) \
PROBE unsigned long n_size_##n##_##d(const Array<G<d>, T>* a) { return a->size(); } \
PROBE unsigned long n_dsize_##n##_##d(const Array<G<d>, T>* a) { return a->data().size(); } \
PROBE const void* n_grid_##n##_##d(const Array<G<d>, T>* a) { return &a->grid(); } \
PROBE int n_cells_##n##_##d(const Array<G<d>, T>* a, int c) { return a->numCells()[c]; } \
PROBE const void* n_p_##n##_##d(Array<G<d>, T>* a, int i, int j, int k) { return &(*a)(i, j, k); } \
PROBE const void* n_pc_##n##_##d(const Array<G<d>, T>* a, int i, int j, int k) { return &(*a)(i, j, k); } \
PROBE const void* n_pv_##n##_##d(Array<G<d>, T>* a, int i, int j, int k) { return &(*a)(Vec3<int>(i, j, k)); } \
PROBE const void* n_pcv_##n##_##d(const Array<G<d>, T>* a, int i, int j, int k) { return &(*a)(Vec3<int>(i, j, k)); } \
PROBE const void* n_pi_##n##_##d(Array<G<d>, T>* a, unsigned long i) { return &(*a)[i]; } \
PROBE const void* n_pci_##n##_##d(const Array<G<d>, T>* a, unsigned long i) { return &(*a)[i]; } \
PROBE const void* n_pd_##n##_##d(const Array<G<d>, T>* a, unsigned long i) { return &a->data()[i]; } \
PROBE void n_new_##n##_##d(Array<G<d>, T>* a, const G<d>* g) { new (a) Array<G<d>, T>(*g); } \
PROBE void n_copy_##n##_##d(Array<G<d>, T>* a, const Array<G<d>, T>* b) { new (a) Array<G<d>, T>(*b); } \
PROBE void n_set_##n##_##d(Array<G<d>, T>* a, const Array<G<d>, T>* b) { *a = *b; }
#define AD(d, mix) A(d, s, double) A(d, v, Vec3<double>) A(d, m, Mat3<double>)
AD(1, 0) AD(2, 1) AD(3, 4)
using N1 = VecN<double, 1>;
using N4 = VecN<double, 4>;
A(2, n, N1) A(3, n, N4)
PROBE const void* n_e_n_2(Array<G<2>, N1>* a, unsigned long s, int c) { return &(*a)[s][c]; }
PROBE const void* n_e_n_3(Array<G<3>, N4>* a, unsigned long s, int c) { return &(*a)[s][c]; }
