#include "world.h"
namespace I = GALS::INTERPOLATION;
#define K(d) \
PROBE void k_herm_##d(const G<d>* g, const Levelset<G<d>, double>* l, double x, double y, double z, bool lim, double* out) \
{ I::Hermite<double, G<d>> h; auto f = h.interpolate(*g, Vec3<double>(x, y, z), *l, lim); \
  out[0] = f.phi_interpolated; for (int c = 0; c < 3; ++c) out[1 + c] = f.psi_interpolated[c]; } \
PROBE void k_hermd_##d(const G<d>* g, const Levelset<G<d>, double>* l, double x, double y, double z, double* out) \
{ I::Hermite<double, G<d>> h; auto f = h.interpolate(*g, Vec3<double>(x, y, z), *l); \
  out[0] = f.phi_interpolated; for (int c = 0; c < 3; ++c) out[1 + c] = f.psi_interpolated[c]; } \
PROBE void k_hcomp_##d(const Array<G<d>, Vec3<double>>* x, Levelset<G<d>, double>* l) { I::Hermite<double, G<d>> h; h.compute(*x, *l); } \
PROBE void k_hop_##d(const Array<G<d>, Vec3<double>>* x, Levelset<G<d>, double>* l) { I::Hermite<double, G<d>>()(*x, *l); } \
PROBE void k_hfront_##d(const Array<G<d>, Vec3<double>>* x, Levelset<G<d>, double>* l) { Interpolate<double, G<d>, I::Hermite<double, G<d>>>::compute(*x, *l); }
K(1) K(2) K(3)
PROBE void k_cp(double p0, double s0, double p1, double s1, double dx, bool lim, double* out)
{ auto c = I::get_control_points<double>(p0, s0, p1, s1, dx, lim); out[0] = c.c_30; out[1] = c.c_21; out[2] = c.c_12; out[3] = c.c_03; }
PROBE void k_cpd(double p0, double s0, double p1, double s1, double dx, double* out)
{ auto c = I::get_control_points<double>(p0, s0, p1, s1, dx); out[0] = c.c_30; out[1] = c.c_21; out[2] = c.c_12; out[3] = c.c_03; }
PROBE double k_B(int i, double e)
{ switch (i) { case 0: return I::B0(e); case 1: return I::B1(e); case 2: return I::B2(e); case 3: return I::B3(e);
               case 4: return I::B0_Prime(e); case 5: return I::B1_Prime(e); case 6: return I::B2_Prime(e); default: return I::B3_Prime(e); } }
using L1 = I::Linear<double, G<1>>;
PROBE double k_lin_1(const G<1>* g, double x, double y, double z, const Array<G<1>, double>* a) { L1 l; return l.linearInterpolation(*g, Vec3<double>(x, y, z), *a); }
PROBE void k_lcomp_1(const Array<G<1>, Vec3<double>>* x, const Array<G<1>, double>* a, Array<G<1>, double>* o) { L1 l; l.compute(*x, *a, *o); }
PROBE void k_lop_1(const Array<G<1>, Vec3<double>>* x, const Array<G<1>, double>* a, Array<G<1>, double>* o) { L1()(*x, *a, *o); }
PROBE void k_lfront_1(const Array<G<1>, Vec3<double>>* x, const Array<G<1>, double>* a, Array<G<1>, double>* o) { Interpolate<double, G<1>, L1>::compute(*x, *a, *o); }
