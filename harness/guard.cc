#include "world.h"
namespace I = GALS::INTERPOLATION;
PROBE void vd_make(std::vector<double>* v, long n) { new (v) std::vector<double>(n); }
PROBE void vi_make(std::vector<int>* v, long n) { new (v) std::vector<int>(n); }
PROBE const void* vd_at(std::vector<double>* v, long n) { return &(*v)[n]; }
PROBE const void* vi_at(std::vector<int>* v, long n) { return &(*v)[n]; }
PROBE void v3d_make(Vec3<double>* o, const std::vector<double>* v) { new (o) Vec3<double>(*v); }
PROBE void v3i_make(Vec3<int>* o, const std::vector<int>* v) { new (o) Vec3<int>(*v); }
using L1 = I::Linear<double, G<1>>;
PROBE void u_lin_1(const Array<G<1>, Vec3<double>>* x, Levelset<G<1>, double>* l) { L1 i; i.compute(*x, *l); }
PROBE void u_linop_1(const Array<G<1>, Vec3<double>>* x, Levelset<G<1>, double>* l) { L1()(*x, *l); }
PROBE void u_linfront_1(const Array<G<1>, Vec3<double>>* x, Levelset<G<1>, double>* l) { Interpolate<double, G<1>, L1>::compute(*x, *l); }
#define K(d) \
PROBE void u_hop_##d(const Array<G<d>, Vec3<double>>* x, const Array<G<d>, double>* a, Array<G<d>, double>* o) { I::Hermite<double, G<d>>()(*x, *a, *o); } \
PROBE void u_hfront_##d(const Array<G<d>, Vec3<double>>* x, const Array<G<d>, double>* a, Array<G<d>, double>* o) { Interpolate<double, G<d>, I::Hermite<double, G<d>>>::compute(*x, *a, *o); }
K(1) K(2) K(3)
