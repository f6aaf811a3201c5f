#include "world.h"
#include <sstream>
PROBE void pr_v3d(std::ostream* o, const Vec3<double>* v) { *o << *v; }
PROBE void pr_v3i(std::ostream* o, const Vec3<int>* v) { *o << *v; }
PROBE void pr_m3d(std::ostream* o, const Mat3<double>* v) { *o << *v; }
PROBE void pr_m3i(std::ostream* o, const Mat3<int>* v) { *o << *v; }
PROBE void mk_v3d(Vec3<double>* v) { new (v) Vec3<double>(); }
PROBE void mk_v3i(Vec3<int>* v) { new (v) Vec3<int>(); }
PROBE void mk_m3d(Mat3<double>* v) { new (v) Mat3<double>(); }
PROBE void mk_m3i(Mat3<int>* v) { new (v) Mat3<int>(); }
PROBE const void* at_v3d(Vec3<double>* v, int i) { return &(*v)[i]; }
PROBE const void* at_v3i(Vec3<int>* v, int i) { return &(*v)[i]; }
PROBE const void* at_m3d(Mat3<double>* v, int i) { return &(*v)[i]; }
PROBE const void* at_m3i(Mat3<int>* v, int i) { return &(*v)[i]; }
#define N(n) \
PROBE void pr_vn##n(std::ostream* o, const VecN<double, n>* v) { *o << *v; } \
PROBE void mk_vn##n(VecN<double, n>* v) { new (v) VecN<double, n>(); } \
PROBE const void* at_vn##n(VecN<double, n>* v, int i) { return &(*v)[i]; }
N(1) N(4)
#define W(d) \
PROBE const void* pr_s_##d(std::ostream* o, const Array<G<d>, double>* a) { return &(*o << *a); } \
PROBE const void* pr_v_##d(std::ostream* o, const Array<G<d>, Vec3<double>>* a) { return &(*o << *a); } \
PROBE const void* pr_m_##d(std::ostream* o, const Array<G<d>, Mat3<double>>* a) { return &(*o << *a); } \
PROBE const void* pr_n_##d(std::ostream* o, const Array<G<d>, VecN<double, G<d>::num_mixed_derivatives>>* a) { return &(*o << *a); }
W(1) W(2) W(3)
