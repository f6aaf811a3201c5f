#include "world.h"
#define K(d, S, n) \
PROBE void k_grad##n##s_##d(const Array<G<d>, double>& a, Array<G<d>, Vec3<double>>& g) { Gradient<double, G<d>, S<double, G<d>>>::compute(a, g); } \
PROBE void k_grad##n##v_##d(const Array<G<d>, Vec3<double>>& a, Array<G<d>, Mat3<double>>& g) { Gradient<double, G<d>, S<double, G<d>>>::compute(a, g); } \
PROBE void k_dgrad##n##s_##d(const Array<G<d>, double>& a, Array<G<d>, Vec3<double>>& g) { S<double, G<d>> s; s.compute(a, g); } \
PROBE void k_dgrad##n##v_##d(const Array<G<d>, Vec3<double>>& a, Array<G<d>, Mat3<double>>& g) { S<double, G<d>> s; s.compute(a, g); }
#define D(d) K(d, SecondOrderCentral, 2) K(d, ThirdOrder, 3)
D(1) D(2) D(3)
