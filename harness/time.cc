#include "world.h"
namespace S = GALS::TEMPORAL_SCHEMES;
#define K(d) \
using LS##d = Levelset<G<d>, double>; using LV##d = LevelsetVelocity<G<d>, double>; \
PROBE void k_sl_##d(double dt, const LV##d* v, LS##d* l) { S::SEMI_LAGRANGIAN::Euler<double, G<d>> s; s.compute(dt, *v, *l); } \
PROBE void k_slop_##d(double dt, const LV##d* v, LS##d* l) { S::SEMI_LAGRANGIAN::Euler<double, G<d>>()(dt, *v, *l); } \
PROBE void k_slfront_##d(double dt, const LV##d* v, LS##d* l) { Temporal<double, G<d>, S::SEMI_LAGRANGIAN::Euler<double, G<d>>>::compute(dt, *v, *l); } \
PROBE void k_eu_##d(double dt, const LV##d* v, LS##d* l) { S::Euler<double, G<d>> s; s.compute(dt, *v, *l); } \
PROBE void k_euop_##d(double dt, const LV##d* v, LS##d* l) { S::Euler<double, G<d>>()(dt, *v, *l); } \
PROBE void k_eufront_##d(double dt, const LV##d* v, LS##d* l) { Temporal<double, G<d>>::compute(dt, *v, *l); }
K(1) K(2) K(3)
