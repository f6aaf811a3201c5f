#include "world.h"
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/input-fields/levelset.h"
#include "gals/input-fields/velocity.h"
typedef GALS::INPUT_FIELDS::Levelset IL;
typedef GALS::INPUT_FIELDS::Velocity IV;
PROBE void il_make(IL* l) { new (l) IL(); }
PROBE void iv_make(IV* l) { new (l) IV(); l->center = std::vector<double>(3); l->vector = std::vector<double>(3); }
PROBE void* il_name(IL* l) { return &l->name; }
PROBE void* il_center(IL* l, int c) { return &l->center[c]; }
PROBE void* il_radius(IL* l) { return &l->radius; }
PROBE void* il_scheme(IL* l) { return &l->gradient_scheme; }
PROBE void* iv_name(IV* l) { return &l->name; }
PROBE void* iv_center(IV* l, int c) { return &l->center[c]; }
PROBE void* iv_vector(IV* l, int c) { return &l->vector[c]; }
PROBE void* iv_scheme(IV* l) { return &l->gradient_scheme; }
#define P(d) \
PROBE void p_al_##d(const G<d>* g, const IL* in, const Array<G<d>, Vec3<double>>* pos, Levelset<G<d>, double>* ls) \
{ GALS::ANALYTICAL_FIELDS::Levelset<G<d>, double> a(*g, *in); a.compute(*pos, *ls); } \
PROBE void p_av_##d(const G<d>* g, const IV* in, const Array<G<d>, Vec3<double>>* pos, double t, LevelsetVelocity<G<d>, double>* lv) \
{ GALS::ANALYTICAL_FIELDS::Velocity<G<d>, double> a(*g, *in); a.compute(*pos, t, *lv); } \
PROBE const void* p_alg_##d(const G<d>* g, const IL* in) { GALS::ANALYTICAL_FIELDS::Levelset<G<d>, double> a(*g, *in); return &a.grid(); } \
PROBE const void* p_avg_##d(const G<d>* g, const IV* in) { GALS::ANALYTICAL_FIELDS::Velocity<G<d>, double> a(*g, *in); return &a.grid(); }
P(1) P(2) P(3)
