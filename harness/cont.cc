#include "world.h"
#define W(d) \
PROBE const void* lc_phi_##d(const Levelset<G<d>, double>* l) { return &l->phi(); } \
PROBE const void* lc_psi_##d(const Levelset<G<d>, double>* l) { return &l->psi(); } \
PROBE const void* lc_mix_##d(const Levelset<G<d>, double>* l) { return &l->phiMixedDerivatives(); } \
PROBE const void* lc_phip_##d(const Levelset<G<d>, double>* l) { return &l->phiPrev(); } \
PROBE const void* lc_psip_##d(const Levelset<G<d>, double>* l) { return &l->psiPrev(); } \
PROBE const void* lc_mixp_##d(const Levelset<G<d>, double>* l) { return &l->phiMixedDerivativesPrev(); } \
PROBE const void* lc_phii_##d(const Levelset<G<d>, double>* l) { return &l->phiInterpPrev(); } \
PROBE const void* lc_psii_##d(const Levelset<G<d>, double>* l) { return &l->psiInterpPrev(); } \
PROBE const void* vc_vel_##d(const LevelsetVelocity<G<d>, double>* l) { return &l->velocity(); } \
PROBE const void* vc_grad_##d(const LevelsetVelocity<G<d>, double>* l) { return &l->velocityGradient(); } \
PROBE const void* l_grid_##d(const Levelset<G<d>, double>* l) { return &l->grid(); } \
PROBE const void* v_grid_##d(const LevelsetVelocity<G<d>, double>* l) { return &l->grid(); } \
PROBE const void* c_grid_s_##d(const Array<G<d>, double>* a) { return &a->grid(); } \
PROBE const void* c_grid_v_##d(const Array<G<d>, Vec3<double>>* a) { return &a->grid(); } \
PROBE const void* c_grid_m_##d(const Array<G<d>, Mat3<double>>* a) { return &a->grid(); } \
PROBE const void* c_grid_n_##d(const Array<G<d>, VecN<double, G<d>::num_mixed_derivatives>>* a) { return &a->grid(); } \
PROBE unsigned long c_size_s_##d(const Array<G<d>, double>* a) { return a->size(); } \
PROBE unsigned long c_size_v_##d(const Array<G<d>, Vec3<double>>* a) { return a->size(); } \
PROBE unsigned long c_size_m_##d(const Array<G<d>, Mat3<double>>* a) { return a->size(); } \
PROBE unsigned long c_size_n_##d(const Array<G<d>, VecN<double, G<d>::num_mixed_derivatives>>* a) { return a->size(); }
W(1) W(2) W(3)
