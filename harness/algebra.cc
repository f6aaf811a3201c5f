#include <new>
#include <string>
#include <iostream>
#include "gals/utilities/mat3.h"
#include "gals/utilities/utilities.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
using namespace GALS::CPU;
#define PROBE extern "C" __attribute__((used))
#define V(n, T) \
using V##n = Vec3<T>; using M##n = Mat3<T>; \
PROBE void v_new3_##n(V##n* v, T a, T b, T c) { new (v) V##n(a, b, c); } \
PROBE void v_new0_##n(V##n* v) { new (v) V##n(); } \
PROBE void v_newv_##n(V##n* v, T a, T b, T c) { std::vector<T> x(3); x[0] = a; x[1] = b; x[2] = c; new (v) V##n(x); } \
PROBE void v_copy_##n(V##n* v, const V##n* w) { new (v) V##n(*w); } \
PROBE void v_set_##n(V##n* v, const V##n* w) { *v = *w; } \
PROBE int v_size_##n(const V##n* v) { return v->size(); } \
PROBE T v_get_##n(const V##n* v, int i) { return (*v)[i]; } \
PROBE T* v_ref_##n(V##n* v, int i) { return &(*v)[i]; } \
PROBE T v_min_##n(const V##n* v) { return v->min(); } \
PROBE double v_mag_##n(const V##n* v) { return v->mag(); } \
PROBE bool v_eq_##n(const V##n* v, const V##n* w) { return *v == *w; } \
PROBE void v_sub_##n(const V##n* v, const V##n* w, V##n* o) { new (o) V##n(*v - *w); } \
PROBE void v_mul_##n(const V##n* v, const V##n* w, V##n* o) { new (o) V##n(*v * *w); } \
PROBE void v_div_##n(const V##n* v, const V##n* w, V##n* o) { new (o) V##n(*v / *w); } \
PROBE void v_scale_##n(const V##n* v, T s, V##n* o) { new (o) V##n(*v * s); } \
PROBE void m_new9_##n(M##n* m, T a, T b, T c, T d, T e, T f, T g, T h, T i) { new (m) M##n(a, b, c, d, e, f, g, h, i); } \
PROBE void m_new0_##n(M##n* m) { new (m) M##n(); } \
PROBE void m_copy_##n(M##n* v, const M##n* w) { new (v) M##n(*w); } \
PROBE void m_set_##n(M##n* v, const M##n* w) { *v = *w; } \
PROBE int m_size_##n(const M##n* m) { return m->size(); } \
PROBE T m_get_##n(const M##n* m, int i) { return (*m)[i]; } \
PROBE T* m_ref_##n(M##n* m, int i) { return &(*m)[i]; } \
PROBE T m_get2_##n(const M##n* m, int r, int c) { return (*m)(r, c); } \
PROBE T* m_ref2_##n(M##n* m, int r, int c) { return &(*m)(r, c); } \
PROBE void m_dot_##n(const M##n* m, const V##n* v, V##n* o) { new (o) V##n(m->dot(*v)); } \
PROBE void m_sub_##n(const M##n* m, const M##n* w, M##n* o) { new (o) M##n(*m - *w); } \
PROBE void m_scale_##n(const M##n* m, T s, M##n* o) { new (o) M##n(*m * s); } \
PROBE bool m_eq_##n(const M##n* v, const M##n* w) { return *v == *w; } \
PROBE T u_sqr_##n(T a) { return GALS::sqr(a); } \
PROBE T u_cube_##n(T a) { return GALS::cube(a); } \
PROBE bool u_eq_##n(T a, T b) { return GALS::is_equal(a, b); }
V(i, int) V(d, double)
#define N(n, T, s) \
PROBE void n_new_##n##s(VecN<T, s>* v) { new (v) VecN<T, s>(); } \
PROBE int n_size_##n##s(const VecN<T, s>* v) { return v->size(); } \
PROBE T n_get_##n##s(const VecN<T, s>* v, int i) { return (*v)[i]; } \
PROBE T* n_ref_##n##s(VecN<T, s>* v, int i) { return &(*v)[i]; } \
PROBE void n_copy_##n##s(VecN<T, s>* v, const VecN<T, s>* w) { new (v) VecN<T, s>(*w); } \
PROBE void n_set_##n##s(VecN<T, s>* v, const VecN<T, s>* w) { *v = *w; }
N(i, int, 1) N(i, int, 2) N(i, int, 3) N(d, double, 0) N(d, double, 1) N(d, double, 2) N(d, double, 3) N(d, double, 4)
