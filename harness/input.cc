#include "world.h"
#include "gals/input-fields/input-fields.h"
#include "gals/input-parser.h"
#include "gals/input-parser/general.h"
#include "gals/input-parser/grid.h"
#include "gals/input-parser/input-parser-base.h"
#include "gals/input-parser/levelset.h"
#include "gals/input-parser/time.h"
#include "gals/input-parser/velocity.h"
using GALS::INPUT_FIELDS::InputFields;
namespace IP = GALS::INPUT_PARSER;
PROBE void if_make(InputFields* f) { new (f) InputFields(); }
PROBE void if_free(InputFields* f) { f->~InputFields(); }
PROBE void if_parse(const std::string* file, InputFields* f) { IP::InputParser p; p.parse(*file, f); }
PROBE const void* s_general(InputFields* f) { return &*f->m_general; }
PROBE const void* s_grid(InputFields* f) { return &*f->m_grid; }
PROBE const void* s_time(InputFields* f) { return &*f->m_time; }
PROBE const void* s_velocity(InputFields* f) { return &*f->m_velocity; }
PROBE const void* s_levelset(InputFields* f) { return &*f->m_levelset; }
#define A(n, e) PROBE const void* a_##n(InputFields* f) { return &(e); }
A(general_output_directory, f->m_general->output_directory)
A(grid_x_min, f->m_grid->x_min) A(grid_x_max, f->m_grid->x_max) A(grid_y_min, f->m_grid->y_min)
A(grid_y_max, f->m_grid->y_max) A(grid_z_min, f->m_grid->z_min) A(grid_z_max, f->m_grid->z_max)
A(grid_nx, f->m_grid->nx) A(grid_ny, f->m_grid->ny) A(grid_nz, f->m_grid->nz)
A(time_start, f->m_time->start) A(time_end, f->m_time->end) A(time_dt, f->m_time->dt) A(time_constant_dt, f->m_time->constant_dt)
A(velocity_name, f->m_velocity->name) A(velocity_gradient_scheme, f->m_velocity->gradient_scheme)
A(levelset_name, f->m_levelset->name) A(levelset_radius, f->m_levelset->radius) A(levelset_gradient_scheme, f->m_levelset->gradient_scheme)
PROBE const void* a_levelset_center(InputFields* f, int c) { return &f->m_levelset->center[c]; }
PROBE const void* a_velocity_center(InputFields* f, int c) { return &f->m_velocity->center[c]; }
PROBE const void* a_velocity_vector(InputFields* f, int c) { return &f->m_velocity->vector[c]; }
PROBE long n_velocity_center(InputFields* f) { return f->m_velocity->center.size(); }
PROBE long n_velocity_vector(InputFields* f) { return f->m_velocity->vector.size(); }
#define S(n, T) \
PROBE void p_##n(const YAML::Node* y, InputFields* f) { IP::T p; p.parse(*y, f); } \
PROBE void o_##n(const YAML::Node* y, InputFields* f) { IP::T()(*y, f); } \
PROBE void b_##n(const YAML::Node* y, InputFields* f) { IP::InputParserBase<IP::T> p; p.parse(*y, f); } \
PROBE void c_##n(const YAML::Node* y, InputFields* f) { IP::InputParserBase<IP::T>()(*y, f); }
S(general, General) S(grid, Grid) S(time, Time) S(velocity, Velocity) S(levelset, Levelset)
template <bool ok> struct Copy { template <class T> static void make(T*, const T*) {} template <class T> static void move(T*, T*) {} template <class T> static void assign(T*, const T*) {} template <class T> static void massign(T*, T*) {} };
template <> struct Copy<true> {
  template <class T> static void make(T* d, const T* s) { new (d) T(*s); }
  template <class T> static void move(T* d, T* s) { new (d) T(std::move(*s)); }
  template <class T> static void assign(T* d, const T* s) { *d = *s; }
  template <class T> static void massign(T* d, T* s) { *d = std::move(*s); }
};
#define CAN_copy std::is_copy_constructible<InputFields>::value
#define CAN_move std::is_move_constructible<InputFields>::value
#define CAN_assign std::is_copy_assignable<InputFields>::value
#define CAN_massign std::is_move_assignable<InputFields>::value
PROBE int can_copy() { return CAN_copy; }
PROBE int can_move() { return CAN_move; }
PROBE int can_assign() { return CAN_assign; }
PROBE int can_massign() { return CAN_massign; }
PROBE void do_copy(InputFields* d, InputFields* s) { Copy<CAN_copy>::make(d, s); }
PROBE void do_move(InputFields* d, InputFields* s) { Copy<CAN_move>::move(d, s); }
PROBE void do_assign(InputFields* d, InputFields* s) { Copy<CAN_assign>::assign(d, s); }
PROBE void do_massign(InputFields* d, InputFields* s) { Copy<CAN_massign>::massign(d, s); }
