// Canonical objects for the analyses: built by the tree's own constructors and observed through its public accessors.
#pragma once
#include <new>
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
using namespace GALS::CPU;
template <int D>
using G = Grid<double, D>;
#define PROBE extern "C" __attribute__((used))
