// every class of the public interface, for every dimension in which it is defined (only named: nothing is called)
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/input-fields/input-fields.h"
#include "gals/input-parser.h"
#include "gals/input-parser/general.h"
#include "gals/input-parser/grid.h"
#include "gals/input-parser/input-parser-base.h"
#include "gals/input-parser/levelset.h"
#include "gals/input-parser/time.h"
#include "gals/input-parser/velocity.h"
#include "gals/utilities/array.h"
#include "gals/utilities/file-utils.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
using namespace GALS::CPU;
namespace I = GALS::INTERPOLATION;
namespace S = GALS::TEMPORAL_SCHEMES;
namespace A = GALS::ANALYTICAL_FIELDS;
namespace P = GALS::INPUT_PARSER;
template <int D>
using G = Grid<double, D>;
#define NAME(...) static_assert(sizeof(__VA_ARGS__) > 0, "");
#define D(d) \
NAME(G<d>) NAME(Array<G<d>, double>) NAME(Array<G<d>, Vec3<double>>) NAME(Array<G<d>, Mat3<double>>) NAME(Array<G<d>, VecN<double, G<d>::num_mixed_derivatives>>) \
NAME(Levelset<G<d>, double>) NAME(LevelsetVelocity<G<d>, double>) NAME(SecondOrderCentral<double, G<d>>) NAME(ThirdOrder<double, G<d>>) \
NAME(Gradient<double, G<d>, SecondOrderCentral<double, G<d>>>) NAME(Gradient<double, G<d>, ThirdOrder<double, G<d>>>) NAME(Gradient<double, G<d>>) \
NAME(I::Hermite<double, G<d>>) NAME(Interpolate<double, G<d>, I::Hermite<double, G<d>>>) NAME(S::Euler<double, G<d>>) NAME(S::SEMI_LAGRANGIAN::Euler<double, G<d>>) \
NAME(Temporal<double, G<d>>) NAME(Temporal<double, G<d>, S::SEMI_LAGRANGIAN::Euler<double, G<d>>>) NAME(A::Levelset<G<d>, double>) NAME(A::Velocity<G<d>, double>)
D(1) D(2) D(3)
NAME(I::Linear<double, G<1>>) NAME(Interpolate<double, G<1>, I::Linear<double, G<1>>>) NAME(Interpolate<double, G<1>>)
NAME(Vec3<int>) NAME(Vec3<double>) NAME(Mat3<int>) NAME(Mat3<double>)
NAME(VecN<int, 1>) NAME(VecN<int, 2>) NAME(VecN<int, 3>) NAME(VecN<double, 0>) NAME(VecN<double, 1>) NAME(VecN<double, 2>) NAME(VecN<double, 3>) NAME(VecN<double, 4>)
NAME(P::InputParserBase<P::General>) NAME(P::InputParserBase<P::Grid>) NAME(P::InputParserBase<P::Time>) NAME(P::InputParserBase<P::Velocity>) NAME(P::InputParserBase<P::Levelset>)
