// The advection application as a callable; its own main becomes gals_app_main.
#define main gals_app_main
#include "applications/advection/main.cc"
#undef main
#include "world.h"
PROBE int app_run(int argc, char** argv) { return gals_app_main(argc, argv); }
PROBE bool app_close(double a, double b) { return GALS::is_equal(a, b); }
PROBE const void* app_grid(const Levelset<G<2>, double>* l) { return &l->grid(); }
PROBE int app_pad(const G<2>* g) { return g->getPadding(); }
PROBE int app_n(const G<2>* g, int a) { return g->numCells()[a]; }
PROBE const void* app_agrid(const Array<G<2>, double>* l) { return &l->grid(); }
