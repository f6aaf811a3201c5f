#ifndef GALS_VERIF_OMP
#define GALS_VERIF_OMP
extern "C" {
void omp_set_num_threads(int);
int omp_get_num_threads();
int omp_get_max_threads();
int omp_get_thread_num();
double omp_get_wtime();
}
#endif
