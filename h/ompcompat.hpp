// OpenMP's thread setting, or nothing where the harness is built without OpenMP.
#pragma once
#ifdef _OPENMP
#include <omp.h>
#else
inline void omp_set_num_threads(int) {}
inline int omp_get_max_threads() { return 1; }
#endif
