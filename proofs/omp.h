// stand-in for the OpenMP runtime header (clang has none here): the pragmas are ignored, the loops run one iteration after the other
#ifndef IRV_OMP_H
#define IRV_OMP_H
#ifdef _OPENMP
#error "the stand-in is for builds without OpenMP"
#endif
extern "C" inline int omp_get_max_threads( void ) { return 3; }
#endif
