// C10: the proofs of C09 with a step checker attached
#define IRV_C10 1
#define HP( x ) IRV_HARNESS( C10_times_##x )
#include "integrate_times.cpp"
