// C10: the proofs of C08 with a step checker attached
#define IRV_C10 1
#define IRV_NOCHK 1
#define HP( x ) IRV_HARNESS( C10_adaptive_##x )
#include "integrate_adaptive.cpp"
