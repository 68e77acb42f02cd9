// C25: the proofs of integrate_adaptive.cpp with stepper, system and observer passed by value
#define IRV_C25 0
#define IRV_C25_NAME adaptive
#include "integrate_adaptive.cpp"
