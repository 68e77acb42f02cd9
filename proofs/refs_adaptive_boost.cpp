// C25: the proofs of integrate_adaptive.cpp with stepper, system and observer passed through boost::ref
#define IRV_C25 1
#define IRV_C25_NAME adaptive
#include "integrate_adaptive.cpp"
