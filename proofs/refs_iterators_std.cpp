// C25: the proofs of iterators.cpp with stepper and system passed through std::ref
#define IRV_C25 2
#define IRV_C25_NAME iterators
#include "iterators.cpp"
