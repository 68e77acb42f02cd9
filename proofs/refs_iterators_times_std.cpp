// C25: the proofs of iterators_times.cpp with stepper and system passed through std::ref
#define IRV_C25 2
#define IRV_C25_NAME iterators_times
#include "iterators_times.cpp"
