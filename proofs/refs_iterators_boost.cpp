// C25: the proofs of iterators.cpp with stepper and system passed through boost::ref
#define IRV_C25 1
#define IRV_C25_NAME iterators
#include "iterators.cpp"
