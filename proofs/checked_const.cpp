// C10: the proofs of C07 with a step checker attached
#define IRV_C10 1
#include "integrate_const.cpp"
