// Interface between the proof drivers (specifications) and the verifier / the native replay runtime.
#ifndef IRV_H
#define IRV_H
#include <cstddef>
extern "C" {
double irv_real(const char* name);                      // arbitrary real
long   irv_int(const char* name, long lo, long hi);     // arbitrary integer in [lo,hi]
long   irv_nat(const char* name, long lo, long native_hi); // arbitrary integer >= lo (native runs sample [lo,native_hi])
bool   irv_bool(const char* name);                      // arbitrary truth value
int    irv_choose(const char* name, int n);             // case split 0..n-1
void   irv_assume(bool);
void   irv_assert(bool, const char* id);
void   irv_cover(const char* id);                       // must be reachable
bool   irv_eq(double, double);                          // mathematical equality (native: up to rounding)
bool   irv_same(double, double);                        // equality without tolerance (also natively)
void   irv_fp(int);                                     // 1: floating point operations are uninterpreted functions (rounded arithmetic) instead of exact
bool   irv_le(double, double);                          // <= (native: up to rounding)
double irv_uf(const char* name, int n, ...);            // uninterpreted function of n reals
void   irv_unroll(int);
int    irv_native(void);
void   irv_note(const char*);
void   irv_contract(const char*, const char*);          // calls of functions whose name contains the first are replaced by the contract function with the second name
void   irv_merge(const char*);                          // join the paths through calls of functions with this name (no effect on what is proved)
void   irv_dump(const char*, ...);
bool   irv_defined(double);
}
#define IRV_HARNESS(name) extern "C" void H_##name()
#endif
