// Native replay runtime: the same drivers, compiled against the same headers, run on concrete values.
#include "irv.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
struct Rec { std::string kind, name; double v; };
static std::vector<Rec>* log_;           // inputs of the current run
static jmp_buf jb;
static std::mt19937_64 rng;
static std::vector<Rec> forced; static size_t fpos; static bool useForced;
static std::string failed; static std::map<std::string,long> covers; static long nassert;
static const char* H; static const char* outp; static unsigned long long curseed; static long runno;
static void dump(const char* what, const char* id) {
  FILE* f = fopen(outp, "w"); if (!f) return;
  fprintf(f, "harness %s\nfailed %s\nkind %s\nseed %llu\nrun %ld\n", H, id, what, curseed, runno);
  for (auto& r : *log_) fprintf(f, "input %s %s %.17g\n", r.kind.c_str(), r.name.c_str(), r.v);
  fclose(f);
}
static bool next(const char* kind, const char* n, double& v) {
  if (!useForced) return false;
  for (size_t i = fpos; i < forced.size(); ++i) if (forced[i].name == n) { v = forced[i].v; forced.erase(forced.begin() + i); return true; }
  return false;
}
static double sample() {
  unsigned k = rng() % 20; std::uniform_real_distribution<double> u(-3, 3);
  if (k < 8) return (double((long)(rng() % 25)) - 12) / 4;
  if (k < 16) return u(rng);
  if (k < 18) return (rng() % 2 ? 1 : -1) * std::pow(10.0, u(rng));
  return (double)((long)(rng() % 3) - 1);
}
extern "C" {
double irv_real(const char* n) { double v; if (!next("real", n, v)) v = sample(); log_->push_back({"real", n, v}); return v; }
long irv_int(const char* n, long lo, long hi) { double d; long v; if (next("int", n, d) && d >= lo && d <= hi && d < 100000) v = (long)d; else v = lo + (long)(rng() % (unsigned long)(hi - lo + 1)); log_->push_back({"int", n, (double)v}); return v; }
long irv_nat(const char* n, long lo, long hi) { double d; long v; if (next("int", n, d) && d >= lo && d <= hi + 1000) v = (long)d; else v = lo + (long)(rng() % (unsigned long)(hi - lo + 1)); log_->push_back({"int", n, (double)v}); return v; }
bool irv_bool(const char* n) { double d; bool v; if (next("bool", n, d)) v = d != 0; else v = rng() & 1; log_->push_back({"bool", n, (double)v}); return v; }
int irv_choose(const char* n, int k) { double d; int v; if (next("choose", n, d) && d >= 0 && d < k) v = (int)d; else v = rng() % k; log_->push_back({"choose", n, (double)v}); return v; }
void irv_assume(bool b) { if (!b) longjmp(jb, 1); }
void irv_assert(bool b, const char* id) { ++nassert; if (!b) { failed = id; dump("assertion", id); longjmp(jb, 2); } }
void irv_cover(const char* id) { ++covers[id]; }
static double tol(double a, double b) { double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); return 1e-8 * m; }
bool irv_same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void irv_fp(int) {}
bool irv_eq(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) longjmp(jb, 1); return std::fabs(a - b) <= tol(a, b); }
bool irv_le(double a, double b) { if (std::isnan(a) || std::isnan(b)) return false; return a <= b + tol(a, b); }
double irv_uf(const char* name, int n, ...) {
  unsigned long long h = 1469598103934665603ull; for (const char* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  auto rnd = [&]() { h ^= h << 13; h ^= h >> 7; h ^= h << 17; return (double)(h % 20001) / 10000.0 - 1.0; };
  for (int i = 0; i < 5; ++i) rnd();
  va_list ap; va_start(ap, n); double s = rnd(), ph = rnd(), q = 0;
  for (int i = 0; i < n; ++i) { double x = va_arg(ap, double); double c = rnd(), w = rnd(), p = rnd(); s += c * std::sin((1.5 + w) * x + 3 * p); ph += (1 + w) * x; q += w * x; }
  va_end(ap); return s + 0.7 * std::cos(ph) + 0.3 * std::atan(q);
}
void irv_unroll(int) {}
int irv_native(void) { return 1; }
void irv_note(const char*) {}
void irv_contract(const char*, const char*) {}
void irv_merge(const char*) {}
void irv_dump(const char*, ...) {}
bool irv_defined(double) { return true; }
}
static void onsig(int s) { dump("signal", s == SIGALRM ? "timeout" : "crash"); _exit(s == SIGALRM ? 4 : 3); }
extern "C" void __asan_on_error() { dump("sanitizer", "memory error"); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=127:detect_stack_use_after_return=0"; }
// usage: prog harness out seed nruns seconds [forced-values-file]
int main(int c, char** v) {
  H = v[1]; outp = v[2]; unsigned long long seed = strtoull(v[3], 0, 10); long n = atol(v[4]); double secs = atof(v[5]);
  void* h = dlopen(0, RTLD_NOW); std::string sym = std::string("H_") + H; void (*f)() = (void (*)())dlsym(h, sym.c_str());
  if (!f) { fprintf(stderr, "no harness %s\n", H); return 5; }
  std::vector<Rec> base;
  if (c > 6) { std::ifstream in(v[6]); std::string l; while (std::getline(in, l)) { std::istringstream s(l); Rec r; std::string t; s >> r.kind >> r.name >> r.v; if (!r.name.empty()) base.push_back(r); } }
  signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGALRM, onsig);
  log_ = new std::vector<Rec>; time_t t0 = time(0); long bad = 0, pre = 0; 
  for (runno = 0; runno < n; ++runno) {
    curseed = seed * 1000003ull + runno; rng.seed(curseed); log_->clear(); failed.clear();
    useForced = !base.empty() && (runno % 4 != 3 || runno < 8); forced = base; fpos = 0;
    if (useForced && runno >= 8) { // perturb: drop some forced values
      std::vector<Rec> k; for (auto& r : forced) if (rng() % 3) k.push_back(r); forced = k; }
    alarm(20);
    int j = setjmp(jb);
    if (j == 0) { try { f(); } catch (...) { failed = "uncaught exception"; dump("exception", "uncaught exception"); j = 2; } }
    alarm(0);
    if (j == 1) ++pre;
    if (j == 2) { ++bad; printf("FAILED %s run %ld\n", failed.c_str(), runno); return 1; }
    if (time(0) - t0 > secs) { ++runno; break; }
  }
  printf("RUNS %ld rejected %ld asserts %ld\n", runno, pre, nassert);
  for (auto& k : covers) printf("COVER %s %ld\n", k.first.c_str(), k.second);
  return 0;
}
