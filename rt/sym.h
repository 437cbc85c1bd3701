// Harness API.  Under the engine these are symbolic; in the native replay build they read the
// values of a counterexample from a file (see replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int sym_int(const char *name, int lo, int hi);       // symbolic integer in [lo,hi]
int sym_choice(const char *name, int lo, int hi);    // explored by case split
int sym_concretize(int v);                           // case split on the value
float sym_half(const char *name, int lo2, int hi2);  // symbolic k/2 with lo2 <= k <= hi2
double sym_real(const char *name, double lo, double hi); // exact real
double sym_angle(const char *name);                  // exact angle
double sym_double(const char *name);                 // any bit pattern (IEEE semantics)
uint64_t sym_bits64(const char *name);
void sym_bytes(const char *name, void *p, size_t n);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_assert_near(double a, double b, double tol, const char *msg);
void sym_cover(const char *label);
void sym_mode_real(int on);
void sym_allow_divzero(int on);
void sym_thread(void (*fn)(void *), void *arg);
void sym_join();
int sym_symbolic(); // 1 under the engine, 0 natively
void sym_end();
void sym_fail(const char *msg);
int sym_isconst(double v);
void sym_print(const char *name, double v);
double sym_uf1(const char *name, double x);
double sym_uf2(const char *name, double x, double y);
}
