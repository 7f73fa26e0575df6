// Harness interface of the symbolic executor (and of the native replay build).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// fresh symbolic inputs; the same name gives the same input
float    symi_f32(const char *name, float lo, float hi);
double   symi_f64(const char *name, double lo, double hi);
uint32_t symi_u32(const char *name, uint32_t lo, uint32_t hi);
uint64_t symi_u64(const char *name, uint64_t lo, uint64_t hi);
// unit quaternion w,x,y,z (w^2+x^2+y^2+z^2 = 1 is known to the solver)
void     symi_unit_quat(const char *name, float *wxyz);
// branch over 0..n-1, the returned value is concrete on each path
uint32_t symi_choice(const char *name, uint32_t n);
void     symi_assume(bool c);
void     symi_check(bool c, const char *label);
void     symi_check_eq(float a, float b, float tol, const char *label);
void     symi_check_eq64(double a, double b, double tol, const char *label);
void     symi_reach(const char *label);
void     symi_note(const char *text);          // only in the native build's output
int      symi_native(void);                    // 1 in the native (replay) build
float    symi_peek(float x);                    // the value on this run, not an input to the analysis
}
