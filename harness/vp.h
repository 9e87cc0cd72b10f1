// Harness API.  Symbolic build: calls are intercepted by the executor (engine/models.py).  Native build (VP_NATIVE):
// inputs come from a replay file, assertions are evaluated with a small tolerance for rounding.
#pragma once
#include <cassert>
#include <cstdint>
extern "C" {
double vp_double(const char *name);
uint8_t vp_u8(const char *name);
uint32_t vp_u32(const char *name);
uint64_t vp_u64(const char *name);
int32_t vp_i32(const char *name);
int64_t vp_i64(const char *name);
bool vp_bool(const char *name);
int64_t vp_choose(const char *name, int64_t lo, int64_t hi); // one path per value
int64_t vp_concretize(int64_t v);
void vp_assume(bool c);
void vp_assume_eq(double a, double b);
void vp_assume_product(double a, double b, double c); // a*b == c, used to rewrite the product of the two inputs a and b
void vp_assert(bool c, const char *msg);
void vp_assert_eq(double a, double b, const char *msg);
void vp_assert_le(double a, double b, const char *msg);
void vp_assert_lt(double a, double b, const char *msg);
void vp_assert_eqi(int64_t a, int64_t b, const char *msg);
void vp_observe(const char *name, double v);
void vp_observe_i(const char *name, int64_t v);
void vp_reach(const char *name);
int vp_is_symbolic();
void vp_allow_exit(int how); // 1: std::exit is an accepted outcome, 2: exceptions as well
void vp_threads(int n);
void vp_ignore();
bool vp_is_nan(double x);
bool vp_identical(double a, double b); // the terms are identically equal (no case split); native: equal up to rounding
}
#ifdef VP_NATIVE
#define VP_ENTRY(NAME) extern "C" void NAME(); static vp_reg NAME##_reg(#NAME, NAME); extern "C" void NAME()
struct vp_reg { vp_reg(const char *n, void (*f)()); };
#else
#define VP_ENTRY(NAME) extern "C" void NAME()
#endif
