// Specification functions of the contracts. The verifier gives them their meaning (engine/models.py);
// vc_native.cpp defines them for replaying a counterexample on the compiled code.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <limits>
#include <stdexcept>
extern "C" {
double vc_real(const char* name);             // any real (REAL mode) / any double (FP mode)
float vc_float(const char* name);
bool vc_bool(const char* name);
int8_t vc_i8(const char* name);
uint8_t vc_u8(const char* name);
uint16_t vc_u16(const char* name);
int32_t vc_i32(const char* name);
uint32_t vc_u32(const char* name);
int64_t vc_i64(const char* name);
uint64_t vc_u64(const char* name);
int64_t vc_range(const char* name, int64_t lo, int64_t hi); // constants lo, hi
int64_t vc_index(const char* name, int64_t n);              // 0 <= result < n
void vc_unit3(const char* name, double* v);   // any vector with v.v = 1
void vc_unit4(const char* name, double* v);
void* vc_bytes(const char* name, size_t n, int kind); // unconstrained array; kind 0 u8, 1 float, 2 double, 3 i32, 4 u64
void* vc_array(const char* name, size_t n, int kind, int lanes); // n records of `lanes` scalars
void vc_assume(bool c);
void vc_check(bool c, const char* name);      // obligation
void vc_lemma(bool c, const char* name);      // obligation, then hypothesis
void vc_cover(const char* name);
bool vc_and(bool a, bool b);
bool vc_or(bool a, bool b);
bool vc_not(bool a);
bool vc_implies(bool a, bool b);
bool vc_iff(bool a, bool b);
double vc_if(bool c, double a, double b);
int64_t vc_ifi(bool c, int64_t a, int64_t b);
bool vc_eq(double a, double b);               // equality; natively up to rounding
bool vc_le(double a, double b);               // a <= b; natively up to rounding
bool vc_lt(double a, double b);               // a < b; natively up to rounding
bool vc_same(double a, double b);
bool vc_isnan(double a);
bool vc_split(bool c);
void vc_option(const char* what);               // engine option, no meaning of its own
void vc_hint(int64_t i);                        // an integer worth trying as the value of a floor
void vc_witness(int64_t i);                     // an iteration whose share of a sum of non-negative terms matters
void vc_trusted(const char* what);
void vc_bounded(const char* what);
}
#define VC_CONTRACT(mode, name) extern "C" void vc_contract__##mode##__##name()
