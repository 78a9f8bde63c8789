// OpenCL built-ins for kernels that clang compiled for the host.
#include <cmath>
#include <csetjmp>
#include <cstdint>
#include <algorithm>
typedef float f2 __attribute__((ext_vector_type(2)));
typedef float f3 __attribute__((ext_vector_type(3)));
typedef float f4 __attribute__((ext_vector_type(4)));
static thread_local unsigned long GID, GSIZE;
extern "C" {
static const char *volatile UB = nullptr;
static thread_local jmp_buf JMP;
const char *host_ub() { return UB; }
jmp_buf *host_jmp() { return &JMP; }
#define U(n) void __ubsan_handle_##n##_minimal_abort() { UB = #n; longjmp(JMP, 1); }
U(type_mismatch) U(alignment_assumption) U(add_overflow) U(sub_overflow) U(mul_overflow) U(negate_overflow) U(divrem_overflow) U(shift_out_of_bounds)
U(out_of_bounds) U(builtin_unreachable) U(missing_return) U(vla_bound_not_positive) U(float_cast_overflow) U(load_invalid_value) U(invalid_builtin)
U(function_type_mismatch) U(implicit_conversion) U(nonnull_arg) U(nonnull_return) U(nullability_arg) U(nullability_return) U(pointer_overflow)
void host_set_global(unsigned long id, unsigned long n) { GID = id; GSIZE = n; }
#define W(n) unsigned long q_##n(unsigned) asm("_Z" #n "j");
unsigned long q_gid(unsigned) asm("_Z13get_global_idj");
unsigned long q_gid(unsigned) { return GID; }
unsigned long q_gsz(unsigned) asm("_Z15get_global_sizej");
unsigned long q_gsz(unsigned) { return GSIZE; }
unsigned long q_lid(unsigned) asm("_Z12get_local_idj");
unsigned long q_lid(unsigned) { return 0; }
unsigned long q_lsz(unsigned) asm("_Z14get_local_sizej");
unsigned long q_lsz(unsigned) { return 1; }
unsigned long q_grp(unsigned) asm("_Z12get_group_idj");
unsigned long q_grp(unsigned) { return GID; }
#define F1(n, s, e) float c_##n(float x) asm(s); float c_##n(float x) { return e; }
F1(cos, "_Z3cosf", std::cos(x)) F1(sin, "_Z3sinf", std::sin(x)) F1(tan, "_Z3tanf", std::tan(x))
F1(log, "_Z3logf", std::log(x)) F1(log2, "_Z4log2f", std::log2(x)) F1(log10, "_Z5log10f", std::log10(x)) F1(log1p, "_Z5log1pf", std::log1p(x))
F1(exp, "_Z3expf", std::exp(x)) F1(exp2, "_Z4exp2f", std::exp2(x)) F1(expm1, "_Z5expm1f", std::expm1(x))
F1(acos, "_Z4acosf", std::acos(x)) F1(asin, "_Z4asinf", std::asin(x)) F1(atan, "_Z4atanf", std::atan(x))
F1(sqrt, "_Z4sqrtf", std::sqrt(x)) F1(rsqrt, "_Z5rsqrtf", 1.0f / std::sqrt(x)) F1(fabs, "_Z4fabsf", std::fabs(x))
F1(floor, "_Z5floorf", std::floor(x)) F1(ceil, "_Z4ceilf", std::ceil(x)) F1(trunc, "_Z5truncf", std::trunc(x)) F1(rint, "_Z4rintf", std::rint(x)) F1(round, "_Z5roundf", std::round(x))
F1(sign, "_Z4signf", (x > 0) - (x < 0)) F1(radians, "_Z7radiansf", x * 0.017453292519943295f)
F1(ncos, "_Z10native_cosf", std::cos(x)) F1(nsin, "_Z10native_sinf", std::sin(x)) F1(nlog, "_Z10native_logf", std::log(x)) F1(nsqrt, "_Z11native_sqrtf", std::sqrt(x)) F1(nexp, "_Z10native_expf", std::exp(x))
F1(cospi, "_Z5cospif", std::cos(float(M_PI) * x)) F1(sinpi, "_Z5sinpif", std::sin(float(M_PI) * x))
#define F2(n, s, e) float c_##n(float x, float y) asm(s); float c_##n(float x, float y) { return e; }
F2(pow, "_Z3powff", std::pow(x, y)) F2(powr, "_Z4powrff", std::pow(x, y)) F2(fmax, "_Z4fmaxff", std::fmax(x, y)) F2(fmin, "_Z4fminff", std::fmin(x, y))
F2(max, "_Z3maxff", std::fmax(x, y)) F2(min, "_Z3minff", std::fmin(x, y)) F2(atan2, "_Z5atan2ff", std::atan2(x, y)) F2(hypot, "_Z5hypotff", std::hypot(x, y)) F2(fmod, "_Z4fmodff", std::fmod(x, y)) F2(copysign, "_Z8copysignff", std::copysign(x, y))
float c_pown(float x, int y) asm("_Z4pownfi");
float c_pown(float x, int y) { return std::pow(x, (float)y); }
int c_imax(int x, int y) asm("_Z3maxii");
int c_imax(int x, int y) { return std::max(x, y); }
int c_imin(int x, int y) asm("_Z3minii");
int c_imin(int x, int y) { return std::min(x, y); }
int c_iclamp(int x, int a, int b) asm("_Z5clampiii");
int c_iclamp(int x, int a, int b) { return std::min(std::max(x, a), b); }
float c_clamp(float x, float a, float b) asm("_Z5clampfff");
float c_clamp(float x, float a, float b) { return std::fmin(std::fmax(x, a), b); }
float c_mad(float x, float a, float b) asm("_Z3madfff");
float c_mad(float x, float a, float b) { return x * a + b; }
float c_fma(float x, float a, float b) asm("_Z3fmafff");
float c_fma(float x, float a, float b) { return std::fma(x, a, b); }
int c_cvt(float x) asm("_Z11convert_intf");
int c_cvt(float x) { return (int)x; }
int c_cvtrtz(float x) asm("_Z15convert_int_rtzf");
int c_cvtrtz(float x) { return (int)x; }
int c_cvtrtn(float x) asm("_Z15convert_int_rtnf");
int c_cvtrtn(float x) { return (int)std::floor(x); }
int c_isnan(float x) asm("_Z5isnanf");
int c_isnan(float x) { return std::isnan(x); }
int c_isfin(float x) asm("_Z8isfinitef");
int c_isfin(float x) { return std::isfinite(x); }
float c_dot3(f3 a, f3 b) asm("_Z3dotDv3_fS_");
float c_dot3(f3 a, f3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
float c_dot4(f4 a, f4 b) asm("_Z3dotDv4_fS_");
float c_dot4(f4 a, f4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
float c_len3(f3 a) asm("_Z6lengthDv3_f");
float c_len3(f3 a) { return std::sqrt(c_dot3(a, a)); }
float c_len4(f4 a) asm("_Z6lengthDv4_f");
float c_len4(f4 a) { return std::sqrt(c_dot4(a, a)); }
f3 c_nrm3(f3 a) asm("_Z9normalizeDv3_f");
f3 c_nrm3(f3 a) { return a / c_len3(a); }
#define AT(n, s) unsigned n(volatile unsigned *p) asm(s); unsigned n(volatile unsigned *p) { return __atomic_fetch_add(p, 1u, __ATOMIC_RELAXED); }
AT(a_inc, "_Z10atomic_incPU8CLglobalVj")
AT(a_inc2, "_Z8atom_incPU8CLglobalVj")
unsigned a_add(volatile unsigned *p, unsigned v) asm("_Z10atomic_addPU8CLglobalVjj");
unsigned a_add(volatile unsigned *p, unsigned v) { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }
}
