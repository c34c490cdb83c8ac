// Contract vocabulary.  The same harness is executed symbolically (all inputs, by /verif/vc) and natively (replay / random search).
#ifndef VC_H
#define VC_H
extern "C" {
double vc_real(const char* name);                          // any real
double vc_pos(const char* name);                           // any real > 0
double vc_real_in(const char* name, double lo, double hi); // any real in [lo,hi]
long vc_int(const char* name, long lo, long hi);           // any integer in [lo,hi]
long vc_size(const char* name, long lo, long hi);          // a container size (unbounded proof, or enumerated in bounded mode)
long vc_char(const char* name);                             // any byte, -128..127
int vc_bool(const char* name);
long vc_choose(const char* name, long n);                  // case split 0..n-1
void vc_unit(const char* name, double* out, long n);       // any unit vector
void vc_fill(const char* name, double* p, long n);
void vc_fill_pos(const char* name, double* p, long n);
void vc_fill_u32(const char* name, unsigned* p, long n, long lo, long hi);
void vc_name(const char* name, double* p, long n, int unit); // ghost: give computed values a name (proof hint, no effect)
void vc_assume(int c);                                     // requires
void vc_assert(int c, const char* label);                  // ensures
void vc_eq(double a, double b, const char* label);         // ensures a == b (exact over the reals; tolerance natively)
void vc_le(double a, double b, const char* label);
void vc_eqi(long a, long b, const char* label);
void vc_cover(const char* label);                          // must be reachable (vacuity guard)
void vc_allow_exit(int c);
void vc_allow_throw(int c);
int vc_native();
void* vc_stream(long id);
void vc_stream_done(long id);
double vc_same_fn(const char* name, double a, double b, double c);  // uninterpreted function
}
#ifdef VC_NATIVE
struct VcReg { VcReg(const char* n, void(*f)()); };
#define VC(name) extern "C" void vch_##name(); static VcReg vcreg_##name(#name, &vch_##name); extern "C" void vch_##name()
#else
#define VC(name) extern "C" void vch_##name()
#endif
#include <iosfwd>
std::ostream& vc_os(long id);
std::istream& vc_is(long id);
#ifndef VC_NATIVE
inline std::ostream& vc_os(long id) { return *static_cast<std::ostream*>(vc_stream(id)); }
inline std::istream& vc_is(long id) { return *static_cast<std::istream*>(vc_stream(id)); }
#endif
#endif
