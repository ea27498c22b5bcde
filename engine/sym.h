// Interface between a harness and either the symbolic runtime or the native replay runtime.
#pragma once
#include <cstddef>
#include <limits>
extern "C" {
int    symapi_int(const char *name, int lo, int hi);                 // any integer in [lo,hi]
bool   symapi_bool(const char *name);
double symapi_fix(const char *name, long lo, long hi, int scale);    // any k*2^-scale, lo<=k<=hi
double symapi_double(const char *name);                              // any finite double
float  symapi_float(const char *name);                               // any finite float
void   symapi_assume(bool c);
void   symapi_assert(bool c, const char *msg);
void   symapi_reach(const char *label);
void   symapi_observe(long v);
void   symapi_observe_d(double v);
long   symapi_concretize(long v);
double symapi_concretize_d(double v);
bool   symapi_and(bool a, bool b);
bool   symapi_or(bool a, bool b);
bool   symapi_not(bool a);
bool   symapi_close(double a, double b);                             // equal up to rounding (relative 1e-9)
double symapi_ite_d(bool c, double a, double b);
long   symapi_ite_l(bool c, long a, long b);
int    symapi_tier();
void   symapi_linear();                                              // fixed-point numbers as integers of linear arithmetic
void   symapi_register(const char *name, void (*f)());
void   symapi_dump(double);
}
#define HARNESS(name) static void h_##name(); static struct R_##name { R_##name() { symapi_register(#name, h_##name); } } r_##name; static void h_##name()
#define ASSERT(c, msg) symapi_assert((c), msg)
#define ASSUME(c) symapi_assume((c))
#define REACH(l) symapi_reach(l)

namespace sym {
inline int    integer(const char *n, int lo, int hi) { return symapi_int(n, lo, hi); }
inline bool   boolean(const char *n) { return symapi_bool(n); }
inline double fixed(const char *n, long lo, long hi, int scale = 0) { return symapi_fix(n, lo, hi, scale); }
// an integer in [lo,hi], explored value by value
inline int    choice(const char *n, int lo, int hi) { return static_cast<int>(symapi_concretize(symapi_int(n, lo, hi))); }
inline bool   flag(const char *n) { return symapi_concretize(symapi_int(n, 0, 1)) != 0; }
// formulas without forking
inline bool   both(bool a, bool b) { return symapi_and(a, b); }
inline bool   either(bool a, bool b) { return symapi_or(a, b); }
inline bool   close(double a, double b) { return symapi_close(a, b); }
inline bool   neg(bool a) { return symapi_not(a); }
inline bool   implies(bool a, bool b) { return symapi_or(symapi_not(a), b); }
inline bool   iff(bool a, bool b) { return symapi_or(symapi_and(a, b), symapi_and(symapi_not(a), symapi_not(b))); }
inline double ite(bool c, double a, double b) { return symapi_ite_d(c, a, b); }
inline long   ite(bool c, long a, long b) { return symapi_ite_l(c, a, b); }
inline int    ite(bool c, int a, int b) { return static_cast<int>(symapi_ite_l(c, a, b)); }
inline double min(double a, double b) { return symapi_ite_d(a < b, a, b); }
inline double max(double a, double b) { return symapi_ite_d(a < b, b, a); }
inline double abs(double a) { return symapi_ite_d(a < 0, -a, a); }
inline void   observe(double v) { symapi_observe_d(v); }
inline void   observe(float v) { symapi_observe_d(v); }
inline void   observe(long v) { symapi_observe(v); }
inline void   observe(unsigned long v) { symapi_observe(static_cast<long>(v)); }
inline void   observe(unsigned v) { symapi_observe(static_cast<long>(v)); }
inline void   observe(int v) { symapi_observe(v); }
inline void   observe(unsigned short v) { symapi_observe(v); }
inline void   observe(bool v) { symapi_observe(v ? 1L : 0L); }
inline bool   thorough() { return symapi_tier() != 0; }
}
