// Runtime of the symbolic executor: terms, memory of terms, path exploration, solver.
#include "ops.h"
#include <z3.h>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <exception>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <semaphore.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef __int128 i128;

extern "C" { u64 __symrt_args[256]; u64 __symrt_ret[64]; }

// ------------------------------------------------------------------------------------------
// shared state of all processes that explore paths
// ------------------------------------------------------------------------------------------
static const int MAXLAB = 64, MAXWAIT = 16384;
struct Shm {
  volatile int lock;
  int tokens;
  int nwait; int wait[MAXWAIT];       // stack of waiting slots
  int nfree; int freeslot[MAXWAIT];
  sem_t sem[MAXWAIT];
  u64 started, finished, paths, forks, branches, implied, quick, concretizations;
  u64 queries, sat, unsat, unknown, solver_ns;
  u64 asserts_trivial, asserts_solver, assumes_cut, assumes_pruned;
  u64 violations, incomplete, stop, samples, maxdepth, nodes, maxlive, live, procs_peak;
  int nlab; char lab[MAXLAB][64]; u64 labc[MAXLAB];
  char why[256];
};
static Shm *G;

static char outdir[512];
static double deadline;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define INC(x) __sync_fetch_and_add(&(x), 1)
static void lk() { while (__sync_lock_test_and_set(&G->lock, 1)) { while (G->lock) usleep(0); } }
static void ulk() { __sync_lock_release(&G->lock); }
static bool tryToken() { bool r = false; lk(); if (G->tokens > 0) { G->tokens--; r = true; } ulk(); return r; }
static void releaseToken() {
  lk();
  int s = -1;
  if (G->nwait > 0) s = G->wait[--G->nwait]; else G->tokens++;
  ulk();
  if (s >= 0) sem_post(&G->sem[s]);
}
static void waitToken() {
  lk();
  if (G->tokens > 0) { G->tokens--; ulk(); return; }
  if (G->nfree == 0) { ulk(); for (;;) { usleep(1000); if (tryToken()) return; } }
  int s = G->freeslot[--G->nfree];
  G->wait[G->nwait++] = s;
  ulk();
  for (;;) {
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 2;
    if (sem_timedwait(&G->sem[s], &t) == 0) break;
    if (now() > deadline + 20) { // a token was lost
      if (INC(G->incomplete) == 0) snprintf(G->why, sizeof G->why, "a process was lost");
      G->stop = 1; _exit(4);
    }
  }
  lk(); G->freeslot[G->nfree++] = s; ulk();
}

[[noreturn]] static void pathEnd(bool completed);
extern bool isRoot;
static void incomplete(const char *why) {
  if (INC(G->incomplete) == 0) { snprintf(G->why, sizeof G->why, "%s", why); }
  fprintf(stderr, "INCOMPLETE: %s\n", why);
  G->stop = 1;
  pathEnd(false);
}

// ------------------------------------------------------------------------------------------
// terms
// ------------------------------------------------------------------------------------------
enum Sort : u8 { S_BOOL, S_BV, S_FP };
enum { N_CONST = 200, N_VAR, N_ITE, N_NOT, N_EXTRACT, N_CONCAT, N_FEQ, N_FLT, N_FLE, N_FUNO, N_FROMBITS, N_BITS };
struct Node {
  u8 op; Sort sort; u8 w; bool fix; int8_t fact; // fact: 2 unknown
  bool mixed;                                     // ITE with arms that are no exact fixed-point numbers
  int scale;
  Node *k[3];
  u64 c;          // constant bits / variable number / extract offset
  i64 lo, hi;     // signed interval (BV: of the value, FP fix: of the mantissa)
  Z3_ast z;       // BV / Bool / FP term; for fix nodes the mantissa
  Z3_ast zf;      // FP term of a fix node
  u64 ev; u32 epoch; u32 id; u64 h; Node *next;
};
static Z3_context Z; static Z3_solver SOL;
static u32 epoch = 1; static u32 nodeCount = 0;
static const u32 HB = 1 << 16;
static Node **tab;
struct VarInfo { std::string name; Node *n; u64 val; char kind; int scale; };
static std::vector<VarInfo> vars;
static char *chunk; static size_t chunkLeft = 0;

static Node *newNode() {
  if (chunkLeft < sizeof(Node)) { chunk = (char *)malloc(1 << 18); chunkLeft = 1 << 18; }
  Node *n = (Node *)chunk; chunk += sizeof(Node); chunkLeft -= sizeof(Node);
  memset(n, 0, sizeof(Node));
  n->fact = 2; n->id = ++nodeCount;
  return n;
}
static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static u64 hashOf(u8 op, Sort s, u8 w, u64 c, Node *a, Node *b, Node *d) {
  u64 h = op * 131 + s * 7 + w; h = mix(h, c); h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, d ? d->id : 0); return h;
}
static Node *lookup(u8 op, Sort s, u8 w, u64 c, Node *a, Node *b, Node *d, u64 h) {
  for (Node *n = tab[h & (HB - 1)]; n; n = n->next)
    if (n->h == h && n->op == op && n->sort == s && n->w == w && n->c == c && n->k[0] == a && n->k[1] == b && n->k[2] == d) return n;
  return nullptr;
}
static Node *lookup(u8 op, Sort s, u8 w, u64 c, Node *a, Node *b = nullptr, Node *d = nullptr) { return lookup(op, s, w, c, a, b, d, hashOf(op, s, w, c, a, b, d)); }
static i64 smin(u8 w) { return w >= 64 ? INT64_MIN : -((i64)1 << (w - 1)); }
static i64 smaxv(u8 w) { return w >= 64 ? INT64_MAX : ((i64)1 << (w - 1)) - 1; }
static u64 maskw(u8 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, u8 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static double bits2d(u64 b, u8 w) { if (w == 32) { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 d2bits(double d, u8 w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 b; memcpy(&b, &d, 8); return b; }
static i64 fixLimit(u8 w) { return w == 32 ? ((i64)1 << 24) : ((i64)1 << 53); }

// exact fixed point form of a double, scale in [0,40]
static bool toFix(double d, i64 &m, int &s) {
  if (!(d == d) || std::isinf(d)) return false;
  if (std::fabs(d) > 9007199254740992.0) return false;
  s = 0;
  while (s <= 40 && d != std::floor(d)) { d *= 2; s++; if (std::fabs(d) > 9007199254740992.0) return false; }
  if (d != std::floor(d)) return false;
  m = (i64)d;
  return true;
}

static Node *raw(u8 op, Sort s, u8 w, u64 c = 0, Node *a = nullptr, Node *b = nullptr, Node *d = nullptr) {
  u64 h = hashOf(op, s, w, c, a, b, d);
  if (Node *n = lookup(op, s, w, c, a, b, d, h)) return n;
  Node *n = newNode();
  n->op = op; n->sort = s; n->w = w; n->c = c; n->k[0] = a; n->k[1] = b; n->k[2] = d; n->h = h;
  if (s == S_BV) { n->lo = smin(w); n->hi = smaxv(w); }
  n->next = tab[h & (HB - 1)]; tab[h & (HB - 1)] = n;
  return n;
}
static Node *cbv(u64 v, u8 w) { v &= maskw(w); Node *n = raw(N_CONST, S_BV, w, v); n->lo = n->hi = sx(v, w); return n; }
static Node *TRUE_, *FALSE_;
static Node *cbool(bool b) { return b ? TRUE_ : FALSE_; }
static Node *cint(u64 v, u8 w) { return w == 1 ? cbool(v & 1) : cbv(v, w); }
static Node *cfp(u64 bits, u8 w) {
  Node *n = raw(N_CONST, S_FP, w, bits);
  i64 m; int s;
  if (toFix(bits2d(bits, w), m, s)) { n->fix = true; n->scale = s; n->lo = n->hi = m; }
  return n;
}
static bool isC(Node *n) { return n->op == N_CONST; }
static Node *H(u64 s, u64 v, bool fp, u8 w) { if (s) return (Node *)s; return fp ? cfp(w == 32 ? (v & 0xffffffffu) : v, w) : cint(v, w); }

static Node *mkNot(Node *a);
static Node *mkIte(Node *c, Node *a, Node *b);
static Node *mkBin(unsigned op, Node *a, Node *b);
static Node *mkFcmp(unsigned nop, Node *a, Node *b);
static Node *mkUn(unsigned op, unsigned wo, Node *a);
static u64 evalN(Node *n);
static u64 concretizeNode(Node *n);
static bool forkOn(Node *b);

static void interval(Node *n) { // BV nodes
  if (n->sort != S_BV) return;
  u8 w = n->w;
  Node *a = n->k[0], *b = n->k[1];
  i128 lo = smin(w), hi = smaxv(w);
  auto fit = [&](i128 l, i128 h) { if (l >= smin(w) && h <= smaxv(w)) { lo = l; hi = h; } };
  switch (n->op) {
  case OP_ADD: fit((i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
  case OP_SUB: fit((i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
  case OP_MUL: { i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi}; i128 l = p[0], h = p[0]; for (auto x : p) { if (x < l) l = x; if (x > h) h = x; } fit(l, h); break; }
  case OP_SHL: if (isC(b) && b->c < 62) fit((i128)a->lo * ((i128)1 << b->c), (i128)a->hi * ((i128)1 << b->c)); break;
  case OP_ASHR: if (isC(b) && b->c < 64) { lo = a->lo >> b->c; hi = a->hi >> b->c; } break;
  case OP_LSHR: if (isC(b) && b->c < 64 && b->c > 0) { if (a->lo >= 0) { lo = a->lo >> b->c; hi = a->hi >> b->c; } else { lo = 0; hi = (i64)(maskw(w) >> b->c); } } break;
  case OP_ZEXT: if (a->sort == S_BOOL) { lo = 0; hi = 1; } else if (a->lo >= 0) { lo = a->lo; hi = a->hi; } else { lo = 0; hi = (i64)maskw(a->w); } break;
  case OP_SEXT: if (a->sort == S_BOOL) { lo = -1; hi = 0; } else { lo = a->lo; hi = a->hi; } break;
  case OP_TRUNC: fit(a->lo, a->hi); break;
  case OP_AND:
    if (a->lo >= 0 && b->lo >= 0) { lo = 0; hi = a->hi < b->hi ? a->hi : b->hi; }
    else if (a->lo >= 0) { lo = 0; hi = a->hi; } else if (b->lo >= 0) { lo = 0; hi = b->hi; }
    break;
  case OP_OR: case OP_XOR: if (a->lo >= 0 && b->lo >= 0) { i64 m = a->hi > b->hi ? a->hi : b->hi; u64 x = 1; while (x && (i64)(x - 1) < m) x <<= 1; lo = 0; hi = x ? (i64)(x - 1) : INT64_MAX; } break;
  case OP_UREM: if (isC(b) && b->lo > 0) { lo = 0; hi = b->lo - 1; if (a->lo >= 0 && a->hi < hi) hi = a->hi; } break;
  case OP_SREM: if (isC(b) && b->lo > 0) { hi = a->hi < 0 ? 0 : b->lo - 1; lo = a->lo >= 0 ? 0 : -(b->lo - 1); } break;
  case OP_UDIV: case OP_SDIV: if (isC(b) && b->lo > 0 && (n->op == OP_SDIV || a->lo >= 0)) { lo = a->lo / b->lo; hi = a->hi / b->lo; } break;
  case N_ITE: lo = n->k[1]->lo < n->k[2]->lo ? n->k[1]->lo : n->k[2]->lo; hi = n->k[1]->hi > n->k[2]->hi ? n->k[1]->hi : n->k[2]->hi; break;
  default: return;
  }
  n->lo = (i64)lo; n->hi = (i64)hi;
}
static Node *rawBV(u8 op, u8 w, Node *a, Node *b = nullptr, Node *d = nullptr, u64 c = 0) { Node *n = raw(op, S_BV, w, c, a, b, d); if (n->op != N_CONST && n->op != N_VAR) interval(n); return n; }

static u64 foldBV(unsigned op, u64 x, u64 y, u8 w, bool &ok) {
  u64 m = maskw(w); x &= m; y &= m; i64 sxv = sx(x, w), syv = sx(y, w); ok = true;
  switch (op) {
  case OP_ADD: return (x + y) & m; case OP_SUB: return (x - y) & m; case OP_MUL: return (x * y) & m;
  case OP_UDIV: if (!y) { ok = false; return 0; } return x / y;
  case OP_SDIV: if (!y || (syv == -1 && sxv == smin(w))) { ok = false; return 0; } return (u64)(sxv / syv) & m;
  case OP_UREM: if (!y) { ok = false; return 0; } return x % y;
  case OP_SREM: if (!y || (syv == -1 && sxv == smin(w))) { ok = false; return 0; } return (u64)(sxv % syv) & m;
  case OP_SHL: return y >= w ? 0 : (x << y) & m; case OP_LSHR: return y >= w ? 0 : x >> y;
  case OP_ASHR: return y >= w ? (sxv < 0 ? m : 0) : (u64)(sxv >> y) & m;
  case OP_AND: return x & y; case OP_OR: return x | y; case OP_XOR: return x ^ y;
  }
  ok = false; return 0;
}

static Node *mkAnd(Node *a, Node *b) {
  if (a == FALSE_ || b == FALSE_) return FALSE_;
  if (a == TRUE_) return b;
  if (b == TRUE_ || a == b) return a;
  if (a->op == N_NOT && a->k[0] == b) return FALSE_;
  if (b->op == N_NOT && b->k[0] == a) return FALSE_;
  if (a->id > b->id) std::swap(a, b);
  return raw(OP_AND, S_BOOL, 1, 0, a, b);
}
static Node *mkNot(Node *a) {
  if (a == TRUE_) return FALSE_;
  if (a == FALSE_) return TRUE_;
  if (a->op == N_NOT) return a->k[0];
  return raw(N_NOT, S_BOOL, 1, 0, a);
}
static Node *mkOr(Node *a, Node *b) { return mkNot(mkAnd(mkNot(a), mkNot(b))); }
static Node *mkXor(Node *a, Node *b) {
  if (isC(a)) return a == TRUE_ ? mkNot(b) : b;
  if (isC(b)) return b == TRUE_ ? mkNot(a) : a;
  if (a == b) return FALSE_;
  bool neg = false;
  if (a->op == N_NOT) { a = a->k[0]; neg = !neg; }
  if (b->op == N_NOT) { b = b->k[0]; neg = !neg; }
  if (a == b) return cbool(neg);
  if (a->id > b->id) std::swap(a, b);
  Node *n = raw(OP_XOR, S_BOOL, 1, 0, a, b);
  return neg ? mkNot(n) : n;
}
static Node *bool2bv(Node *b, u8 w) { if (isC(b)) return cbv(b == TRUE_, w); return rawBV(OP_ZEXT, w, b); }

static Node *mkEq(Node *a, Node *b);
static Node *mkSlt(Node *a, Node *b), *mkUlt(Node *a, Node *b);

static Node *mkIte(Node *c, Node *a, Node *b) {
  if (c == TRUE_ || a == b) return a;
  if (c == FALSE_) return b;
  if (c->fact != 2) return c->fact ? a : b;
  if (c->op == N_NOT) return mkIte(c->k[0], b, a);
  if (a->sort == S_BOOL) {
    if (a == TRUE_ && b == FALSE_) return c;
    if (a == FALSE_ && b == TRUE_) return mkNot(c);
    if (a == TRUE_) return mkOr(c, b);
    if (a == FALSE_) return mkAnd(mkNot(c), b);
    if (b == TRUE_) return mkOr(mkNot(c), a);
    if (b == FALSE_) return mkAnd(c, a);
    return raw(N_ITE, S_BOOL, 1, 0, c, a, b);
  }
  if (a->op == N_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == N_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->sort == S_BV) {
    if (isC(a) && isC(b)) {
      if (a->c == 1 && b->c == 0) return bool2bv(c, a->w);
      if (a->c == 0 && b->c == 1) return bool2bv(mkNot(c), a->w);
    }
    if (a->op == N_BITS && b->op == N_BITS) return raw(N_BITS, S_BV, a->w, 0, mkIte(c, a->k[0], b->k[0]));
    if (a->op == N_BITS && isC(b)) return raw(N_BITS, S_BV, a->w, 0, mkIte(c, a->k[0], cfp(b->c, a->w)));
    if (b->op == N_BITS && isC(a)) return raw(N_BITS, S_BV, a->w, 0, mkIte(c, cfp(a->c, a->w), b->k[0]));
    return rawBV(N_ITE, a->w, c, a, b);
  }
  Node *n = raw(N_ITE, S_FP, a->w, 0, c, a, b);
  if (a->fix && b->fix) {
    int s = a->scale > b->scale ? a->scale : b->scale;
    i128 al = (i128)a->lo << (s - a->scale), ah = (i128)a->hi << (s - a->scale), bl = (i128)b->lo << (s - b->scale), bh = (i128)b->hi << (s - b->scale);
    i128 lo = al < bl ? al : bl, hi = ah > bh ? ah : bh;
    if (lo > -fixLimit(a->w) && hi < fixLimit(a->w)) { n->fix = true; n->scale = s; n->lo = (i64)lo; n->hi = (i64)hi; }
  }
  if (!n->fix) n->mixed = true;
  return n;
}
static bool isMixed(Node *a) { return a->op == N_ITE && a->mixed; }

// a fixed-point node m * 2^-s given by operation op on fixed-point children
static Node *fixNode(u8 op, u8 w, Node *a, Node *b, i128 lo, i128 hi, int s, u64 c = 0) {
  if (lo <= -(i128)fixLimit(w) || hi >= (i128)fixLimit(w) || s > 45) return nullptr;
  Node *n = raw(op, S_FP, w, c, a, b);
  n->fix = true; n->scale = s; n->lo = (i64)lo; n->hi = (i64)hi;
  return n;
}
static double foldFP(unsigned op, double x, double y, u8 w) {
  if (w == 32) {
    float a = (float)x, b = (float)y;
    switch (op) { case OP_FADD: return a + b; case OP_FSUB: return a - b; case OP_FMUL: return a * b; case OP_FDIV: return a / b; case OP_FREM: case OP_FMOD: return fmodf(a, b); case OP_POW: return powf(a, b); case OP_ATAN2: return atan2f(a, b); case OP_HYPOT: return hypotf(a, b); case OP_NEXTAFTER: return nextafterf(a, b); }
  }
  switch (op) { case OP_FADD: return x + y; case OP_FSUB: return x - y; case OP_FMUL: return x * y; case OP_FDIV: return x / y; case OP_FREM: case OP_FMOD: return fmod(x, y); case OP_POW: return pow(x, y); case OP_ATAN2: return atan2(x, y); case OP_HYPOT: return hypot(x, y); case OP_NEXTAFTER: return nextafter(x, y); }
  return NAN;
}
static double foldF1(unsigned op, double x, u8 w) {
#define F1(o, fn) case o: return w == 32 ? (double)fn##f((float)x) : fn(x);
  switch (op) {
    F1(OP_EXP, exp) F1(OP_EXP2, exp2) F1(OP_LOG, log) F1(OP_LOG2, log2) F1(OP_LOG10, log10) F1(OP_SIN, sin) F1(OP_COS, cos) F1(OP_TAN, tan)
    F1(OP_ATAN, atan) F1(OP_ACOS, acos) F1(OP_ASIN, asin) F1(OP_CBRT, cbrt) F1(OP_EXPM1, expm1) F1(OP_LOG1P, log1p) F1(OP_TANH, tanh) F1(OP_ERF, erf)
    F1(OP_TGAMMA, tgamma) F1(OP_LGAMMA, lgamma) F1(OP_SQRT, sqrt) F1(OP_FLOOR, floor) F1(OP_CEIL, ceil) F1(OP_FTRUNC, trunc) F1(OP_ROUND, round) F1(OP_RINT, rint) F1(OP_FABS, fabs)
  case OP_FNEG: return -x;
  }
  return NAN;
}
static void unsupportedOp(const char *what) { char b[200]; snprintf(b, sizeof b, "unsupported: %s", what); incomplete(b); }

static Node *mkFneg(Node *a) {
  if (isC(a)) return cfp(d2bits(-bits2d(a->c, a->w), a->w), a->w);
  if (a->op == OP_FNEG) return a->k[0];
  if (isMixed(a)) return mkIte(a->k[0], mkFneg(a->k[1]), mkFneg(a->k[2]));
  if (a->fix) return fixNode(OP_FNEG, a->w, a, nullptr, -(i128)a->hi, -(i128)a->lo, a->scale);
  return raw(OP_FNEG, S_FP, a->w, 0, a);
}
static Node *mkFabs(Node *a) {
  if (isC(a)) return cfp(d2bits(std::fabs(bits2d(a->c, a->w)), a->w), a->w);
  if (a->op == OP_FABS || a->op == OP_SQRT) return a;
  if (a->op == OP_FNEG) return mkFabs(a->k[0]);
  if (isMixed(a)) return mkIte(a->k[0], mkFabs(a->k[1]), mkFabs(a->k[2]));
  if (a->fix) {
    if (a->lo >= 0) return a;
    if (a->hi <= 0) return mkFneg(a);
    i128 h = -(i128)a->lo > a->hi ? -(i128)a->lo : a->hi;
    return fixNode(OP_FABS, a->w, a, nullptr, 0, h, a->scale);
  }
  return raw(OP_FABS, S_FP, a->w, 0, a);
}
static bool pow2c(Node *b, int &e) { // constant +-2^e
  if (!isC(b)) return false;
  double d = bits2d(b->c, b->w); if (d == 0 || std::isinf(d) || d != d) return false;
  int ex; double f = frexp(std::fabs(d), &ex); if (f != 0.5) return false; e = ex - 1; return true;
}
static Node *mkFarith(unsigned op, Node *a, Node *b) {
  u8 w = a->w;
  if (isC(a) && isC(b)) return cfp(d2bits(foldFP(op, bits2d(a->c, w), bits2d(b->c, w), w), w), w);
  if (isMixed(a)) return mkIte(a->k[0], mkFarith(op, a->k[1], b), mkFarith(op, a->k[2], b));
  if (isMixed(b)) return mkIte(b->k[0], mkFarith(op, a, b->k[1]), mkFarith(op, a, b->k[2]));
  if (op == OP_FSUB && b->fix && a->fix && a == b) return cfp(d2bits(0.0, w), w);
  if (a->fix && b->fix) {
    int s = a->scale > b->scale ? a->scale : b->scale;
    auto al = [&](Node *x, i64 v) { return (i128)v << (s - x->scale); };
    if (op == OP_FADD || op == OP_FSUB) {
      if (isC(b) && b->lo == 0) return a;
      if (isC(a) && a->lo == 0) return op == OP_FADD ? b : mkFneg(b);
      if (op == OP_FSUB && a->op == OP_FADD && a->k[1] == b) return a->k[0];
      if (op == OP_FSUB && a->op == OP_FADD && a->k[0] == b) return a->k[1];
      if (op == OP_FADD && a->id > b->id) std::swap(a, b);
      Node *n = op == OP_FADD ? fixNode(OP_FADD, w, a, b, al(a, a->lo) + al(b, b->lo), al(a, a->hi) + al(b, b->hi), s)
                              : fixNode(OP_FSUB, w, a, b, al(a, a->lo) - al(b, b->hi), al(a, a->hi) - al(b, b->lo), s);
      if (n) return n;
    }
    if (op == OP_FMUL) {
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { double d = bits2d(b->c, w); if (d == 1) return a; if (d == -1) return mkFneg(a); if (d == 0) return cfp(d2bits(0.0, w), w); }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi}; i128 l = p[0], h = p[0];
      for (auto x : p) { if (x < l) l = x; if (x > h) h = x; }
      if (a == b) { i128 m = (i128)a->lo * a->lo, q = (i128)a->hi * a->hi; h = m > q ? m : q; l = (a->lo <= 0 && a->hi >= 0) ? 0 : (m < q ? m : q); }
      if (Node *n = fixNode(OP_FMUL, w, a, b, l, h, a->scale + b->scale)) return n;
    }
    int e;
    if (op == OP_FDIV && pow2c(b, e)) {
      double d = 1.0 / bits2d(b->c, w);
      if (e > -30 && e < 30) return mkFarith(OP_FMUL, a, cfp(d2bits(d, w), w));
    }
    if (op == OP_FDIV && isC(a) && a->lo == 0 && (b->lo > 0 || b->hi < 0)) return a;
  }
  if (op == OP_FADD || op == OP_FSUB) { // a huge constant absorbs a bounded term; infinity and NaN absorb every finite one
    for (int side = 0; side < 2; ++side) {
      Node *c = side ? a : b, *x = side ? b : a;
      if (!isC(c) || !x->fix || isC(x)) continue;
      double d = bits2d(c->c, w);
      bool absorbs = d != d || std::isinf(d);
      if (!absorbs && d != 0) {
        int ex; frexp(d, &ex); int ulp = ex - (w == 32 ? 24 : 53); // spacing of the numbers just above half of this binade
        long double m = std::max(fabsl((long double)x->lo), fabsl((long double)x->hi));
        absorbs = ldexpl(m, -x->scale) < ldexpl(1.0L, ulp - 2);
      }
      if (absorbs) return (op == OP_FSUB && side == 0) ? mkFneg(c) : c;
    }
  }
  if (op == OP_FADD && a->id > b->id) std::swap(a, b);
  if (op == OP_FMUL && a->id > b->id) std::swap(a, b);
  if (op == OP_FMUL && isC(b) && bits2d(b->c, w) == 1) return a;
  if (op == OP_FMUL && isC(a) && bits2d(a->c, w) == 1) return b;
  if (op == OP_FDIV && isC(b) && bits2d(b->c, w) == 1) return a;
  if (op == OP_FSUB && isC(b) && d2bits(bits2d(b->c, w), w) == 0) return a;
  if (op == OP_FREM || op == OP_FMOD || op == OP_POW || op == OP_ATAN2 || op == OP_HYPOT || op == OP_NEXTAFTER) {
    if (op == OP_POW && isC(b)) {
      double e = bits2d(b->c, w);
      if (e == 1) return a;
      if (e == 0) return cfp(d2bits(1.0, w), w);
      if (a->fix && e > 0 && e <= 8 && e == std::floor(e)) { // exact as long as the product is representable
        Node *r = a; bool ok = true;
        for (int i = 1; i < (int)e && ok; ++i) { r = mkFarith(OP_FMUL, r, a); ok = r->fix || isC(r); }
        if (ok) return r;
      }
      if (e == 0.5 && a->fix && a->lo >= 0) return mkUn(OP_SQRT, w, a);
    }
    double x = bits2d(concretizeNode(a), w), y = bits2d(concretizeNode(b), w);
    return cfp(d2bits(foldFP(op, x, y, w), w), w);
  }
  return raw(op, S_FP, w, 0, a, b);
}

// comparison of a fix node with a constant threshold t (a double): m*2^-s < t
static Node *fixCmpConst(unsigned nop, Node *a, double t, bool constLeft) {
  // nop in {FLT, FLE, FEQ}; constLeft: t nop a
  if (t != t) return FALSE_;
  long double T = ldexpl((long double)t, a->scale);
  if (std::isinf(t) || fabsl(T) > 4.0e18L) {
    if (nop == N_FEQ) return FALSE_;
    bool big = t > 0;
    return cbool(constLeft ? !big : big);
  }
  i64 fl = (i64)floorl(T); bool exact = (long double)fl == T;
  // m <= bound  form
  auto le = [&](i64 b) -> Node * { // m <= b
    if (a->hi <= b) return TRUE_;
    if (a->lo > b) return FALSE_;
    // canonical: NOT (b*2^-s < a)
    return mkNot(raw(N_FLT, S_BOOL, 1, 0, cfp(d2bits(ldexp((double)b, -a->scale), 64), 64), a));
  };
  auto lt = [&](i64 b) -> Node * { // m < b
    if (a->hi < b) return TRUE_;
    if (a->lo >= b) return FALSE_;
    return raw(N_FLT, S_BOOL, 1, 0, a, cfp(d2bits(ldexp((double)b, -a->scale), 64), 64));
  };
  if (nop == N_FEQ) {
    if (!exact || fl < a->lo || fl > a->hi) return FALSE_;
    if (a->lo == a->hi) return TRUE_;
    Node *c = cfp(d2bits(ldexp((double)fl, -a->scale), 64), 64);
    Node *x = a, *y = c; if (x->id > y->id) std::swap(x, y);
    return raw(N_FEQ, S_BOOL, 1, 0, x, y);
  }
  if (!constLeft) { // a < t : m < T ; a <= t : m <= T
    if (nop == N_FLT) return exact ? lt(fl) : le(fl);
    return le(fl);
  }
  // t < a : not (a <= t) ; t <= a : not (a < t)
  if (nop == N_FLT) return mkNot(le(fl));
  return mkNot(exact ? lt(fl) : le(fl));
}
static i64 sqrtFirst(Node *x, double c, bool strict) { // smallest m in [lo,hi+1] with sqrt(m 2^-s) >= c (or > c)
  i64 l = x->lo < 0 ? 0 : x->lo, h = x->hi + 1;
  while (l < h) { i64 m = l + (h - l) / 2; double v = foldF1(OP_SQRT, ldexp((double)m, -x->scale), x->w); bool ok = strict ? v > c : v >= c; if (ok) h = m; else l = m + 1; }
  return l;
}
static bool small50(Node *a, int s) { i128 l = (i128)a->lo << (s - a->scale), h = (i128)a->hi << (s - a->scale); i128 L = (i128)1 << 50; return l > -L && h < L; }
// a = n / d with d > 0 (d == nullptr: 1) and mantissas so small that two different
// quotients never round to the same number
static bool asFrac(Node *a, Node *&n, Node *&d) {
  i64 L = a->w == 64 ? (i64)1 << 24 : (i64)1 << 10;
  auto small = [&](Node *x) { return x->fix && x->lo > -L && x->hi < L; };
  if (small(a)) { n = a; d = nullptr; return true; }
  if (a->op != OP_FDIV || !small(a->k[0]) || !small(a->k[1])) return false;
  n = a->k[0]; d = a->k[1];
  if (d->hi < 0) { n = mkFneg(n); d = mkFneg(d); }
  return (n->fix || isC(n)) && d->lo > 0;
}
static Node *mkFcmp(unsigned nop, Node *a, Node *b) {
  u8 w = a->w;
  if (isC(a) && isC(b)) {
    double x = bits2d(a->c, w), y = bits2d(b->c, w);
    switch (nop) { case N_FEQ: return cbool(x == y); case N_FLT: return cbool(x < y); case N_FLE: return cbool(x <= y); default: return cbool(x != x || y != y); }
  }
  if (isMixed(a)) return mkIte(a->k[0], mkFcmp(nop, a->k[1], b), mkFcmp(nop, a->k[2], b));
  if (isMixed(b)) return mkIte(b->k[0], mkFcmp(nop, a, b->k[1]), mkFcmp(nop, a, b->k[2]));
  auto noNaN = [](Node *n) { return n->fix || (isC(n) && !std::isnan(bits2d(n->c, n->w))) || (n->op == OP_SQRT && n->k[0]->fix && n->k[0]->lo >= 0) || (n->op == OP_FDIV && n->k[0]->fix && n->k[1]->fix && (n->k[1]->lo > 0 || n->k[1]->hi < 0)); };
  if (nop == N_FUNO) {
    if (noNaN(a) && noNaN(b)) return FALSE_;
    if (a->id > b->id) std::swap(a, b);
    return raw(N_FUNO, S_BOOL, 1, 0, a, b);
  }
  if (a == b && noNaN(a)) return cbool(nop != N_FLT);
  if (a->fix && b->fix && !isC(a) && !isC(b)) {
    int s = a->scale > b->scale ? a->scale : b->scale;
    i128 al = (i128)a->lo << (s - a->scale), ah = (i128)a->hi << (s - a->scale), bl = (i128)b->lo << (s - b->scale), bh = (i128)b->hi << (s - b->scale);
    if (nop == N_FLE) return mkNot(mkFcmp(N_FLT, b, a));
    if (nop == N_FLT) { if (ah < bl) return TRUE_; if (al >= bh) return FALSE_; return raw(N_FLT, S_BOOL, 1, 0, a, b); }
    if (ah < bl || bh < al) return FALSE_;
    if (a->id > b->id) std::swap(a, b);
    return raw(N_FEQ, S_BOOL, 1, 0, a, b);
  }
  if (a->fix && isC(b)) return fixCmpConst(nop, a, bits2d(b->c, w), false);
  if (b->fix && isC(a)) return fixCmpConst(nop, b, bits2d(a->c, w), true);
  bool sa = a->op == OP_SQRT && a->k[0]->fix && a->k[0]->lo >= 0, sb = b->op == OP_SQRT && b->k[0]->fix && b->k[0]->lo >= 0;
  if (w == 64 && sa && sb) {
    Node *x = a->k[0], *y = b->k[0]; int s = x->scale > y->scale ? x->scale : y->scale;
    if (small50(x, s) && small50(y, s)) return mkFcmp(nop, x, y);
  }
  if (sa && isC(b)) { // sqrt is monotone: the threshold is found on the mantissa
    Node *x = a->k[0]; double c = bits2d(b->c, w);
    i64 t1 = sqrtFirst(x, c, false), t2 = sqrtFirst(x, c, true);
    auto ltm = [&](i64 t) { return fixCmpConst(N_FLT, x, ldexp((double)t, -x->scale), false); };
    if (nop == N_FLT) return ltm(t1);
    if (nop == N_FLE) return ltm(t2);
    return mkAnd(mkNot(ltm(t1)), ltm(t2));
  }
  if (sb && isC(a)) {
    Node *x = b->k[0]; double c = bits2d(a->c, w);
    i64 t1 = sqrtFirst(x, c, false), t2 = sqrtFirst(x, c, true);
    auto ltm = [&](i64 t) { return fixCmpConst(N_FLT, x, ldexp((double)t, -x->scale), false); };
    if (nop == N_FLT) return mkNot(ltm(t2)); // c < sqrt
    if (nop == N_FLE) return mkNot(ltm(t1));
    return mkAnd(mkNot(ltm(t1)), ltm(t2));
  }
  if (w == 64 && ((sa && b->fix) || (sb && a->fix))) {
    Node *x = sa ? a->k[0] : b->k[0], *y = sa ? b : a;
    Node *yy = mkFarith(OP_FMUL, y, y);
    int s = x->scale > yy->scale ? x->scale : yy->scale;
    if (yy->fix && small50(x, s) && small50(yy, s)) {
      Node *zero = cfp(d2bits(0.0, w), w);
      Node *neg = mkFcmp(N_FLT, y, zero);
      if (nop == N_FEQ) return mkAnd(mkNot(neg), mkFcmp(N_FEQ, x, yy));
      if (sa) return mkAnd(mkNot(neg), mkFcmp(nop, x, yy));      // sqrt(x) < y
      return mkOr(neg, mkFcmp(nop, yy, x));                      // y < sqrt(x)
    }
  }
  { // quotients of small numbers: rounding keeps different rationals apart and in order
    Node *an, *ad, *bn, *bd;
    if (asFrac(a, an, ad) && asFrac(b, bn, bd) && (ad || bd)) {
      Node *l = bd ? mkFarith(OP_FMUL, an, bd) : an, *r = ad ? mkFarith(OP_FMUL, bn, ad) : bn;
      if ((l->fix || isC(l)) && (r->fix || isC(r))) return mkFcmp(nop, l, r);
    }
  }
  if (nop == N_FEQ && a->id > b->id) std::swap(a, b);
  return raw(nop, S_BOOL, 1, 0, a, b);
}

// equality up to rounding, where it can be stated exactly; otherwise nullptr
static Node *closeNode(Node *a, Node *b) {
  if (isMixed(a)) { Node *x = closeNode(a->k[1], b), *y = closeNode(a->k[2], b); return x && y ? mkIte(a->k[0], x, y) : nullptr; }
  if (isMixed(b)) { Node *x = closeNode(a, b->k[1]), *y = closeNode(a, b->k[2]); return x && y ? mkIte(b->k[0], x, y) : nullptr; }
  if (a == b) return TRUE_;
  if (isC(a) && isC(b)) {
    double x = bits2d(a->c, a->w), y = bits2d(b->c, b->w);
    return cbool(x == y || std::fabs(x - y) <= 1e-9 * (1 + std::max(std::fabs(x), std::fabs(y))));
  }
  auto root = [](Node *n) { return n->op == OP_SQRT && n->k[0]->fix && n->k[0]->lo >= 0; };
  Node *an, *ad, *bn, *bd;
  if (isC(a)) std::swap(a, b);
  if (isC(b) && (a->fix || root(a))) {
    double v = bits2d(b->c, b->w);
    if (v != v || std::isinf(v)) return FALSE_;
    double t = 1e-9 * (1 + std::fabs(v));
    return mkAnd(mkFcmp(N_FLE, cfp(d2bits(v - t, a->w), a->w), a), mkFcmp(N_FLE, a, cfp(d2bits(v + t, a->w), a->w)));
  }
  if (a->fix && b->fix) return mkFcmp(N_FEQ, a, b);
  if (a->w == 64 && (root(a) || a->fix) && (root(b) || b->fix)) return mkFcmp(N_FEQ, a, b);
  if (asFrac(a, an, ad) && asFrac(b, bn, bd)) return mkFcmp(N_FEQ, a, b);
  return nullptr;
}

static Node *mkExtract(Node *a, unsigned lo, u8 w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return cbv(a->c >> lo, w);
  if (a->op == N_EXTRACT) return mkExtract(a->k[0], lo + (unsigned)a->c, w);
  if (a->op == N_CONCAT) {
    u8 lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
  }
  if (a->op == OP_ZEXT) {
    if (a->k[0]->sort == S_BOOL) return lo == 0 ? bool2bv(a->k[0], w) : cbv(0, w);
    if (lo >= a->k[0]->w) return cbv(0, w);
    if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
    if (lo == 0) return rawBV(OP_ZEXT, w, a->k[0]);
  }
  if (a->op == OP_SEXT && a->k[0]->sort != S_BOOL) {
    if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
    if (lo == 0 && w > a->k[0]->w) return rawBV(OP_SEXT, w, a->k[0]);
  }
  if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0) return rawBV(OP_TRUNC, w, a);
  return raw(N_EXTRACT, S_BV, w, lo, a);
}
static Node *mkConcat(Node *hi, Node *lo) {
  if (isC(hi) && isC(lo)) return cbv((hi->c << lo->w) | lo->c, hi->w + lo->w);
  auto base = [](Node *n, unsigned &o) { if (n->op == N_EXTRACT) { o = (unsigned)n->c; return n->k[0]; } if (n->op == OP_TRUNC) { o = 0; return n->k[0]; } o = 0; return n; };
  unsigned oh, ol; Node *bh = base(hi, oh), *bl = base(lo, ol);
  if (bh == bl && oh == ol + lo->w) return mkExtract(bh, ol, hi->w + lo->w);
  if (isC(hi) && hi->c == 0) { return rawBV(OP_ZEXT, hi->w + lo->w, lo); }
  return raw(N_CONCAT, S_BV, hi->w + lo->w, 0, hi, lo);
}
static Node *toBV(Node *n, u8 w) { // value as w-bit integer with the same bits
  if (n->sort == S_BOOL) return bool2bv(n, w);
  if (n->sort == S_FP) {
    if (isC(n)) return cbv(n->c, n->w);
    if (n->op == N_FROMBITS) return n->k[0];
    return raw(N_BITS, S_BV, n->w, 0, n);
  }
  return n;
}
static Node *toFP(Node *n) {
  if (n->sort == S_FP) return n;
  if (isC(n)) return cfp(n->c, n->w);
  if (n->op == N_BITS) return n->k[0];
  if (n->op == N_ITE) {
    Node *x = n->k[1], *y = n->k[2];
    if ((isC(x) || x->op == N_BITS || x->op == N_ITE) && (isC(y) || y->op == N_BITS || y->op == N_ITE)) return mkIte(n->k[0], toFP(x), toFP(y));
  }
  return raw(N_FROMBITS, S_FP, n->w, 0, n);
}
static Node *mkZext(Node *a, u8 w) {
  if (a->sort == S_BOOL) return bool2bv(a, w);
  if (isC(a)) return cbv(a->c, w);
  if (a->op == OP_ZEXT) return a->k[0]->sort == S_BOOL ? bool2bv(a->k[0], w) : rawBV(OP_ZEXT, w, a->k[0]);
  if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return rawBV(OP_ZEXT, w, a);
}
static Node *mkSext(Node *a, u8 w) {
  if (a->sort == S_BOOL) return mkIte(a, cbv(~0ull, w), cbv(0, w));
  if (isC(a)) return cbv((u64)sx(a->c, a->w), w);
  if (a->op == OP_SEXT) return rawBV(OP_SEXT, w, a->k[0]);
  if (a->op == OP_ZEXT && a->k[0]->w < a->w) return mkZext(a->k[0], w);
  if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return rawBV(OP_SEXT, w, a);
}
static Node *mkEq(Node *a, Node *b) {
  if (a == b) return TRUE_;
  if (a->sort == S_BOOL) return mkNot(mkXor(a, b));
  if (isC(a) && isC(b)) return cbool(a->c == b->c);
  if (a->hi < b->lo || b->hi < a->lo) return FALSE_;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->op == OP_ZEXT) {
      Node *x = a->k[0];
      if (x->sort == S_BOOL) return b->c == 0 ? mkNot(x) : b->c == 1 ? x : FALSE_;
      if (b->c > maskw(x->w)) return FALSE_;
      return mkEq(x, cbv(b->c, x->w));
    }
    if (a->op == OP_SEXT) { Node *x = a->k[0]; if (b->lo < smin(x->w) || b->lo > smaxv(x->w)) return FALSE_; return mkEq(x, cbv(b->c, x->w)); }
    if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], cbool(a->k[1]->c == b->c), cbool(a->k[2]->c == b->c));
    if ((a->op == OP_ADD) && isC(a->k[1])) return mkEq(a->k[0], cbv(b->c - a->k[1]->c, a->w));
    if (a->op == OP_XOR && isC(a->k[1])) return mkEq(a->k[0], cbv(b->c ^ a->k[1]->c, a->w));
  }
  if ((a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->sort == b->k[0]->sort && a->k[0]->w == b->k[0]->w) ||
      (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w)) return mkEq(a->k[0], b->k[0]);
  if (a->id > b->id) std::swap(a, b);
  return raw(OP_EQ, S_BOOL, 1, 0, a, b);
}
static Node *mkSlt(Node *a, Node *b) {
  if (a->sort == S_BOOL) return mkAnd(a, mkNot(b)); // true is -1
  if (a == b) return FALSE_;
  if (a->hi < b->lo) return TRUE_;
  if (a->lo >= b->hi) return FALSE_;
  if (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w) return mkSlt(a->k[0], b->k[0]);
  if (a->op == OP_SEXT && isC(b) && b->lo >= smin(a->k[0]->w) && b->lo <= smaxv(a->k[0]->w)) return mkSlt(a->k[0], cbv(b->c, a->k[0]->w));
  if (b->op == OP_SEXT && isC(a) && a->lo >= smin(b->k[0]->w) && a->lo <= smaxv(b->k[0]->w)) return mkSlt(cbv(a->c, b->k[0]->w), b->k[0]);
  if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (b->op == N_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return raw(OP_SLT, S_BOOL, 1, 0, a, b);
}
static Node *mkUlt(Node *a, Node *b) {
  if (a->sort == S_BOOL) return mkAnd(mkNot(a), b);
  if (a == b) return FALSE_;
  if (isC(a) && isC(b)) return cbool(a->c < b->c);
  if (isC(b) && b->c == 0) return FALSE_;
  if (isC(a) && a->c == maskw(a->w)) return FALSE_;
  if (a->lo >= 0 && b->lo >= 0) return mkSlt(a, b);
  if (isC(b) && b->c == 1) return mkEq(a, cbv(0, a->w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  if (a->op == OP_ZEXT && a->k[0]->sort == S_BV && isC(b) && b->c > maskw(a->k[0]->w)) return TRUE_;
  return raw(OP_ULT, S_BOOL, 1, 0, a, b);
}

static Node *mkBin(unsigned op, Node *a, Node *b) {
  u8 w = a->w;
  if (op >= OP_FADD && op <= OP_FREM) return mkFarith(op, toFP(a), toFP(b));
  switch (op) {
  case OP_FMIN: case OP_FMAX: {
    a = toFP(a); b = toFP(b);
    Node *lt = op == OP_FMIN ? mkFcmp(N_FLT, a, b) : mkFcmp(N_FLT, b, a);
    Node *bn = mkFcmp(N_FUNO, b, b), *an = mkFcmp(N_FUNO, a, a);
    return mkIte(bn, a, mkIte(an, b, mkIte(lt, a, b)));
  }
  case OP_COPYSIGN: {
    a = toFP(a); b = toFP(b);
    if (isC(b)) { Node *m = mkFabs(a); return std::signbit(bits2d(b->c, w)) ? mkFneg(m) : m; }
    if (b->fix) { Node *m = mkFabs(a); return mkIte(mkFcmp(N_FLT, b, cfp(0, w)), mkFneg(m), m); }
    double x = bits2d(concretizeNode(a), w), y = bits2d(concretizeNode(b), w);
    return cfp(d2bits(std::copysign(x, y), w), w);
  }
  case OP_POW: case OP_ATAN2: case OP_HYPOT: case OP_NEXTAFTER: case OP_FMOD: return mkFarith(op, toFP(a), toFP(b));
  case OP_EQ: return mkEq(a, b);
  case OP_NE: return mkNot(mkEq(a, b));
  case OP_SLT: return mkSlt(a, b); case OP_SGT: return mkSlt(b, a);
  case OP_SGE: return mkNot(mkSlt(a, b)); case OP_SLE: return mkNot(mkSlt(b, a));
  case OP_ULT: return mkUlt(a, b); case OP_UGT: return mkUlt(b, a);
  case OP_UGE: return mkNot(mkUlt(a, b)); case OP_ULE: return mkNot(mkUlt(b, a));
  case OP_UMIN: return mkIte(mkUlt(a, b), a, b); case OP_UMAX: return mkIte(mkUlt(b, a), a, b);
  case OP_SMIN: return mkIte(mkSlt(a, b), a, b); case OP_SMAX: return mkIte(mkSlt(b, a), a, b);
  case OP_USUBSAT: return mkIte(mkUlt(a, b), cbv(0, w), mkBin(OP_SUB, a, b));
  case OP_UADDSAT: { Node *s = mkBin(OP_ADD, a, b); return mkIte(mkUlt(s, a), cbv(~0ull, w), s); }
  case OP_UADDO: { Node *s = mkBin(OP_ADD, a, b); return mkUlt(s, a); }
  case OP_USUBO: return mkUlt(a, b);
  case OP_SADDO: case OP_SSUBO: case OP_UMULO: case OP_SMULO: {
    if (w <= 32 || op == OP_SADDO || op == OP_SSUBO) {
      if (w > 63) {
        if (op == OP_SADDO && ((i128)a->lo + b->lo >= INT64_MIN) && ((i128)a->hi + b->hi <= INT64_MAX)) return FALSE_;
        if (op == OP_SSUBO && ((i128)a->lo - b->hi >= INT64_MIN) && ((i128)a->hi - b->lo <= INT64_MAX)) return FALSE_;
        Node *z = cbv(0, w);
        Node *s = mkBin(op == OP_SADDO ? OP_ADD : OP_SUB, a, b);
        Node *an = mkSlt(a, z), *bn = mkSlt(b, z), *sn = mkSlt(s, z);
        if (op == OP_SADDO) return mkAnd(mkNot(mkXor(an, bn)), mkXor(an, sn));
        return mkAnd(mkXor(an, bn), mkXor(an, sn));
      }
      bool sg = op != OP_UMULO; u8 w2 = w * 2 > 64 ? 64 : w * 2;
      Node *x = sg ? mkSext(a, w2) : mkZext(a, w2), *y = sg ? mkSext(b, w2) : mkZext(b, w2);
      Node *r = mkBin(op == OP_SADDO ? OP_ADD : op == OP_SSUBO ? OP_SUB : OP_MUL, x, y);
      Node *t = mkUn(OP_TRUNC, w, r);
      return mkNot(mkEq(sg ? mkSext(t, w2) : mkZext(t, w2), r));
    }
    i128 h = (i128)(a->hi > -a->lo ? a->hi : -a->lo) * (b->hi > -b->lo ? b->hi : -b->lo);
    if (a->lo > INT64_MIN && b->lo > INT64_MIN && h <= INT64_MAX && (op == OP_SMULO || (a->lo >= 0 && b->lo >= 0))) return FALSE_;
    concretizeNode(a); concretizeNode(b);
    { u64 x = evalN(a), y = evalN(b); if (op == OP_UMULO) { u64 r; return cbool(__builtin_mul_overflow(x, y, &r)); } i64 r; return cbool(__builtin_mul_overflow((i64)x, (i64)y, &r)); }
  }
  }
  if (a->sort == S_BOOL) {
    switch (op) {
    case OP_AND: case OP_MUL: return mkAnd(a, b);
    case OP_OR: return mkOr(a, b);
    case OP_XOR: case OP_ADD: case OP_SUB: return mkXor(a, b);
    default: unsupportedOp("boolean shift or division");
    }
  }
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBV(op, a->c, b->c, w, ok); if (ok) return cbv(r, w); }
  if ((op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR) && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u64 c = b->c;
    switch (op) {
    case OP_ADD: case OP_SUB: if (!c) return a;
      if (op == OP_SUB) return mkBin(OP_ADD, a, cbv(-c, w));
      if (a->op == OP_ADD && isC(a->k[1])) return mkBin(OP_ADD, a->k[0], cbv(a->k[1]->c + c, w)); break;
    case OP_OR: if (!c) return a; if (c == maskw(w)) return b; break;
    case OP_XOR: if (!c) return a;
      if (a->op == OP_ZEXT && a->k[0]->sort == S_BOOL && c == 1) return bool2bv(mkNot(a->k[0]), w); break;
    case OP_SHL: case OP_LSHR: case OP_ASHR: if (!c) return a; break;
    case OP_MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkBin(OP_SHL, a, cbv(__builtin_ctzll(c), w)); break;
    case OP_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(OP_LSHR, a, cbv(__builtin_ctzll(c), w)); break;
    case OP_SDIV: if (c == 1) return a; break;
    case OP_UREM: if (c == 1) return cbv(0, w); if (c && (c & (c - 1)) == 0) return mkBin(OP_AND, a, cbv(c - 1, w)); if (a->lo >= 0 && (u64)a->hi < c) return a; break;
    case OP_AND: if (!c) return b; if (c == maskw(w)) return a;
      if (a->op == OP_ZEXT) { Node *x = a->k[0]; if (x->sort == S_BOOL) return (c & 1) ? a : cbv(0, w); if ((c & maskw(x->w)) == maskw(x->w)) return a; }
      if (a->lo >= 0 && c != 0 && (c & (c + 1)) == 0 && (u64)a->hi <= c) return a;
      break;
    }
    if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2]) && op != OP_UDIV && op != OP_SDIV && op != OP_UREM && op != OP_SREM)
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (a->op == OP_ZEXT && a->k[0]->sort == S_BOOL && (op == OP_ADD || op == OP_SHL || op == OP_OR || op == OP_MUL))
      return mkIte(a->k[0], mkBin(op, cbv(1, w), b), mkBin(op, cbv(0, w), b));
  } else {
    if (op == OP_SUB && a == b) return cbv(0, w);
    if ((op == OP_AND || op == OP_OR) && a == b) return a;
    if (op == OP_XOR && a == b) return cbv(0, w);
    if ((op == OP_AND || op == OP_OR || op == OP_XOR) && a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->sort == S_BOOL && b->k[0]->sort == S_BOOL) return bool2bv(mkBin(op, a->k[0], b->k[0]), w);
    if (op == OP_SUB && a->op == OP_ADD && a->k[0] == b) return a->k[1];
    if (op == OP_SUB && a->op == OP_ADD && a->k[1] == b) return a->k[0];
  }
  if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) {
    // a divisor that can be zero is an error of the program
    if (b->lo <= 0 && b->hi >= 0) {
      Node *z = mkEq(b, cbv(0, w));
      extern void symDivZero(Node *);
      symDivZero(z);
    }
    if ((op == OP_SDIV || op == OP_SREM) && a->lo >= 0 && b->lo >= 0) return mkBin(op == OP_SDIV ? OP_UDIV : OP_UREM, a, b);
  }
  if ((op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR) && !isC(b) && a->id > b->id) std::swap(a, b);
  return rawBV(op, w, a, b);
}

static i64 floordiv2(i64 m, int s) { return s >= 63 ? (m < 0 ? -1 : 0) : (m >> s); }
static Node *fixFloor(Node *a) { return fixNode(OP_FLOOR, a->w, a, nullptr, floordiv2(a->lo, a->scale), floordiv2(a->hi, a->scale), 0); }
static Node *mkUn(unsigned op, unsigned wo, Node *a) {
  switch (op) {
  case OP_TRUNC:
    if (wo == 1) {
      if (isC(a)) return cbool(a->c & 1);
      if (a->op == OP_ZEXT && a->k[0]->sort == S_BOOL) return a->k[0];
      if (a->lo >= 0 && a->hi <= 1) return mkEq(a, cbv(1, a->w));
      return mkEq(mkExtract(a, 0, 1 + 7 < a->w ? 8 : a->w)->w == a->w ? mkBin(OP_AND, a, cbv(1, a->w)) : mkBin(OP_AND, mkExtract(a, 0, 8), cbv(1, 8)), cbv(1, a->w > 8 ? 8 : a->w));
    }
    return mkExtract(a, 0, wo);
  case OP_ZEXT: return mkZext(a, wo);
  case OP_SEXT: return mkSext(a, wo);
  case OP_BITCAST_F2I: return toBV(a, wo);
  case OP_BITCAST_I2F: return toFP(a);
  case OP_UITOFP: case OP_SITOFP: {
    if (a->sort == S_BOOL) { double t = op == OP_SITOFP ? -1.0 : 1.0; return mkIte(a, cfp(d2bits(t, wo), wo), cfp(d2bits(0.0, wo), wo)); }
    if (isC(a)) { double d = op == OP_SITOFP ? (double)sx(a->c, a->w) : (double)a->c; if (wo == 32) d = op == OP_SITOFP ? (float)sx(a->c, a->w) : (float)a->c; return cfp(d2bits(d, wo), wo); }
    if (a->op == N_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUn(op, wo, a->k[1]), mkUn(op, wo, a->k[2]));
    if (op == OP_SITOFP || a->lo >= 0) if (Node *n = fixNode(OP_SITOFP, wo, a, nullptr, a->lo, a->hi, 0)) return n;
    if (op == OP_UITOFP && a->w < 53) { Node *z = mkZext(a, 64); return mkUn(OP_SITOFP, wo, z); }
    return raw(op, S_FP, wo, 0, a);
  }
  case OP_FPEXT: case OP_FPTRUNC: {
    if (isC(a)) return cfp(d2bits(bits2d(a->c, a->w), wo), wo);
    if (isMixed(a)) return mkIte(a->k[0], mkUn(op, wo, a->k[1]), mkUn(op, wo, a->k[2]));
    if (a->fix) if (Node *n = fixNode(op, wo, a, nullptr, a->lo, a->hi, a->scale)) return n;
    if (op == OP_FPTRUNC && a->op == OP_FPEXT && a->k[0]->w == wo) return a->k[0];
    return raw(op, S_FP, wo, 0, a);
  }
  case OP_FPTOSI: case OP_FPTOUI: {
    if (isC(a)) { double d = bits2d(a->c, a->w); return cint(op == OP_FPTOSI ? (u64)(i64)d : (d < 0 ? (u64)(i64)d : (u64)d), wo); }
    if (isMixed(a)) return mkIte(a->k[0], mkUn(op, wo, a->k[1]), mkUn(op, wo, a->k[2]));
    if (wo == 1) unsupportedOp("fp to bool");
    if (a->fix) {
      if (a->op == OP_SITOFP && a->k[0]->sort == S_BV) { Node *x = a->k[0]; return x->w == wo ? x : x->w < wo ? mkSext(x, wo) : mkExtract(x, 0, wo); }
      Node *f = a->scale == 0 ? a : fixFloor(a);
      if (a->scale != 0 && a->lo < 0) { Node *c = mkFneg(fixFloor(mkFneg(a))); f = mkIte(mkFcmp(N_FLT, a, cfp(0, a->w)), c, f); if (isC(f)) return mkUn(op, wo, f); }
      Node *n = raw(OP_FPTOSI, S_BV, wo, 0, f);
      if (f->lo >= smin(wo) && f->hi <= smaxv(wo)) { n->lo = f->lo; n->hi = f->hi; }
      return n;
    }
    return raw(op, S_BV, wo, 0, a);
  }
  case OP_FNEG: return mkFneg(toFP(a));
  case OP_FABS: return mkFabs(toFP(a));
  case OP_SQRT: {
    a = toFP(a);
    if (isC(a)) return cfp(d2bits(foldF1(OP_SQRT, bits2d(a->c, a->w), a->w), a->w), a->w);
    if (isMixed(a)) return mkIte(a->k[0], mkUn(op, wo, a->k[1]), mkUn(op, wo, a->k[2]));
    if (a->fix && a->lo == a->hi) return cfp(d2bits(foldF1(OP_SQRT, ldexp((double)a->lo, -a->scale), a->w), a->w), a->w);
    if (a->fix && a->op == OP_FMUL && a->k[0] == a->k[1]) return mkFabs(a->k[0]);
    if (a->fix && a->lo < 0) { // decide whether the argument is negative
      if (forkOn(mkFcmp(N_FLT, a, cfp(0, a->w)))) return cfp(d2bits(foldF1(OP_SQRT, -1.0, a->w), a->w), a->w);
      Node *p = mkFabs(a);
      if (p) a = p;
    }
    return raw(OP_SQRT, S_FP, a->w, 0, a);
  }
  case OP_FLOOR: case OP_CEIL: case OP_FTRUNC: case OP_ROUND: case OP_RINT: {
    a = toFP(a);
    if (isC(a)) return cfp(d2bits(foldF1(op, bits2d(a->c, a->w), a->w), a->w), a->w);
    if (isMixed(a)) return mkIte(a->k[0], mkUn(op, wo, a->k[1]), mkUn(op, wo, a->k[2]));
    if (a->fix) {
      if (a->scale == 0) return a;
      if (op == OP_FLOOR) return fixFloor(a);
      if (op == OP_CEIL) return mkFneg(fixFloor(mkFneg(a)));
      Node *neg = mkFcmp(N_FLT, a, cfp(0, a->w));
      if (op == OP_FTRUNC) return mkIte(neg, mkFneg(fixFloor(mkFneg(a))), fixFloor(a));
      Node *half = cfp(d2bits(0.5, a->w), a->w);
      if (op == OP_ROUND) return mkIte(neg, mkFneg(fixFloor(mkFarith(OP_FADD, mkFneg(a), half))), fixFloor(mkFarith(OP_FADD, a, half)));
    }
    double x = bits2d(concretizeNode(a), a->w);
    return cfp(d2bits(foldF1(op, x, a->w), a->w), a->w);
  }
  case OP_ABS: { Node *z = cbv(0, a->w); return mkIte(mkSlt(a, z), mkBin(OP_SUB, z, a), a); }
  case OP_CTPOP: case OP_CTLZ: case OP_CTTZ: case OP_BSWAP: {
    if (op == OP_BSWAP) { Node *r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); return r; }
    u64 v = concretizeNode(a);
    u64 r = op == OP_CTPOP ? __builtin_popcountll(v) : op == OP_CTTZ ? (v ? __builtin_ctzll(v) : a->w) : (v ? __builtin_clzll(v) - (64 - a->w) : a->w);
    return cint(r, wo);
  }
  default: {
    a = toFP(a);
    double x = bits2d(concretizeNode(a), a->w);
    return cfp(d2bits(foldF1(op, x, a->w), a->w), a->w);
  }
  }
}

// ------------------------------------------------------------------------------------------
// evaluation under the current model
// ------------------------------------------------------------------------------------------
static u64 evalN(Node *n) {
  if (n->op == N_CONST) return n->c;
  if (n->epoch == epoch) return n->ev;
  u64 r = 0;
  u8 w = n->w;
  Node *a = n->k[0], *b = n->k[1], *d = n->k[2];
  switch (n->op) {
  case N_VAR: {
    VarInfo &v = vars[n->c];
    if (n->sort == S_FP) r = d2bits(ldexp((double)(i64)v.val, -n->scale), w); else r = v.val & maskw(w);
    break;
  }
  case N_ITE: r = evalN(a) ? evalN(b) : evalN(d); break;
  case N_NOT: r = !evalN(a); break;
  case N_EXTRACT: r = (evalN(a) >> n->c) & maskw(w); break;
  case N_CONCAT: r = (evalN(a) << b->w) | evalN(b); break;
  case N_FEQ: r = bits2d(evalN(a), a->w) == bits2d(evalN(b), b->w); break;
  case N_FLT: r = bits2d(evalN(a), a->w) < bits2d(evalN(b), b->w); break;
  case N_FLE: r = bits2d(evalN(a), a->w) <= bits2d(evalN(b), b->w); break;
  case N_FUNO: { double x = bits2d(evalN(a), a->w), y = bits2d(evalN(b), b->w); r = x != x || y != y; break; }
  case N_FROMBITS: case N_BITS: r = evalN(a); break;
  case OP_EQ: r = evalN(a) == evalN(b); break;
  case OP_SLT: r = sx(evalN(a), a->w) < sx(evalN(b), b->w); break;
  case OP_ULT: r = evalN(a) < evalN(b); break;
  case OP_ZEXT: r = evalN(a); break;
  case OP_SEXT: r = (u64)sx(evalN(a), a->w) & maskw(w); break;
  case OP_TRUNC: r = evalN(a) & maskw(w); break;
  case OP_SITOFP: r = d2bits(w == 32 ? (double)(float)sx(evalN(a), a->w) : (double)sx(evalN(a), a->w), w); break;
  case OP_UITOFP: r = d2bits(w == 32 ? (double)(float)evalN(a) : (double)evalN(a), w); break;
  case OP_FPEXT: case OP_FPTRUNC: r = d2bits(bits2d(evalN(a), a->w), w); break;
  case OP_FPTOSI: r = (u64)(i64)bits2d(evalN(a), a->w) & maskw(w); break;
  case OP_FPTOUI: { double x = bits2d(evalN(a), a->w); r = (x < 0 ? (u64)(i64)x : (u64)x) & maskw(w); break; }
  case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: r = d2bits(foldFP(n->op, bits2d(evalN(a), w), bits2d(evalN(b), w), w), w); break;
  case OP_FNEG: r = d2bits(-bits2d(evalN(a), w), w); break;
  case OP_FABS: case OP_SQRT: case OP_FLOOR: r = d2bits(foldF1(n->op, bits2d(evalN(a), w), w), w); break;
  default:
    if (n->sort == S_BOOL) { u64 x = evalN(a), y = evalN(b); r = n->op == OP_AND ? (x & y) : n->op == OP_OR ? (x | y) : (x ^ y); break; }
    {
      bool ok; u64 x = evalN(a), y = evalN(b);
      r = foldBV(n->op, x, y, w, ok);
      if (!ok) { if (n->op == OP_UDIV) r = maskw(w); else if (n->op == OP_UREM || n->op == OP_SREM) r = x; else if (n->op == OP_SDIV) r = y == 0 ? (sx(x, w) >= 0 ? maskw(w) : 1) : x; if (y != 0 && n->op == OP_SREM) r = 0; }
    }
  }
  n->ev = r; n->epoch = epoch;
  return r;
}

// ------------------------------------------------------------------------------------------
// translation to the solver
// ------------------------------------------------------------------------------------------
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static u8 fw(Node *n) { u8 w = 1; while (n->lo < smin(w) || n->hi > smaxv(w)) w++; return w; }
static Z3_sort bvs(u8 w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast znum(u64 v, u8 w) { return Z3_mk_unsigned_int64(Z, v & maskw(w), bvs(w)); }
static Z3_ast zx(Node *n);
static Z3_sort fps(u8 w) { return w == 32 ? Z3_mk_fpa_sort_single(Z) : Z3_mk_fpa_sort_double(Z); }
static Z3_ast rne() { return Z3_mk_fpa_rne(Z); }
static bool intMode = false; // exact fixed-point numbers as integers (linear arithmetic) instead of bit vectors
static Z3_ast zint(i64 v) { return Z3_mk_int64(Z, v, Z3_mk_int_sort(Z)); }
// mantissa at scale s in width w (w large enough)
static Z3_ast zmant(Node *n, int s, u8 w) {
  if (intMode) {
    if (isC(n)) return zint(n->lo << (s - n->scale));
    if (s == n->scale) return zx(n);
    Z3_ast v[2] = {zint((i64)1 << (s - n->scale)), zx(n)};
    return Z3_mk_mul(Z, 2, v);
  }
  if (isC(n)) return znum((u64)(n->lo << (s - n->scale)), w);
  Z3_ast z = zx(n);
  u8 k = fw(n);
  if (w > k) z = Z3_mk_sign_ext(Z, w - k, z); else if (w < k) z = Z3_mk_extract(Z, w - 1, 0, z);
  if (s > n->scale) z = Z3_mk_bvshl(Z, z, znum(s - n->scale, w));
  return z;
}
static u8 wneed(i128 lo, i128 hi) { u8 w = 1; while (w < 64 && (lo < (i128)smin(w) || hi > (i128)smaxv(w))) w++; return w; }
static Z3_ast zfp(Node *n) { // FP term
  if (n->zf) return n->zf;
  Z3_ast r;
  if (isC(n)) r = n->w == 32 ? Z3_mk_fpa_to_fp_bv(Z, znum(n->c, 32), fps(32)) : Z3_mk_fpa_to_fp_bv(Z, znum(n->c, 64), fps(64));
  else if (n->fix) {
    if (intMode) unsupportedOp("floating-point term over integer arithmetic");
    Z3_ast m = zx(n);
    r = Z3_mk_fpa_to_fp_signed(Z, rne(), m, fps(n->w));
    if (n->scale) r = Z3_mk_fpa_mul(Z, rne(), r, zfp(cfp(d2bits(ldexp(1.0, -n->scale), n->w), n->w)));
  } else r = zx(n);
  return n->zf = ref(r);
}
static Z3_ast zx(Node *n) {
  if (n->z) return n->z;
  Z3_ast r = nullptr;
  Node *a = n->k[0], *b = n->k[1], *d = n->k[2];
  u8 w = n->w;
  if (n->sort == S_FP && n->fix && intMode) {
    switch (n->op) {
    case N_CONST: r = zint(n->lo); break;
    case N_VAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)n->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_int_sort(Z)); break; }
    case OP_FADD: { Z3_ast v[2] = {zmant(a, n->scale, 0), zmant(b, n->scale, 0)}; r = Z3_mk_add(Z, 2, v); break; }
    case OP_FSUB: { Z3_ast v[2] = {zmant(a, n->scale, 0), zmant(b, n->scale, 0)}; r = Z3_mk_sub(Z, 2, v); break; }
    case OP_FMUL: { Z3_ast v[2] = {zmant(a, a->scale, 0), zmant(b, b->scale, 0)}; r = Z3_mk_mul(Z, 2, v); break; }
    case OP_FNEG: r = Z3_mk_unary_minus(Z, zx(a)); break;
    case OP_FABS: r = Z3_mk_ite(Z, Z3_mk_lt(Z, zx(a), zint(0)), Z3_mk_unary_minus(Z, zx(a)), zx(a)); break;
    case N_ITE: r = Z3_mk_ite(Z, zx(a), zmant(b, n->scale, 0), zmant(d, n->scale, 0)); break;
    case OP_SITOFP: r = Z3_mk_bv2int(Z, zx(a), true); break;
    case OP_FPEXT: case OP_FPTRUNC: r = zx(a); break;
    case OP_FLOOR: r = Z3_mk_div(Z, zx(a), zint((i64)1 << a->scale)); break;
    default: fprintf(stderr, "fix op %d\n", n->op); abort();
    }
    return n->z = ref(r);
  }
  if (n->sort == S_FP && n->fix) {
    u8 W = fw(n);
    switch (n->op) {
    case N_CONST: r = znum((u64)n->lo, W); break;
    case N_VAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)n->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs(W)); break; }
    case OP_FADD: r = Z3_mk_bvadd(Z, zmant(a, n->scale, W), zmant(b, n->scale, W)); break;
    case OP_FSUB: r = Z3_mk_bvsub(Z, zmant(a, n->scale, W), zmant(b, n->scale, W)); break;
    case OP_FMUL: r = Z3_mk_bvmul(Z, zmant(a, a->scale, W), zmant(b, b->scale, W)); break;
    case OP_FNEG: r = Z3_mk_bvneg(Z, zmant(a, a->scale, W)); break;
    case OP_FABS: { u8 k = fw(a); Z3_ast m = zmant(a, a->scale, W > k ? W : k); u8 kk = W > k ? W : k; Z3_ast v = Z3_mk_ite(Z, Z3_mk_bvslt(Z, m, znum(0, kk)), Z3_mk_bvneg(Z, m), m); if (kk > W) v = Z3_mk_extract(Z, W - 1, 0, v); r = v; break; }
    case N_ITE: r = Z3_mk_ite(Z, zx(a), zmant(b, n->scale, W), zmant(d, n->scale, W)); break;
    case OP_SITOFP: { Z3_ast z = zx(a); if (a->w > W) z = Z3_mk_extract(Z, W - 1, 0, z); else if (a->w < W) z = Z3_mk_sign_ext(Z, W - a->w, z); r = z; break; }
    case OP_FPEXT: case OP_FPTRUNC: r = zmant(a, a->scale, W); break;
    case OP_FLOOR: { u8 k = fw(a); if (k < W) k = W; if (k <= a->scale) k = a->scale + 1; Z3_ast m = zmant(a, a->scale, k); Z3_ast v = Z3_mk_bvashr(Z, m, znum(a->scale, k)); r = k > W ? Z3_mk_extract(Z, W - 1, 0, v) : v; break; }
    default: fprintf(stderr, "fix op %d\n", n->op); abort();
    }
    return n->z = ref(r);
  }
  switch (n->op) {
  case N_CONST:
    if (n->sort == S_BOOL) r = n->c ? Z3_mk_true(Z) : Z3_mk_false(Z); else if (n->sort == S_BV) r = znum(n->c, w); else r = zfp(n);
    break;
  case N_VAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)n->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), n->sort == S_BOOL ? Z3_mk_bool_sort(Z) : bvs(w)); break; }
  case N_ITE: r = n->sort == S_FP ? Z3_mk_ite(Z, zx(a), zfp(b), zfp(d)) : Z3_mk_ite(Z, zx(a), zx(b), zx(d)); break;
  case N_NOT: r = Z3_mk_not(Z, zx(a)); break;
  case N_EXTRACT: r = Z3_mk_extract(Z, (unsigned)n->c + w - 1, (unsigned)n->c, zx(a)); break;
  case N_CONCAT: r = Z3_mk_concat(Z, zx(a), zx(b)); break;
  case N_FEQ: case N_FLT: case N_FLE:
    if (a->fix && b->fix) {
      int s = a->scale > b->scale ? a->scale : b->scale;
      i128 al = (i128)a->lo << (s - a->scale), ah = (i128)a->hi << (s - a->scale), bl = (i128)b->lo << (s - b->scale), bh = (i128)b->hi << (s - b->scale);
      u8 W = wneed(al < bl ? al : bl, ah > bh ? ah : bh);
      Z3_ast x = zmant(a, s, W), y = zmant(b, s, W);
      if (intMode) r = n->op == N_FEQ ? Z3_mk_eq(Z, x, y) : n->op == N_FLT ? Z3_mk_lt(Z, x, y) : Z3_mk_le(Z, x, y);
      else r = n->op == N_FEQ ? Z3_mk_eq(Z, x, y) : n->op == N_FLT ? Z3_mk_bvslt(Z, x, y) : Z3_mk_bvsle(Z, x, y);
    } else r = n->op == N_FEQ ? Z3_mk_fpa_eq(Z, zfp(a), zfp(b)) : n->op == N_FLT ? Z3_mk_fpa_lt(Z, zfp(a), zfp(b)) : Z3_mk_fpa_leq(Z, zfp(a), zfp(b));
    break;
  case N_FUNO: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(Z, zfp(a)), Z3_mk_fpa_is_nan(Z, zfp(b))}; r = Z3_mk_or(Z, 2, v); break; }
  case N_FROMBITS: r = Z3_mk_fpa_to_fp_bv(Z, zx(a), fps(w)); break;
  case N_BITS:
    if (a->fix && a->lo == 0 && a->hi == 0) r = znum(0, w);
    else r = Z3_mk_fpa_to_ieee_bv(Z, zfp(a));
    break;
  case OP_EQ: r = Z3_mk_eq(Z, zx(a), zx(b)); break;
  case OP_SLT: r = Z3_mk_bvslt(Z, zx(a), zx(b)); break;
  case OP_ULT: r = Z3_mk_bvult(Z, zx(a), zx(b)); break;
  case OP_ZEXT: if (a->sort == S_BOOL) r = Z3_mk_ite(Z, zx(a), znum(1, w), znum(0, w)); else r = Z3_mk_zero_ext(Z, w - a->w, zx(a)); break;
  case OP_SEXT: r = Z3_mk_sign_ext(Z, w - a->w, zx(a)); break;
  case OP_TRUNC: r = Z3_mk_extract(Z, w - 1, 0, zx(a)); break;
  case OP_SITOFP: r = Z3_mk_fpa_to_fp_signed(Z, rne(), zx(a), fps(w)); break;
  case OP_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(Z, rne(), zx(a), fps(w)); break;
  case OP_FPEXT: case OP_FPTRUNC: r = Z3_mk_fpa_to_fp_float(Z, rne(), zfp(a), fps(w)); break;
  case OP_FPTOSI:
    if (a->fix && intMode) r = Z3_mk_int2bv(Z, w, zx(a));
    else if (a->fix) { u8 k = fw(a); Z3_ast m = zx(a); r = k < w ? Z3_mk_sign_ext(Z, w - k, m) : k > w ? Z3_mk_extract(Z, w - 1, 0, m) : m; }
    else r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), zfp(a), w);
    break;
  case OP_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), zfp(a), w); break;
  case OP_FADD: r = Z3_mk_fpa_add(Z, rne(), zfp(a), zfp(b)); break;
  case OP_FSUB: r = Z3_mk_fpa_sub(Z, rne(), zfp(a), zfp(b)); break;
  case OP_FMUL: r = Z3_mk_fpa_mul(Z, rne(), zfp(a), zfp(b)); break;
  case OP_FDIV: r = Z3_mk_fpa_div(Z, rne(), zfp(a), zfp(b)); break;
  case OP_FNEG: r = Z3_mk_fpa_neg(Z, zfp(a)); break;
  case OP_FABS: r = Z3_mk_fpa_abs(Z, zfp(a)); break;
  case OP_SQRT: r = Z3_mk_fpa_sqrt(Z, rne(), zfp(a)); break;
  case OP_AND: if (n->sort == S_BOOL) { Z3_ast v[2] = {zx(a), zx(b)}; r = Z3_mk_and(Z, 2, v); } else r = Z3_mk_bvand(Z, zx(a), zx(b)); break;
  case OP_OR: if (n->sort == S_BOOL) { Z3_ast v[2] = {zx(a), zx(b)}; r = Z3_mk_or(Z, 2, v); } else r = Z3_mk_bvor(Z, zx(a), zx(b)); break;
  case OP_XOR: if (n->sort == S_BOOL) r = Z3_mk_xor(Z, zx(a), zx(b)); else r = Z3_mk_bvxor(Z, zx(a), zx(b)); break;
  case OP_ADD: r = Z3_mk_bvadd(Z, zx(a), zx(b)); break;
  case OP_SUB: r = Z3_mk_bvsub(Z, zx(a), zx(b)); break;
  case OP_MUL: r = Z3_mk_bvmul(Z, zx(a), zx(b)); break;
  case OP_UDIV: r = Z3_mk_bvudiv(Z, zx(a), zx(b)); break;
  case OP_SDIV: r = Z3_mk_bvsdiv(Z, zx(a), zx(b)); break;
  case OP_UREM: r = Z3_mk_bvurem(Z, zx(a), zx(b)); break;
  case OP_SREM: r = Z3_mk_bvsrem(Z, zx(a), zx(b)); break;
  case OP_SHL: r = Z3_mk_bvshl(Z, zx(a), zx(b)); break;
  case OP_LSHR: r = Z3_mk_bvlshr(Z, zx(a), zx(b)); break;
  case OP_ASHR: r = Z3_mk_bvashr(Z, zx(a), zx(b)); break;
  default: fprintf(stderr, "z3 op %d\n", n->op); abort();
  }
  return n->z = ref(r);
}

// ------------------------------------------------------------------------------------------
// path condition and solver
// ------------------------------------------------------------------------------------------
static bool inSolver = false;
static u64 depth = 0, pathBranches = 0;
static std::vector<u64> newModel;
static int ticks = 0; // of two seconds without progress
static void armTimer() {
  ticks = 0;
  itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = it.it_interval.tv_sec = 2;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void checkStop() {
  if (G->stop) pathEnd(false);
  if (now() > deadline) incomplete("time budget exhausted");
}
// is  pc /\ (b == v)  satisfiable?  fills newModel if so
static Z3_ast lastQuery = nullptr; // printed when a query runs into its time limit and SYM_TRACE is set
static bool checkSat(Node *b, bool v) {
  checkStop();
  Z3_ast f = zx(b);
  lastQuery = f;
  if (!v) f = Z3_mk_not(Z, f);
  Z3_inc_ref(Z, f);
  double t0 = now();
  inSolver = true;
  Z3_solver_push(Z, SOL);
  Z3_solver_assert(Z, SOL, f);
  Z3_lbool r = Z3_solver_check(Z, SOL);
  INC(G->queries);
  bool res = false;
  if (r == Z3_L_TRUE) {
    INC(G->sat);
    res = true;
    Z3_model m = Z3_solver_get_model(Z, SOL);
    Z3_model_inc_ref(Z, m);
    newModel.assign(vars.size(), 0);
    for (size_t i = 0; i < vars.size(); ++i) {
      Node *n = vars[i].n;
      newModel[i] = vars[i].val;
      if (!n->z) continue;
      Z3_ast out;
      if (!Z3_model_eval(Z, m, n->z, true, &out)) continue;
      Z3_inc_ref(Z, out);
      if (n->sort == S_BOOL) newModel[i] = Z3_get_bool_value(Z, out) == Z3_L_TRUE;
      else if (n->sort == S_FP && intMode) { int64_t x = 0; if (Z3_get_numeral_int64(Z, out, &x)) newModel[i] = (u64)x; }
      else { u64 x = 0; if (Z3_get_numeral_uint64(Z, out, &x)) newModel[i] = n->sort == S_FP ? (u64)sx(x, fw(n)) : x; }
      Z3_dec_ref(Z, out);
    }
    Z3_model_dec_ref(Z, m);
  } else if (r == Z3_L_FALSE) INC(G->unsat);
  else INC(G->unknown);
  Z3_solver_pop(Z, SOL, 1);
  inSolver = false;
  Z3_dec_ref(Z, f);
  __sync_fetch_and_add(&G->solver_ns, (u64)((now() - t0) * 1e9));
  if (r == Z3_L_UNDEF) incomplete("solver gave no answer within its budget");
  return res;
}
static void useModel() { for (size_t i = 0; i < vars.size() && i < newModel.size(); ++i) vars[i].val = newModel[i]; epoch++; }
static void setFact(Node *b, bool v) {
  b->fact = v;
  if (b->op == N_NOT) setFact(b->k[0], !v);
  else if (b->op == OP_AND && b->sort == S_BOOL && v) { setFact(b->k[0], true); setFact(b->k[1], true); }
}
static void assume(Node *b, bool v) {
  Z3_ast f = zx(b);
  if (!v) f = Z3_mk_not(Z, f);
  Z3_solver_assert(Z, SOL, f);
  setFact(b, v);
  depth++;
}
static int factOf(Node *n) { return n ? n->fact : 2; }
static int quick(Node *b) {
  if (b == TRUE_) return 1;
  if (b == FALSE_) return 0;
  if (b->fact != 2) return b->fact;
  int r = 2;
  switch (b->op) {
  case N_NOT: { int q = quick(b->k[0]); r = q == 2 ? 2 : !q; break; }
  case OP_AND: if (b->sort == S_BOOL) { int x = quick(b->k[0]), y = quick(b->k[1]); if (x == 0 || y == 0) r = 0; else if (x == 1 && y == 1) r = 1; } break;
  case N_FLT: case OP_SLT: {
    Node *a = b->k[0], *c = b->k[1];
    if (b->op == N_FLT && !(a->fix && c->fix)) break;
    int rv = factOf(lookup(b->op, S_BOOL, 1, 0, c, a));
    if (rv == 1) { r = 0; break; }
    Node *x = a, *y = c; if (x->id > y->id) std::swap(x, y);
    int eq = factOf(lookup(b->op == N_FLT ? (u8)N_FEQ : (u8)OP_EQ, S_BOOL, 1, 0, x, y));
    if (eq == 1) { r = 0; break; }
    if (eq == 0 && rv == 0) { r = 1; break; }
    break;
  }
  case N_FEQ: case OP_EQ: {
    Node *a = b->k[0], *c = b->k[1];
    if (b->op == N_FEQ && !(a->fix && c->fix)) break;
    if (a->sort == S_BOOL) break;
    u8 o = b->op == N_FEQ ? (u8)N_FLT : (u8)OP_SLT;
    int l = factOf(lookup(o, S_BOOL, 1, 0, a, c)), g = factOf(lookup(o, S_BOOL, 1, 0, c, a));
    if (l == 1 || g == 1) r = 0; else if (l == 0 && g == 0) r = 1;
    break;
  }
  case N_ITE: if (b->sort == S_BOOL) { int q = quick(b->k[0]); if (q != 2) r = quick(q ? b->k[1] : b->k[2]); } break;
  }
  if (r != 2) b->fact = r;
  return r;
}

// fork: returns true in the process that explores the other side
static bool forkProc() {
  INC(G->forks);
  INC(G->started);
  u64 live = __sync_add_and_fetch(&G->live, 1);
  if (live > G->procs_peak) G->procs_peak = live;
  bool own = tryToken();
  fflush(nullptr);
  pid_t p;
  for (int t = 0; (p = fork()) < 0 && t < 200; ++t) usleep(20000);
  if (p < 0) incomplete("fork failed");
  if (p == 0) { isRoot = false; armTimer(); return true; }
  if (!own) { waitToken(); }
  armTimer();
  return false;
}
static bool forkOn(Node *b) { // decide b; both feasible sides are explored
  int q = quick(b);
  if (q != 2) { INC(G->quick); return q; }
  if (++pathBranches > 3000000) { extern void violationNow(const char *, const char *); violationNow("hang", "too many branches on one path"); }
  INC(G->branches);
  bool v = evalN(b);
  if (!checkSat(b, !v)) { setFact(b, v); INC(G->implied); return v; }
  armTimer();
  // the model of the other side belongs to the child
  std::vector<u64> nm = newModel;
  if (forkProc()) { newModel = nm; useModel(); assume(b, !v); if (depth > G->maxdepth) G->maxdepth = depth; return !v; }
  assume(b, v);
  return v;
}
static u64 concretizeNode(Node *n) {
  if (isC(n)) return n->c;
  if (n->sort == S_BOOL) return forkOn(n);
  if (n->fix && n->lo == n->hi) return d2bits(ldexp((double)n->lo, -n->scale), n->w);
  INC(G->concretizations);
  for (int i = 0; i < 100000; ++i) {
    u64 v = evalN(n);
    Node *e = n->sort == S_FP ? (n->fix ? mkFcmp(N_FEQ, n, cfp(v, n->w)) : mkEq(toBV(n, n->w), cbv(v, n->w))) : mkEq(n, cbv(v, n->w));
    if (forkOn(e)) return v;
  }
  unsupportedOp("enumeration of too many values");
  return 0;
}

// ------------------------------------------------------------------------------------------
// results
// ------------------------------------------------------------------------------------------
struct Obs { Node *n; u64 v; };
static std::vector<Obs> observed;
static void writeInputs(FILE *f) {
  for (auto &v : vars) {
    if (v.kind == 'd' || v.kind == 'f') fprintf(f, "in %s %c %llu 0\n", v.name.c_str(), v.kind, (unsigned long long)v.val);
    else if (v.kind == 'i') fprintf(f, "in %s i %lld 0\n", v.name.c_str(), (long long)sx(v.val, v.n->w));
    else if (v.kind == 'x') fprintf(f, "in %s x %lld %d\n", v.name.c_str(), (long long)v.val, v.scale);
    else fprintf(f, "in %s b %llu 0\n", v.name.c_str(), (unsigned long long)v.val);
  }
}
static bool inViolation = false;
static bool started = false;
void violationNow(const char *kind, const char *msg) {
  if (!started) { fprintf(stderr, "before start: %s %s\n", kind, msg); _exit(3); }
  if (inViolation) _exit(99);
  inViolation = true;
  u64 k = INC(G->violations);
  if (k < 8) {
    char fn[600]; snprintf(fn, sizeof fn, "%s/violation_%llu.txt", outdir, (unsigned long long)k);
    FILE *f = fopen(fn, "w");
    if (f) { fprintf(f, "kind %s\nmsg %s\n", kind, msg); writeInputs(f); fclose(f); }
  }
  if (k >= 2 || !strcmp(kind, "hang")) G->stop = 1;
  pathEnd(false);
}
void symDivZero(Node *z) { if (forkOn(z)) violationNow("crash", "integer division by zero"); }

static long resident() { // in MB
  char b[64] = {0}; int fd = open("/proc/self/statm", O_RDONLY);
  if (fd < 0) return 0;
  ssize_t n = read(fd, b, sizeof b - 1); close(fd);
  const char *q = n > 0 ? strchr(b, ' ') : nullptr;
  return q ? atol(q) >> 8 : 0;
}
static void onSignal(int s) {
  if (s == SIGVTALRM) {
    if (G->stop && !inSolver && started && !inViolation) pathEnd(false);
    if (!inSolver && started && !inViolation && resident() > 800) violationNow("hang", "more than 800 MB of memory");
    if (++ticks < 20) return;
  }
  if (inSolver && s != SIGVTALRM) incomplete("signal inside the solver");
  if (inSolver && getenv("SYM_TRACE")) fprintf(stderr, "QUERY %s\nASSERTED %s\n", Z3_ast_to_string(Z, lastQuery), Z3_solver_to_string(Z, SOL));
  if (inSolver) incomplete("solver query too long");
  if (s == SIGVTALRM) violationNow("hang", "no progress for 40 s of CPU time");
  char b[64]; snprintf(b, 64, "signal %d", s);
  violationNow("crash", b);
}
[[noreturn]] static void pathEnd(bool completed) {
  itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, nullptr);
  if (completed) {
    u64 k = INC(G->paths);
    __sync_fetch_and_add(&G->nodes, nodeCount);
    if (k < 6 || ((k & (k - 1)) == 0)) {
      char fn[600]; snprintf(fn, sizeof fn, "%s/path_%llu.txt", outdir, (unsigned long long)k);
      FILE *f = fopen(fn, "w");
      if (f) {
        writeInputs(f);
        u64 h = 1469598103934665603ull;
        for (auto &o : observed) { u64 v = o.n ? evalN(o.n) : o.v; if (o.n && o.n->sort == S_FP && (v << 1) == 0) v = 0; h = (h ^ v) * 1099511628211ull; }
        fprintf(f, "obs %llu %zu\n", (unsigned long long)h, observed.size());
        fclose(f);
        INC(G->samples);
      }
    }
  }
  INC(G->finished);
  __sync_fetch_and_sub(&G->live, 1);
  releaseToken();
  while (waitpid(-1, nullptr, 0) > 0 || errno == EINTR) {}
  extern bool isRoot; extern void finish();
  if (isRoot) finish();
  _exit(0);
}
bool isRoot = true;

// ------------------------------------------------------------------------------------------
// memory
// ------------------------------------------------------------------------------------------
static const u64 FLAGBASE = 0x100000000000ull;
static inline u8 *flag(u64 a) { return (u8 *)((a >> 3) + FLAGBASE); }
static const u8 F_POISON = 0x80, F_SYM = 0x40;
struct Page { u64 e[4096]; }; // handle << 16 | index << 8 | size   (handles are 48 bit)
static std::unordered_map<u64, Page *> pages;
static u64 lastPageNo = ~0ull; static Page *lastPage;
static Page *page(u64 a, bool make) {
  u64 p = a >> 12;
  if (p == lastPageNo) return lastPage;
  auto it = pages.find(p);
  if (it == pages.end()) { if (!make) return nullptr; Page *q = (Page *)calloc(1, sizeof(Page)); it = pages.emplace(p, q).first; }
  lastPageNo = p; lastPage = it->second;
  return lastPage;
}
static u64 getByte(u64 a) { if (!(*flag(a) & F_SYM)) return 0; Page *p = page(a, false); return p ? p->e[a & 4095] : 0; }
static void setByte(u64 a, u64 e) {
  u8 *f = flag(a);
  if (!e) { if (!(*f & F_SYM)) return; Page *p = page(a, true); p->e[a & 4095] = 0; u64 g = a & ~7ull & 4095; bool anyb = false; for (int i = 0; i < 8; ++i) if (p->e[g + i]) anyb = true; if (!anyb) *f &= ~F_SYM; return; }
  Page *p = page(a, true);
  if (!(*f & F_SYM)) { u64 g = a & ~7ull & 4095; for (int i = 0; i < 8; ++i) p->e[g + i] = 0; *f |= F_SYM; }
  p->e[a & 4095] = e;
}
static u64 ent(Node *n, unsigned i, unsigned size) { return ((u64)n << 16) | (i << 8) | size; }
static Node *entN(u64 e) { return (Node *)(e >> 16); }
static void memErr(u64 a, u64 n, const char *what) { char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at %llx: out of bounds or freed memory", what, (unsigned long long)n, (unsigned long long)a); violationNow("memory", b); }
static void checkPoison(u64 a, u64 n, const char *what) {
  for (u64 g = a & ~7ull; g < a + n; g += 8) {
    u8 f = *flag(g);
    if (f & F_POISON) {
      unsigned k = f & 7; u64 end = a + n < g + 8 ? a + n : g + 8;
      if (end > g + k) memErr(a, n, what);
    }
  }
}
static const u64 ARENA = 0x300000000000ull, ARENASZ = 1ull << 36;
static u64 arenaTop = ARENA, liveBytes = 0;
static const u64 MAGIC = 0x5ca1ab1e0ddba11ull;
struct FreeQ { std::vector<u64> v; size_t head = 0; };
static std::unordered_map<u64, FreeQ> freeq;
static const u64 MEMLIMIT = 3ull << 30;

extern "C" {
void *__symrt_malloc(u64 n) {
  if (n > (1ull << 30)) { throw std::bad_alloc(); }
  u64 user = (n + 8 + 15) & ~15ull; // at least 8 bytes of red zone behind
  u64 tot = 16 + user;
  u64 b = 0;
  auto it = freeq.find(tot);
  if (it != freeq.end() && it->second.v.size() - it->second.head > 512) { b = it->second.v[it->second.head++]; if (it->second.head > 4096) { it->second.v.erase(it->second.v.begin(), it->second.v.begin() + it->second.head); it->second.head = 0; } }
  if (!b) { b = arenaTop; arenaTop += tot; if (arenaTop - ARENA > MEMLIMIT) violationNow("hang", "memory limit exceeded"); }
  u64 *h = (u64 *)b; h[0] = MAGIC; h[1] = n;
  u64 p = b + 16;
  u8 *f = flag(b);
  f[0] = f[1] = F_POISON;
  memset(f + 2, 0, n / 8);
  u64 i = n / 8;
  if (n & 7) { f[2 + i] = F_POISON | (n & 7); i++; }
  memset(f + 2 + i, F_POISON, user / 8 - i);
  memset((void *)p, 0xAB, n < 4096 ? n : 4096);
  return (void *)p;
}
void __symrt_free(void *q) {
  if (!q) return;
  u64 p = (u64)q;
  if (p < ARENA || p >= ARENA + ARENASZ) { free(q); return; }
  u64 *h = (u64 *)(p - 16);
  if (h[0] != MAGIC) { violationNow("memory", "invalid or double free"); }
  h[0] = 0;
  u64 n = h[1];
  u64 user = (n + 8 + 15) & ~15ull;
  memset(flag(p), F_POISON, user / 8);
  freeq[16 + user].v.push_back(p - 16);
}
void *__symrt_calloc(u64 a, u64 b) { void *p = __symrt_malloc(a * b); memset(p, 0, a * b); return p; }
void __symrt_memmove(void *d, void *s, u64 n);
void *__symrt_realloc(void *p, u64 n) { void *q = __symrt_malloc(n); if (p) { u64 o = ((u64 *)((u64)p - 16))[1]; __symrt_memmove(q, p, o < n ? o : n); __symrt_free(p); } return q; }

static bool flagged(u64 a, u64 n) {
  if (!n) return false;
  u8 *f = flag(a), *e = flag(a + n - 1);
  for (; f <= e; ++f) if (*f) return true;
  return false;
}
void __symrt_memmove(void *d, void *s, u64 n) {
  if (!n) return;
  u64 D = (u64)d, S = (u64)s;
  bool fs = flagged(S, n), fd = flagged(D, n);
  if (!fs && !fd) { memmove(d, s, n); return; }
  if (fs) checkPoison(S, n, "read");
  if (fd) checkPoison(D, n, "write");
  std::vector<u64> t(n, 0);
  if (fs) for (u64 i = 0; i < n; ++i) t[i] = getByte(S + i);
  memmove(d, s, n);
  for (u64 i = 0; i < n; ++i) setByte(D + i, t[i]);
}
void __symrt_memset(void *d, u32 v, u64 n) {
  if (!n) return;
  u64 D = (u64)d;
  if (flagged(D, n)) { checkPoison(D, n, "write"); for (u64 i = 0; i < n; ++i) setByte(D + i, 0); }
  memset(d, (int)v, n);
}
u64 __symrt_load(void *p, u32 fp, u32 bits) {
  u64 a = (u64)p; u32 n = (bits + 7) / 8;
  checkPoison(a, n, "read");
  u64 e0 = getByte(a);
  Node *r = nullptr;
  if (e0) {
    Node *x = entN(e0);
    bool same = (e0 & 0xff) == n && ((e0 >> 8) & 0xff) == 0;
    for (u32 i = 1; same && i < n; ++i) if (getByte(a + i) != ent(x, i, n)) same = false;
    if (same) r = x;
  }
  if (!r) {
    bool anyb = false;
    for (u32 i = 0; i < n; ++i) if (getByte(a + i)) anyb = true;
    if (!anyb) return 0;
    for (u32 i = 0; i < n; ++i) { // little endian: byte i is more significant
      u64 e = getByte(a + i);
      Node *b = e ? mkExtract(toBV(entN(e), (e & 0xff) * 8), 8 * ((e >> 8) & 0xff), 8) : cbv(((u8 *)a)[i], 8);
      r = r ? mkConcat(b, r) : b;
    }
  }
  if (fp) r = toFP(r);
  else {
    if (r->sort == S_FP) r = toBV(r, bits);
    if (bits == 1 && r->sort == S_BV) r = mkUn(OP_TRUNC, 1, r);
    if (bits > 1 && r->sort == S_BOOL) r = bool2bv(r, bits);
    if (r->sort == S_BV && r->w > bits) r = mkExtract(r, 0, bits);
  }
  return (u64)r;
}
void __symrt_store(void *p, u32 bits, u64 s) { // after the native store
  u64 a = (u64)p; u32 n = (bits + 7) / 8;
  checkPoison(a, n, "write");
  Node *x = (Node *)s;
  if (x && x->sort == S_BOOL && !isC(x)) x = bool2bv(x, 8);
  if (x && isC(x)) { u64 v = x->c; memcpy(p, &v, n); x = nullptr; }
  for (u32 i = 0; i < n; ++i) setByte(a + i, x ? ent(x, i, n) : 0);
}
void __symrt_storeclear(void *p, u64 n) { // before the native store
  u64 a = (u64)p;
  checkPoison(a, n, "write");
  for (u64 i = 0; i < n; ++i) setByte(a + i, 0);
}
void __symrt_loadconcrete(void *p, u64 n) { // make memory concrete: all feasible values are explored
  u64 a = (u64)p;
  checkPoison(a, n, "read");
  for (u64 i = 0; i < n;) {
    u64 e = getByte(a + i);
    if (!e) { i++; continue; }
    Node *x = entN(e); unsigned size = e & 0xff, idx = (e >> 8) & 0xff;
    u64 v = concretizeNode(x);
    for (unsigned j = idx; j < size && i < n && getByte(a + i) == ent(x, j, size); ++j, ++i) { ((u8 *)a)[i] = (u8)(v >> (8 * j)); setByte(a + i, 0); }
  }
}
void __symrt_loadptr(void *p) { __symrt_loadconcrete(p, 8); }
void __symrt_extptr(void *p, const char *fn) {
  u64 a = (u64)p;
  if (!a || a < 4096) return;
  for (int i = 0; i < 8; ++i) { u8 f = *flag(a + 8 * i); if (f & F_POISON) break; if (f & F_SYM) { char b[200]; snprintf(b, sizeof b, "symbolic memory passed to external function %s", fn); unsupportedOp(b); } }
}
// A string handed to a function of the C++ library that is not instrumented: its characters must not be symbolic
void __symrt_extstring(void *p, const char *fn) {
  u64 a = (u64)p;
  if (!a || a < 4096 || (*flag(a) & F_POISON)) return;
  u64 data = *(u64 *)a, size = *(u64 *)(a + 8);
  if (data < 4096 || size > 4096) return;
  for (u64 i = 0; i < size; ++i) if (getByte(data + i)) { char b[200]; snprintf(b, sizeof b, "symbolic characters passed to %.150s", fn); unsupportedOp(b); }
}
void __symrt_unsupported(const char *w) { unsupportedOp(w); }
void __symrt_checkzero(u32 n) { for (u32 i = 0; i < n; ++i) if (__symrt_ret[i]) unsupportedOp("store of aggregate with symbolic member"); }

// ------------------------------------------------------------------------------------------
// operations called by instrumented code
// ------------------------------------------------------------------------------------------
static bool fpOp(unsigned op) { return (op >= OP_FADD && op <= OP_COPYSIGN) || op == OP_POW || op == OP_ATAN2 || op == OP_HYPOT || op == OP_NEXTAFTER || op == OP_FMOD; }
u64 __symrt_bin(u32 op, u32 w, u64 s1, u64 v1, u64 s2, u64 v2) {
  bool fp = fpOp(op);
  return (u64)mkBin(op, H(s1, v1, fp, w), H(s2, v2, fp, w));
}
u64 __symrt_un(u32 op, u32 wi, u32 wo, u64 s) { (void)wi; return (u64)mkUn(op, wo, (Node *)s); }
u64 __symrt_fcmp(u32 pred, u32 w, u64 s1, u64 v1, u64 s2, u64 v2) {
  Node *a = toFP(H(s1, v1, true, w)), *b = toFP(H(s2, v2, true, w));
  switch (pred) {
  case 0: return (u64)FALSE_;
  case 1: return (u64)mkFcmp(N_FEQ, a, b);
  case 2: return (u64)mkFcmp(N_FLT, b, a);
  case 3: return (u64)mkFcmp(N_FLE, b, a);
  case 4: return (u64)mkFcmp(N_FLT, a, b);
  case 5: return (u64)mkFcmp(N_FLE, a, b);
  case 6: return (u64)mkAnd(mkNot(mkFcmp(N_FEQ, a, b)), mkNot(mkFcmp(N_FUNO, a, b)));
  case 7: return (u64)mkNot(mkFcmp(N_FUNO, a, b));
  case 8: return (u64)mkFcmp(N_FUNO, a, b);
  case 9: return (u64)mkOr(mkFcmp(N_FEQ, a, b), mkFcmp(N_FUNO, a, b));
  case 10: return (u64)mkNot(mkFcmp(N_FLE, a, b));
  case 11: return (u64)mkNot(mkFcmp(N_FLT, a, b));
  case 12: return (u64)mkNot(mkFcmp(N_FLE, b, a));
  case 13: return (u64)mkNot(mkFcmp(N_FLT, b, a));
  case 14: return (u64)mkNot(mkFcmp(N_FEQ, a, b));
  default: return (u64)TRUE_;
  }
}
u64 __symrt_select(u32 fp, u32 w, u64 sc, u64 s1, u64 v1, u64 s2, u64 v2) {
  Node *c = (Node *)sc;
  int q = quick(c);
  Node *a = H(s1, v1, fp, w), *b = H(s2, v2, fp, w);
  if (q != 2) return (u64)(q ? a : b);
  return (u64)mkIte(c, a, b);
}
bool __symrt_branch(u64 s) { return forkOn((Node *)s); }
u64 __symrt_switch(u64 s, u32 w, u32 n, const u64 *cases) {
  Node *x = (Node *)s;
  if (isC(x)) return x->c;
  for (u32 i = 0; i < n; ++i) if (forkOn(x->sort == S_BOOL ? (cases[i] & 1 ? x : mkNot(x)) : mkEq(x, cbv(cases[i], w)))) return cases[i];
  for (u64 v = 0;; ++v) { bool used = false; for (u32 i = 0; i < n; ++i) if (cases[i] == (v & maskw(w))) used = true; if (!used) return v & maskw(w); }
}
u64 __symrt_concretize(u64 s, u32) { return concretizeNode((Node *)s); }
u64 __symrt_modelvalue(u64 s, u32) { return evalN((Node *)s); }
u64 __symrt_fpclass(u64 s, u32 w, u32 mask) {
  Node *a = toFP((Node *)s);
  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
  if (isC(a)) return (u64)cbool(__builtin_isnan(bits2d(a->c, w)) ? (mask & 3) : [&] { double d = bits2d(a->c, w); int c = std::fpclassify(d); bool n = std::signbit(d); unsigned b = c == FP_INFINITE ? (n ? 2 : 9) : c == FP_ZERO ? (n ? 5 : 6) : c == FP_SUBNORMAL ? (n ? 4 : 7) : (n ? 3 : 8); return (mask >> b) & 1; }());
  if (isMixed(a)) return (u64)mkIte(a->k[0], (Node *)__symrt_fpclass((u64)a->k[1], w, mask), (Node *)__symrt_fpclass((u64)a->k[2], w, mask));
  if (a->fix || (a->op == OP_SQRT && a->k[0]->fix && a->k[0]->lo >= 0)) {
    Node *z = cfp(0, w);
    Node *neg = mkFcmp(N_FLT, a, z), *zero = mkFcmp(N_FEQ, a, z);
    return (u64)mkIte(zero, cbool(mask & (1 << 6)), mkIte(neg, cbool(mask & (1 << 3)), cbool(mask & (1 << 8))));
  }
  Node *nan = mkFcmp(N_FUNO, a, a), *inf = cfp(d2bits(INFINITY, w), w), *ninf = cfp(d2bits(-INFINITY, w), w), *z = cfp(0, w);
  if ((mask & 3) != 0 && (mask & 3) != 3) unsupportedOp("is.fpclass snan");
  if (!!(mask & 8) != !!(mask & 16) || !!(mask & 128) != !!(mask & 256) || !!(mask & 32) != !!(mask & 64)) unsupportedOp("is.fpclass subnormal");
  Node *r = FALSE_;
  if (mask & 3) r = mkOr(r, nan);
  if (mask & 4) r = mkOr(r, mkFcmp(N_FEQ, a, ninf));
  if (mask & 512) r = mkOr(r, mkFcmp(N_FEQ, a, inf));
  if (mask & 32) r = mkOr(r, mkFcmp(N_FEQ, a, z));
  if (mask & 8) r = mkOr(r, mkAnd(mkFcmp(N_FLT, a, z), mkFcmp(N_FLT, ninf, a)));
  if (mask & 256) r = mkOr(r, mkAnd(mkFcmp(N_FLT, z, a), mkFcmp(N_FLT, a, inf)));
  return (u64)r;
}
u64 __symrt_fma(u32 w, u64 s1, u64 v1, u64 s2, u64 v2, u64 s3, u64 v3) {
  Node *m = mkFarith(OP_FMUL, toFP(H(s1, v1, true, w)), toFP(H(s2, v2, true, w)));
  return (u64)mkFarith(OP_FADD, m, toFP(H(s3, v3, true, w)));
}
u64 __symrt_fsh(u32 left, u32 w, u64 s1, u64 v1, u64 s2, u64 v2, u64 s3, u64 v3) {
  Node *a = H(s1, v1, false, w), *b = H(s2, v2, false, w), *c = H(s3, v3, false, w);
  u64 k = concretizeNode(c) % w;
  if (k == 0) return (u64)(left ? a : b);
  if (!left) k = w - k;
  return (u64)mkBin(OP_OR, mkBin(OP_SHL, a, cbv(k, w)), mkBin(OP_LSHR, b, cbv(w - k, w)));
}

// ------------------------------------------------------------------------------------------
// interface of harnesses
// ------------------------------------------------------------------------------------------
static Node *newVar(const char *name, Sort s, u8 w, char kind, i64 lo, i64 hi, int scale) {
  u64 k = vars.size();
  Node *n = raw(N_VAR, s, w, k);
  vars.push_back({name, n, 0, kind, scale});
  if (s == S_FP) { n->fix = true; n->scale = scale; n->lo = lo; n->hi = hi; }
  else if (s == S_BV && kind == 'i') { n->lo = lo; n->hi = hi; }
  vars[k].val = (u64)lo;
  epoch++;
  return n;
}
static void rangeVar(Node *n, u8 w, i64 lo, i64 hi) {
  // range constraints go to the solver, the model (val = lo) satisfies them
  Z3_ast z = zx(n);
  if (n->sort == S_FP && intMode) { Z3_solver_assert(Z, SOL, Z3_mk_ge(Z, z, zint(lo))); Z3_solver_assert(Z, SOL, Z3_mk_le(Z, z, zint(hi))); return; }
  if (lo > smin(w)) Z3_solver_assert(Z, SOL, Z3_mk_bvsge(Z, z, znum((u64)lo, w)));
  if (hi < smaxv(w)) Z3_solver_assert(Z, SOL, Z3_mk_bvsle(Z, z, znum((u64)hi, w)));
}
int symapi_int(const char *name, int lo, int hi) {
  if (lo == hi) { __symrt_ret[0] = 0; return lo; }
  u8 w = wneed(lo, hi);
  if (w < 2) w = 2;
  Node *n = newVar(name, S_BV, w, 'i', lo, hi, 0);
  rangeVar(n, w, lo, hi);
  __symrt_ret[0] = (u64)(w < 32 ? mkSext(n, 32) : n);
  return lo;
}
bool symapi_bool(const char *name) { Node *n = newVar(name, S_BOOL, 1, 'b', 0, 1, 0); zx(n); __symrt_ret[0] = (u64)n; return false; }
double symapi_fix(const char *name, long lo, long hi, int scale) {
  Node *n = newVar(name, S_FP, 64, 'x', lo, hi, scale);
  rangeVar(n, fw(n), lo, hi);
  __symrt_ret[0] = (u64)n;
  return 0;
}
static void finiteNonNaN(Node *n) { // not NaN, not infinite
  u8 w = n->w;
  Z3_ast z = zfp(n);
  Z3_ast v[2] = {Z3_mk_fpa_is_nan(Z, z), Z3_mk_fpa_is_infinite(Z, z)};
  (void)w;
  Z3_solver_assert(Z, SOL, Z3_mk_not(Z, Z3_mk_or(Z, 2, v)));
}
double symapi_double(const char *name) { Node *v = newVar(name, S_BV, 64, 'd', 0, 0, 0); v->lo = INT64_MIN; v->hi = INT64_MAX; vars.back().val = 0; Node *n = toFP(v); finiteNonNaN(n); __symrt_ret[0] = (u64)n; return 0; }
float symapi_float(const char *name) { Node *v = newVar(name, S_BV, 32, 'f', 0, 0, 0); v->lo = smin(32); v->hi = smaxv(32); vars.back().val = 0; Node *n = toFP(v); finiteNonNaN(n); __symrt_ret[0] = (u64)n; return 0; }
void symapi_assume(bool c) {
  u64 s = __symrt_args[0];
  if (!s) { if (!c) { INC(G->assumes_cut); pathEnd(false); } return; }
  Node *b = (Node *)s;
  int q = quick(b);
  if (q == 1) return;
  if (q == 0) { INC(G->assumes_cut); pathEnd(false); }
  if (evalN(b)) { assume(b, true); return; }
  if (!checkSat(b, true)) { INC(G->assumes_cut); pathEnd(false); }
  useModel();
  assume(b, true);
}
void symapi_assert(bool c, const char *msg) {
  u64 s = __symrt_args[0];
  if (!s) { INC(G->asserts_trivial); if (!c) violationNow("assert", msg); return; }
  Node *b = (Node *)s;
  int q = quick(b);
  if (q == 1) { INC(G->asserts_trivial); return; }
  INC(G->asserts_solver);
  if (q == 0) violationNow("assert", msg);
  if (!evalN(b)) violationNow("assert", msg);
  if (checkSat(b, false)) { useModel(); violationNow("assert", msg); }
  setFact(b, true);
}
void symapi_reach(const char *l) {
  lk();
  int i = 0;
  for (; i < G->nlab; ++i) if (!strncmp(G->lab[i], l, 63)) break;
  if (i == G->nlab && i < MAXLAB) { strncpy(G->lab[i], l, 63); G->nlab++; }
  if (i < MAXLAB) G->labc[i]++;
  ulk();
}
void symapi_observe(long v) { u64 s = __symrt_args[0]; observed.push_back({(Node *)s, (u64)v}); }
void symapi_observe_d(double d) { u64 s = __symrt_args[0]; u64 b; memcpy(&b, &d, 8); if ((b << 1) == 0) b = 0; observed.push_back({(Node *)s, b}); }
long symapi_concretize(long v) { u64 s = __symrt_args[0]; __symrt_ret[0] = 0; return s ? (long)concretizeNode((Node *)s) : v; }
double symapi_concretize_d(double v) { u64 s = __symrt_args[0]; __symrt_ret[0] = 0; return s ? bits2d(concretizeNode((Node *)s), 64) : v; }
bool symapi_and(bool a, bool b) { Node *r = mkAnd(H(__symrt_args[0], a, false, 1), H(__symrt_args[1], b, false, 1)); __symrt_ret[0] = (u64)r; return r == TRUE_; }
bool symapi_or(bool a, bool b) { Node *r = mkOr(H(__symrt_args[0], a, false, 1), H(__symrt_args[1], b, false, 1)); __symrt_ret[0] = (u64)r; return r == TRUE_; }
bool symapi_not(bool a) { Node *r = mkNot(H(__symrt_args[0], a, false, 1)); __symrt_ret[0] = (u64)r; return r == TRUE_; }
bool symapi_close(double a, double b) {
  u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  Node *p = H(__symrt_args[0], x, true, 64), *q = H(__symrt_args[1], y, true, 64);
  __symrt_ret[0] = 0;
  if (!isC(p) || !isC(q)) {
    Node *n = closeNode(p, q);
    if (n) { __symrt_ret[0] = (u64)n; return n == TRUE_; }
    a = bits2d(concretizeNode(p), 64); b = bits2d(concretizeNode(q), 64);
    __symrt_ret[0] = 0;
  } else { a = bits2d(p->c, 64); b = bits2d(q->c, 64); }
  if (a == b) return true;
  return std::fabs(a - b) <= 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b)));
}
double symapi_ite_d(bool c, double a, double b) {
  u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  Node *r = (Node *)__symrt_select(1, 64, (u64)H(__symrt_args[0], c, false, 1), __symrt_args[1], x, __symrt_args[2], y);
  __symrt_ret[0] = (u64)r; return 0;
}
long symapi_ite_l(bool c, long a, long b) {
  Node *r = (Node *)__symrt_select(0, 64, (u64)H(__symrt_args[0], c, false, 1), __symrt_args[1], (u64)a, __symrt_args[2], (u64)b);
  __symrt_ret[0] = (u64)r; return 0;
}
int symapi_tier() { const char *t = getenv("VERIF_TIER"); __symrt_ret[0] = 0; return t && !strcmp(t, "thorough"); }
void symapi_linear() { intMode = true; }
void symapi_end() { pathEnd(true); }
void symapi_dump(double) { u64 s = __symrt_args[0]; if (s) { Node *n = (Node *)s; fprintf(stderr, "node op=%d fix=%d scale=%d lo=%lld hi=%lld z=%s\n", n->op, n->fix, n->scale, (long long)n->lo, (long long)n->hi, Z3_ast_to_string(Z, zx(n))); } else fprintf(stderr, "concrete\n"); }

void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept {
  char b[400]; const char *s = strstr(f, "include/aleph"); snprintf(b, sizeof b, "assertion %s at %s:%u", e, s ? s : f, l);
  violationNow("assertfail", b);
  _exit(1);
}
typedef void (*hfun)();
} // extern "C"

void operator delete(void *p) noexcept { u64 a = (u64)p; if (a >= ARENA && a < ARENA + ARENASZ) __symrt_free(p); else free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// registry of harness functions, filled by static constructors of the harness
struct HReg { const char *name; void (*f)(); };
static HReg hregs[128]; static int nhreg = 0;
extern "C" void symapi_register(const char *name, void (*f)()) { hregs[nhreg++] = {name, f}; }

static double tstart;
void finish() {
  char fn[600]; snprintf(fn, sizeof fn, "%s/result.json", outdir);
  FILE *f = fopen(fn, "w");
  bool lost = G->started != G->finished;
  fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"branches\":%llu,\"implied\":%llu,\"quick\":%llu,\"concretizations\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"asserts_trivial\":%llu,\"asserts_solver\":%llu,\"assumes_cut\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"lost\":%d,\"samples\":%llu,\"maxdepth\":%llu,\"nodes\":%llu,\"procs_peak\":%llu,\"wall_s\":%.3f,\"why\":\"%s\",\"labels\":{",
          (unsigned long long)G->paths, (unsigned long long)G->forks, (unsigned long long)G->branches, (unsigned long long)G->implied, (unsigned long long)G->quick, (unsigned long long)G->concretizations,
          (unsigned long long)G->queries, (unsigned long long)G->sat, (unsigned long long)G->unsat, (unsigned long long)G->unknown, G->solver_ns * 1e-9,
          (unsigned long long)G->asserts_trivial, (unsigned long long)G->asserts_solver, (unsigned long long)G->assumes_cut, (unsigned long long)G->violations, (unsigned long long)G->incomplete, (int)lost,
          (unsigned long long)G->samples, (unsigned long long)G->maxdepth, (unsigned long long)G->nodes, (unsigned long long)G->procs_peak, now() - tstart, G->why);
  for (int i = 0; i < G->nlab; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", G->lab[i], (unsigned long long)G->labc[i]);
  fprintf(f, "}}\n");
  fclose(f);
  _exit(0);
}

int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SYM_NOREEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SYM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (argc > 1 && !strcmp(argv[1], "--list")) { for (int i = 0; i < nhreg; ++i) puts(hregs[i].name); return 0; }
  if (argc < 5) { fprintf(stderr, "usage: %s harness outdir seconds jobs\n", argv[0]); return 2; }
  tstart = now();
  snprintf(outdir, sizeof outdir, "%s", argv[2]);
  deadline = tstart + atof(argv[3]);
  rlimit rl; rl.rlim_cur = 512u << 20; rl.rlim_max = RLIM_INFINITY;
  if (!getenv("SYM_STACK")) { setenv("SYM_STACK", "1", 1); if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); }
  G = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G->tokens = atoi(argv[4]) - 1;
  for (int i = 0; i < MAXWAIT; ++i) { sem_init(&G->sem[i], 1, 0); G->freeslot[i] = i; }
  G->nfree = MAXWAIT;
  G->started = 1; G->live = 1;
  void (*f)() = nullptr;
  for (int i = 0; i < nhreg; ++i) if (!strcmp(hregs[i].name, argv[1])) f = hregs[i].f;
  if (!f) { fprintf(stderr, "no such harness\n"); return 2; }
  signal(SIGCHLD, SIG_IGN);
  stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { char b[200]; snprintf(b, sizeof b, "solver error: %s", Z3_get_error_msg(c, e)); incomplete(b); });
  const char *sv = getenv("SYM_SOLVER");
  SOL = sv && !strcmp(sv, "bv") ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, SOL);
  Z3_params pr = Z3_mk_params(Z); Z3_params_inc_ref(Z, pr);
  const char *rlim = getenv("SYM_RLIMIT");
  Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "rlimit"), rlim ? (unsigned)atol(rlim) : 400000000u);
  Z3_solver_set_params(Z, SOL, pr);
  started = true;
  armTimer();
  try { f(); }
  catch (std::exception &e) { char b[300]; snprintf(b, sizeof b, "uncaught exception %s: %s", typeid(e).name(), e.what()); violationNow("exception", b); }
  catch (...) { violationNow("exception", "uncaught exception"); }
  pathEnd(true);
}
// memory of flags and the arena exist before any constructor runs
__attribute__((constructor(101))) static void early() {
  void *p = mmap((void *)FLAGBASE, 0x100000000000ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap flags"); _exit(3); }
  p = mmap((void *)ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap arena"); _exit(3); }
  tab = (Node **)calloc(HB, sizeof(Node *));
  TRUE_ = raw(N_CONST, S_BOOL, 1, 1); FALSE_ = raw(N_CONST, S_BOOL, 1, 0);
  TRUE_->fact = 1; FALSE_->fact = 0;
}
