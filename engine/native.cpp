// Replay runtime: runs a harness natively on the inputs of a recorded path.
#include "sym.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>
struct In { std::string name; char kind; long long v; unsigned long long u; int scale; };
static std::vector<In> ins; static size_t pos = 0;
static uint64_t hash = 1469598103934665603ull; static size_t nobs = 0;
static std::string expect;
static const In &next(const char *n, char k) {
  if (pos >= ins.size() || ins[pos].name != n || ins[pos].kind != k) { fprintf(stderr, "REPLAY-DIVERGED input %zu %s %c\n", pos, n, k); _exit(12); }
  return ins[pos++];
}
extern "C" {
int symapi_int(const char *n, int lo, int hi) { if (lo == hi) return lo; return (int)next(n, 'i').v; }
bool symapi_bool(const char *n) { return next(n, 'b').v != 0; }
double symapi_fix(const char *n, long, long, int) { const In &i = next(n, 'x'); return ldexp((double)i.v, -i.scale); }
double symapi_double(const char *n) { const In &i = next(n, 'd'); double d; memcpy(&d, &i.u, 8); return d; }
float symapi_float(const char *n) { const In &i = next(n, 'f'); uint32_t u = (uint32_t)i.u; float d; memcpy(&d, &u, 4); return d; }
void symapi_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); _exit(11); } }
void symapi_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-ASSERT-FAILED %s\n", m); _exit(10); } }
void symapi_reach(const char *) {}
void symapi_observe(long v) { hash = (hash ^ (uint64_t)v) * 1099511628211ull; nobs++; }
void symapi_observe_d(double d) { uint64_t b; memcpy(&b, &d, 8); if ((b << 1) == 0) b = 0; hash = (hash ^ b) * 1099511628211ull; nobs++; }
long symapi_concretize(long v) { return v; }
double symapi_concretize_d(double v) { return v; }
bool symapi_and(bool a, bool b) { return a & b; }
bool symapi_or(bool a, bool b) { return a | b; }
bool symapi_not(bool a) { return !a; }
bool symapi_close(double a, double b) { return a == b || fabs(a - b) <= 1e-9 * (1 + fmax(fabs(a), fabs(b))); }
double symapi_ite_d(bool c, double a, double b) { return c ? a : b; }
long symapi_ite_l(bool c, long a, long b) { return c ? a : b; }
int symapi_tier() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void symapi_dump(double d) { fprintf(stderr, "%g\n", d); }
void symapi_linear() {}
struct HReg { const char *name; void (*f)(); };
static HReg hregs[128]; static int nhreg = 0;
void symapi_register(const char *name, void (*f)()) { hregs[nhreg++] = {name, f}; }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[2], "r");
  if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "in ", 3)) {
      char nm[2048], k; char val[64]; int sc;
      if (sscanf(line, "in %2047s %c %63s %d", nm, &k, val, &sc) == 4) ins.push_back({nm, k, strtoll(val, nullptr, 10), strtoull(val, nullptr, 10), sc});
    } else if (!strncmp(line, "obs ", 4)) expect = line + 4;
  }
  fclose(f);
  void (*h)() = nullptr;
  for (int i = 0; i < nhreg; ++i) if (!strcmp(hregs[i].name, argv[1])) h = hregs[i].f;
  if (!h) return 2;
  alarm(getenv("REPLAY_SECONDS") ? atoi(getenv("REPLAY_SECONDS")) : 120);
  try { h(); } catch (std::exception &e) { fprintf(stderr, "REPLAY-EXCEPTION %s\n", e.what()); _exit(13); } catch (...) { fprintf(stderr, "REPLAY-EXCEPTION\n"); _exit(13); }
  char b[128]; snprintf(b, sizeof b, "%llu %zu\n", (unsigned long long)hash, nobs);
  if (!expect.empty() && expect != b) { fprintf(stderr, "REPLAY-OBSERVATION-DIFFERS expected %s got %s", expect.c_str(), b); _exit(14); }
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
