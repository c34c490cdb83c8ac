// Native side of the contract vocabulary: random inputs, replay of recorded inputs, tolerant comparison.
#define VC_NATIVE
#include "vc.h"
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
struct Reject {};
struct Fail { std::string label; };
struct Exited {};
struct Entry { std::string name; void (*f)(); };
static std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
VcReg::VcReg(const char* n, void(*f)()) { table().push_back({n, f}); }
struct In { std::string name; char kind; double v; bool given; };
static std::vector<In> used, replay;
static size_t rpos = 0;
static bool replaying = false;
static std::mt19937_64 rng;
static bool allowExit = false;
static unsigned long curSeed = 0;
static const char* curName = "";
static std::map<long, std::stringstream*> streams;
static double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static long unii(long a, long b) { return std::uniform_int_distribution<long>(a, b)(rng); }
static bool next(const char* n, char kind, double& v)
{
  if (replaying && rpos < replay.size()) { In r = replay[rpos++]; if (r.given) { v = r.v; return true; } }
  return false;
}
static double rec(const char* n, char k, double v) { used.push_back({n, k, v, true}); return v; }
static int mode = 0;
static double genreal()
{
  switch (mode) {
    case 0: return uni(-3, 3);
    case 1: return double(unii(-3, 3));
    case 2: { long k = unii(0, 5); if (k < 2) return double(unii(-2, 2)); if (k == 2) return 0.5 * double(unii(-6, 6)); return uni(-3, 3); }
    default: return std::normal_distribution<double>(0, 1)(rng) * std::pow(10.0, uni(-2, 2));
  }
}
extern "C" {
double vc_real(const char* n) { double v; if (!next(n, 'r', v)) v = genreal(); return rec(n, 'r', v); }
double vc_pos(const char* n) { double v; if (!next(n, 'r', v)) { v = std::fabs(genreal()); if (v == 0) v = 1; } if (!(v > 0)) throw Reject(); return rec(n, 'r', v); }
double vc_real_in(const char* n, double lo, double hi)
{
  double v;
  if (!next(n, 'r', v)) { long k = unii(0, 9); v = k == 0 ? lo : k == 1 ? hi : uni(lo, hi); }
  if (!(v >= lo && v <= hi)) throw Reject();
  return rec(n, 'r', v);
}
long vc_int(const char* n, long lo, long hi)
{
  double v; long r;
  if (next(n, 'i', v)) r = long(v);
  else {
    if (hi < lo) throw Reject();
    unsigned long span = (unsigned long)hi - (unsigned long)lo;
    if (span > 8) { long k = unii(0, 3); if (k == 0 && lo < 0 && hi > 0) r = unii(-4 < lo ? lo : -4, 4 > hi ? hi : 4); else if (k == 1 && span < 100000) r = unii(lo, hi); else if (lo < 0 && hi > 0 && k == 2) r = unii(-100 < lo ? lo : -100, 100 > hi ? hi : 100); else r = lo < 0 && hi > 0 ? unii(-20 < lo ? lo : -20, 20 > hi ? hi : 20) : lo + unii(0, 8); }
    else r = unii(lo, hi);
  }
  if (r < lo || r > hi) throw Reject();
  rec(n, 'i', double(r));
  return r;
}
long vc_size(const char* n, long lo, long hi)
{
  double v; long r;
  if (next(n, 'i', v)) { r = long(v); if (r > lo + 64) r = lo + unii(0, 5); } else { long h = lo + 5 < hi ? lo + 5 : hi; r = unii(lo, h); }
  if (r < lo || r > hi) throw Reject();
  rec(n, 'i', double(r));
  return r;
}
long vc_char(const char* n)
{
  static const char al[] = " \t\n\v\r\fab,,//..00019-+eX \xe9\xff\x80";
  double v; long r;
  if (next(n, 'i', v)) r = long(v); else { long k = unii(0, 19); r = k == 0 ? unii(-128, 127) : (long)al[unii(0, long(sizeof(al)) - 1)]; if (mode == 1) r = "a, "[unii(0, 2)]; }
  if (r < -128 || r > 127) throw Reject();
  return long(rec(n, 'i', double(r)));
}
int vc_bool(const char* n) { double v; if (!next(n, 'b', v)) v = double(unii(0, 1)); return rec(n, 'b', v) != 0; }
long vc_choose(const char* n, long k) { double v; if (!next(n, 'i', v)) v = double(unii(0, k - 1)); if (v < 0 || v >= k) throw Reject(); return long(rec(n, 'i', v)); }
void vc_unit(const char* n, double* p, long k)
{
  bool got = true; double s = 0;
  for (long i = 0; i < k; ++i) { double v; if (!next(n, 'r', v)) { got = false; v = std::normal_distribution<double>(0, 1)(rng); } p[i] = v; }
  if (!got) { long c = unii(0, 5); if (c == 0) { for (long i = 0; i < k; ++i) p[i] = 0; p[unii(0, k - 1)] = unii(0, 1) ? 1.0 : -1.0; }
              else if (c == 1 && k > 2) { p[unii(0, k - 1)] = 0; } }
  for (long i = 0; i < k; ++i) s += p[i] * p[i];
  s = std::sqrt(s);
  if (!(s > 1e-3)) throw Reject();
  for (long i = 0; i < k; ++i) { p[i] /= s; rec(n, 'r', p[i]); }
}
void vc_fill(const char* n, double* p, long k) { for (long i = 0; i < k; ++i) p[i] = vc_real(n); }
void vc_fill_pos(const char* n, double* p, long k) { for (long i = 0; i < k; ++i) p[i] = vc_pos(n); }
void vc_fill_u32(const char* n, unsigned* p, long k, long lo, long hi) { for (long i = 0; i < k; ++i) p[i] = unsigned(vc_int(n, lo, hi)); }
void vc_name(const char*, double*, long, int) {}
void vc_assume(int c) { if (!c) throw Reject(); }
void vc_assert(int c, const char* l) { if (!c) throw Fail{l}; }
static double tol(double a, double b) { double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); return 1e-6 * (1.0 + m); }
void vc_eq(double a, double b, const char* l) { if (a == b) return; if (std::isnan(a) && std::isnan(b)) return; if (!(std::fabs(a - b) <= tol(a, b))) { char t[200]; snprintf(t, 200, " (%.17g vs %.17g)", a, b); throw Fail{std::string(l) + t}; } }
void vc_le(double a, double b, const char* l) { if (!(a <= b + tol(a, b))) { char t[200]; snprintf(t, 200, " (%.17g <= %.17g)", a, b); throw Fail{std::string(l) + t}; } }
void vc_eqi(long a, long b, const char* l) { if (a != b) { char t[200]; snprintf(t, 200, " (%ld vs %ld)", a, b); throw Fail{std::string(l) + t}; } }
void vc_cover(const char*) {}
void vc_allow_exit(int c) { allowExit = c != 0; }
void vc_allow_throw(int) {}
int vc_native() { return 1; }
static std::stringstream* strm(long id) { auto& s = streams[id]; if (!s) s = new std::stringstream(std::ios::in | std::ios::out | std::ios::binary); return s; }
void* vc_stream(long id) { return strm(id); }
void vc_stream_done(long id)
{
  auto* s = strm(id);
  if (!s->good()) throw Fail{"stream not good after deserialization"};
  long w = long(s->tellp()), r = long(s->tellg());
  if (w < 0) w = 0;
  if (w != r) { char t[100]; snprintf(t, 100, "deserialization consumes exactly the bytes written (wrote %ld read %ld)", w, r); throw Fail{t}; }
}
double vc_same_fn(const char* n, double a, double b, double c)
{
  unsigned long h = 1469598103934665603ul;
  for (const char* p = n; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ul;
  double k1 = double(h % 97) / 31.0, k2 = double(h / 97 % 89) / 37.0, k3 = double(h / 8633 % 83) / 29.0;
  return std::sin(k1 * a + k2 * b + k3 * c + k1) + 0.3 * std::cos(k3 * a - k1 * b + k2 * c);
}
void __real_exit(int);
void vc_missing() { throw Reject(); } // a function of a library that is not installed was reached: the trial is discarded
void __wrap_exit(int c)
{
  if (allowExit) throw Exited();
  throw Fail{"program exits with an error"};
}
}
std::ostream& vc_os(long id) { return *strm(id); }
std::istream& vc_is(long id) { return *strm(id); }
static void dump(const char* st, const std::string& label)
{
  printf("{\"status\":\"%s\",\"harness\":\"%s\",\"seed\":%lu,\"mode\":%d,\"label\":\"", st, curName, curSeed, mode);
  for (char c : label) { if (c == '"' || c == '\\') putchar('\\'); if ((unsigned char)c >= 32) putchar(c); }
  printf("\",\"inputs\":[");
  for (size_t i = 0; i < used.size(); ++i) printf("%s[\"%s\",\"%c\",%.17g]", i ? "," : "", used[i].name.c_str(), used[i].kind, used[i].v);
  printf("]}\n");
  fflush(stdout);
}
static void onsig(int s)
{
  char b[200];
  int n = snprintf(b, 200, "{\"status\":\"crash\",\"harness\":\"%s\",\"seed\":%lu,\"mode\":%d,\"label\":\"signal %d\",\"inputs\":[]}\n", curName, curSeed, mode, s);
  fflush(stdout);
  if (write(1, b, n)) {}
  _exit(3);
}
extern "C" void __asan_on_error() { dump("fail", "invalid memory access (AddressSanitizer)"); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=3:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0"; }
static int trial(const Entry& e, unsigned long seed, int md)
{
  rng.seed(seed);
  curSeed = seed; curName = e.name.c_str(); mode = md;
  used.clear(); rpos = 0; allowExit = false;
  for (auto& s : streams) delete s.second;
  streams.clear();
  try { e.f(); return 0; }
  catch (Reject&) { return 1; }
  catch (Exited&) { return 0; }
  catch (Fail& f) { dump("fail", f.label); return 2; }
  catch (std::exception& x) { dump("fail", std::string("exception thrown: ") + x.what()); return 2; }
}
int main(int argc, char** argv)
{
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
  std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
  std::string h; unsigned long seed = 1; long trials = 200; double secs = 1e9; const char* rf = nullptr; bool list = false; int md = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--harness") h = argv[++i]; else if (a == "--seed") seed = strtoul(argv[++i], 0, 10);
    else if (a == "--trials") trials = atol(argv[++i]); else if (a == "--secs") secs = atof(argv[++i]);
    else if (a == "--replay") rf = argv[++i]; else if (a == "--list") list = true; else if (a == "--mode") md = atoi(argv[++i]);
  }
  if (list) { for (auto& e : table()) printf("%s\n", e.name.c_str()); return 0; }
  if (rf) {
    FILE* f = fopen(rf, "r"); char nm[256], k; char val[128];
    if (!f) return 4;
    while (fscanf(f, "%255s %c %127s", nm, &k, val) == 3) { In x; x.name = nm; x.kind = k; x.given = strcmp(val, "?") != 0; x.v = atof(val); replay.push_back(x); }
    fclose(f); replaying = true;
  }
  for (auto& e : table()) {
    if (!h.empty() && e.name != h) continue;
    long acc = 0, rej = 0; int rc = 0;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long maxTry = trials * 20;
    for (long t = 0; t < maxTry && acc < trials; ++t) {
      unsigned long s = seed + (unsigned long)t * (replaying ? 1000003ul : 7919ul);
      int r = trial(e, s, md >= 0 ? md : (replaying ? 0 : int(t % 4)));
      if (r == 2) { rc = 2; break; }
      if (r == 1) ++rej; else ++acc;
      if (replaying && t > 50) break;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    printf("{\"status\":\"%s\",\"harness\":\"%s\",\"accepted\":%ld,\"rejected\":%ld}\n", rc ? "done-fail" : "done", e.name.c_str(), acc, rej);
    fflush(stdout);
  }
  _exit(0);
}
