// Broad phase: the spatial grid of a system with D dimensions.  mk(lo,hi) makes a box.
#include <set>
#define OV "two boxes overlap exactly when no coordinate separates them (touching boxes overlap)"
#define GR "the grid reports every pair of boxes that overlap, each once, smaller index first"
#define GN "the grid reports no pair of boxes that do not overlap"
using Pairs = std::set<std::pair<unsigned, unsigned>>;
template<int D> using Arr = Eigen::Array<scalar, D, 1>;
template<int D> static Arr<D> arr(const char* nm) { Arr<D> a; for (int k = 0; k < D; ++k) a(k) = vc_real(nm); return a; }
template<int D> static Arr<D> arrPos(const char* nm) { Arr<D> a; for (int k = 0; k < D; ++k) a(k) = vc_pos(nm); return a; }
template<int D> static bool meet(const Arr<D>& l0, const Arr<D>& h0, const Arr<D>& l1, const Arr<D>& h1) { bool r = true; for (int k = 0; k < D; ++k) r &= (l0(k) <= h1(k)) & (l1(k) <= h0(k)); return r; }
template<int D> static void overlapsExact() { const Arr<D> a = arr<D>("a"), b = a + arrPos<D>("ab"), c = arr<D>("c"), d = c + arrPos<D>("cd"); const AABB x = mk(a, b), y = mk(c, d); vc_assert(x.overlaps(y) == meet<D>(a, b, c, d), OV); vc_assert(y.overlaps(x) == meet<D>(a, b, c, d), OV); for (int k = 0; k < D; ++k) { vc_eq(x.min()(k), a(k), OV); vc_eq(x.max()(k), b(k), OV); } vc_cover("done"); }
// the reported set is exactly the set of overlapping pairs
template<int D> static void exactly(const std::vector<Arr<D>>& lo, const std::vector<Arr<D>>& hi, const Pairs& p)
{
  const size_t n = lo.size(); long k = 0;
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (meet<D>(lo[i], hi[i], lo[j], hi[j])) { ++k; vc_assert(p.count(std::make_pair(unsigned(i), unsigned(j))) == 1, GR); }
  vc_eqi(long(p.size()), k, GN);
}
template<int D, class F> static void allPairs(long n, F f)
{
  std::vector<Arr<D>> lo, hi; std::vector<AABB> b; for (long i = 0; i < n; ++i) { lo.push_back(arr<D>("lo")); hi.push_back(lo.back() + arrPos<D>("ext")); b.push_back(mk(lo.back(), hi.back())); }
  Pairs p; f(b, p); exactly<D>(lo, hi, p); vc_cover("done");
}
// two boxes of the listed shapes, anywhere: all relative positions
// (s0: shape of the first box, s1: of the second; level: axis on which their relative position is fixed)
template<int D, class F> static void grid(F f, long s0, long s1, int level = -1)
{
  static const double shapes[6][3] = {{1, 1, 1}, {0.5, 1, 0.25}, {0.25, 0.25, 0.25}, {1, 0.25, 0.5}, {0.75, 0.25, 1}, {0.5, 0.5, 0.5}}; std::vector<Arr<D>> lo, hi; std::vector<AABB> b;
  const long n = vc_size("n", 1, 5); for (long i = 0; i < n; ++i) { Arr<D> l = arr<D>("lo"), e; for (int k = 0; k < D; ++k) vc_assume((l(k) >= -1e6) & (l(k) <= 1e6)); if (i > 0 && level >= 0) l(level) = lo[0](level) + 0.25; for (int k = 0; k < D; ++k) e(k) = shapes[i == 0 ? s0 : s1][k]; lo.push_back(l); hi.push_back(l + e); b.push_back(mk(l, hi.back())); }
  Pairs p; f(b, p); exactly<D>(lo, hi, p); vc_cover("done");
}
// boxes so far apart that the grid has up to 2^31 cells on an axis
template<int D, class F> static void gridFar(F f)
{
  std::vector<Arr<D>> lo, hi; std::vector<AABB> b; const long n = vc_int("n", 2, 6); const scalar h = 1.0, big = h * (double(n) - 0.5 * double(n - 1)); Arr<D> l = arr<D>("lo");
  for (long i = 0; i < n; ++i) { // total extent n, so cells have width one, and the first box spans several cells
    Arr<D> e = Arr<D>::Constant(i == 0 ? big : 0.5), x = l; if (i > 0) for (int k = 0; k < D; ++k) { const scalar d = std::pow(2.0, double(vc_int("log2", 0, 31))); x(k) += d - (vc_bool("off") ? vc_real_in("f", -1, 2) : 0.75); }
    lo.push_back(x); hi.push_back(x + e); b.push_back(mk(x, x + e)); }
  Pairs p; f(b, p); exactly<D>(lo, hi, p); vc_cover("done");
}
// many boxes, of very different sizes, clustered or spread, touching, in rows or random
template<int D, class F> static void gridMany(F f)
{
  const long n = vc_int("n", 1, 40), kind = vc_choose("kind", 5); const scalar w = vc_real_in("w", 0.01, 2), spread = vc_real_in("spread", 0.1, 12); std::vector<Arr<D>> lo, hi; std::vector<AABB> b; const scalar far = vc_choose("far", 3) == 0 ? 1000.0 : 0.0;
  for (long i = 0; i < n; ++i) { Arr<D> l, e; for (int k = 0; k < D; ++k) {
      if (kind == 0) { l(k) = far + vc_real_in("p", -spread, spread); e(k) = w * vc_real_in("e", 0.2, 1); }
      else if (kind == 1) { e(k) = 0.25; l(k) = -far + 0.25 * vc_int("cell", -8, 8); }                            // boxes that touch exactly
      else if (kind == 2) { e(k) = i == 0 ? spread : 0.05 * w + 0.001; l(k) = vc_real_in("p", -spread, spread); } // one big box among small ones
      else if (kind == 3) { e(k) = w; l(k) = k == 0 ? w * double(i) : vc_real_in("p", -0.1, 0.1); }               // a row
      else { e(k) = std::pow(2.0, -double(vc_int("x", 0, 5))); l(k) = e(k) * vc_int("c", -6, 6); } }              // octree-like cells
    lo.push_back(l); hi.push_back(l + e); b.push_back(mk(l, hi.back())); }
  Pairs p; f(b, p); exactly<D>(lo, hi, p); Pairs q; f(b, q); vc_assert(p == q, "the answer depends on the boxes only"); vc_cover("done");
}
