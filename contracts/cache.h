// Warm-start caches: any history of stores, compared with the plain list of what was stored (ghost state).
#ifndef VC_CACHE_H
#define VC_CACHE_H
#include "eig.h"
#include "scisim/Constraints/Constraint.h"
#include <memory>
struct VcKey { long kind, i, j; };
struct VcCache {
  std::vector<VcKey> keys; std::vector<VectorXs> vals; long dim;
};
inline long vc_idx(const char* nm, bool small) { return vc_int(nm, 0, vc_native() || small ? 3 : 2147483000); }
// pair kinds: two bodies i<j.  boundary kinds: boundary j, body i.
template <class F> VcKey vc_key(F& f, const char* nm)
{
  VcKey k; k.kind = f.only >= 0 && !vc_native() ? f.only : vc_choose(nm, F::kinds); k.i = vc_idx(nm, f.small(k.kind)); k.j = vc_idx(nm, false);
  if (f.pair(k.kind)) vc_assume(k.i < k.j);
  if (f.distinct(k.kind)) vc_assume(k.i != k.j);
  return k;
}
template <class F> bool vc_same_key(F& f, const VcKey& a, const VcKey& b)
{
  if (a.kind != b.kind) return false;
  if (f.distinct(a.kind)) return ((a.i == b.i) & (a.j == b.j)) | ((a.i == b.j) & (a.j == b.i));
  return (a.i == b.i) & (a.j == b.j);
}
template <class F, class C> void vc_store(F& f, C& cache, VcCache& g)
{
  const long n = vc_size("stored", 0, 8);
  for (long k = 0; k < n; ++k) {
    const VcKey key = vc_key(f, "key");
    for (size_t l = 0; l < g.keys.size(); ++l) vc_assume(!vc_same_key(f, key, g.keys[l]));
    const VectorXs r = vc_vecx("r", g.dim);
    const std::unique_ptr<Constraint> c = f.make(key.kind, unsigned(key.i), unsigned(key.j));
    cache.cacheConstraint(*c, r);
    g.keys.push_back(key); g.vals.push_back(r);
  }
}
template <class F, class C> void vc_lookup(F& f, const C& cache, const VcCache& g, const VcKey& key)
{
  const std::unique_ptr<Constraint> c = f.make(key.kind, unsigned(key.i), unsigned(key.j));
  VectorXs out = vc_vecx("junk", g.dim);
  cache.getCachedConstraint(*c, out);
  vc_eqi(out.size(), g.dim, "impulse size");
  long hit = -1;
  for (size_t l = 0; l < g.keys.size(); ++l) if (vc_same_key(f, key, g.keys[l])) hit = long(l);
  if (hit < 0) { for (long k = 0; k < g.dim; ++k) vc_assert(out(k) == 0.0, "a contact that was never cached has zero impulse"); }
  else { for (long k = 0; k < g.dim; ++k) vc_assert(out(k) == g.vals[size_t(hit)](k), "lookup returns exactly the impulse cached for the same contact"); }
}
template <class C, class F> void vc_cache_lookup(F f)
{
  C cache; VcCache g; g.dim = vc_native() ? 1 + vc_choose("dim", 3) : 2;
  vc_assert(cache.empty(), "a new cache is empty");
  vc_store(f, cache, g);
  vc_assert(cache.empty() == g.keys.empty(), "a cache is empty exactly when nothing is stored");
  if (vc_native()) for (size_t l = 0; l < g.keys.size(); ++l) vc_lookup(f, cache, g, g.keys[l]);
  vc_lookup(f, cache, g, vc_key(f, "query"));
  vc_cover("looked up");
}
template <class C, class F> void vc_cache_clear(F f)
{
  C cache; VcCache g; g.dim = vc_native() ? 1 + vc_choose("dim", 3) : 2;
  vc_store(f, cache, g);
  cache.clear();
  vc_assert(cache.empty(), "a cleared cache is empty");
  VcCache none; none.dim = g.dim;
  if (vc_native()) for (size_t l = 0; l < g.keys.size(); ++l) vc_lookup(f, cache, none, g.keys[l]);
  vc_lookup(f, cache, none, vc_key(f, "query"));
  vc_cover("cleared");
}
template <class C, class F> void vc_cache_roundtrip(F f)
{
  C cache; VcCache g; g.dim = vc_native() ? 1 + vc_choose("dim", 3) : 2;
  vc_store(f, cache, g);
  cache.serialize(vc_os(1));
  C other;
  if (vc_bool("reused")) { const std::unique_ptr<Constraint> c = f.make(vc_choose("old", F::kinds), 0, 1); other.cacheConstraint(*c, VectorXs::Constant(g.dim, 7.0)); }
  other.deserialize(vc_is(1));
  vc_stream_done(1);
  vc_assert(other.empty() == g.keys.empty(), "the loaded cache is empty exactly when the stored one was");
  if (vc_native()) for (size_t l = 0; l < g.keys.size(); ++l) vc_lookup(f, other, g, g.keys[l]);
  vc_lookup(f, other, g, vc_key(f, "query"));
  vc_cover("loaded");
}
#endif
