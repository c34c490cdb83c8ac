// Broad phase of Ball2D systems.
// OPT fpto_safety false
// NATIVEONLY gridMany gridFar
#include "st_ball2d.h"
#include "ball2d/SpatialGridDetector.h"
static AABB mk(const Array2s& a, const Array2s& b) { return AABB{a, b}; }
#include "c06.h"
VC(overlaps) { overlapsExact<2>(); }
// BOUND allPairs 2 3
VC(allPairs) { allPairs<2>(vc_size("n", 0, 5), [](const std::vector<AABB>& b, Pairs& p) { SpatialGridDetector::getPotentialOverlapsAllPairs(b, p); }); }
static void G(const std::vector<AABB>& b, Pairs& p) { SpatialGridDetector::getPotentialOverlaps(b, p); }
// BOUND grid.* 1 1
// SECS grid.* 240
VC(gridEqual) { grid<2>(G, 0, 0); }
VC(gridUnequal) { grid<2>(G, 1, 2); }
VC(gridAcross) { grid<2>(G, 1, 3); }
VC(gridMany) { gridMany<2>(G); }
// TRIALS gridFar 4000
VC(gridFar) { gridFar<2>(G); }
