// BOUND (mixed|clear) 2 2
// BOUND .* 2 3
// SECS .* 150
#include "cache_ball2d.h"
VC(ballBall) { vc_cache_lookup<ConstraintCache>(Mk{0}); }
VC(plane) { vc_cache_lookup<ConstraintCache>(Mk{1}); }
VC(drum) { vc_cache_lookup<ConstraintCache>(Mk{2}); }
VC(mixed) { vc_cache_lookup<ConstraintCache>(Mk{}); }
VC(clear) { vc_cache_clear<ConstraintCache>(Mk{}); }
