// BOUND (mixed|clear) 2 2
// BOUND .* 2 3
// SECS .* 150
#include "cache_rb2d.h"
VC(circleCircle) { vc_cache_lookup<ConstraintCache>(Mk{0}); }
VC(bodyBody) { vc_cache_lookup<ConstraintCache>(Mk{1}); }
VC(kinematic) { vc_cache_lookup<ConstraintCache>(Mk{2}); }
VC(planeCircle) { vc_cache_lookup<ConstraintCache>(Mk{3}); }
VC(mixed) { vc_cache_lookup<ConstraintCache>(Mk{}); }
VC(clear) { vc_cache_clear<ConstraintCache>(Mk{}); }
