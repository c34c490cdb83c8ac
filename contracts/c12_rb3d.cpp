// BOUND (mixed|clear) 2 2
// BOUND .* 2 3
// SECS .* 150
#include "cache_rb3d.h"
VC(sphereSphere) { vc_cache_lookup<ConstraintCache>(Mk{0}); }
VC(planeSphere) { vc_cache_lookup<ConstraintCache>(Mk{1}); }
VC(cylinderSphere) { vc_cache_lookup<ConstraintCache>(Mk{2}); }
VC(kinematic) { vc_cache_lookup<ConstraintCache>(Mk{3}); }
VC(mixed) { vc_cache_lookup<ConstraintCache>(Mk{}); }
VC(clear) { vc_cache_clear<ConstraintCache>(Mk{}); }
