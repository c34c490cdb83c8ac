// Restitution law of the 3D contacts that support pairwise response.
#include "contact3d.h"
#include "resolve.h"
VC(sphereSphereImpact) { sphereSphere([](auto&& k) { resolveImpact(k, true); }); }
VC(spherePlaneImpact) { spherePlane([](auto&& k) { resolveImpact(k, true); }); }
