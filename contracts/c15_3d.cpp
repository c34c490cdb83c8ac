#include "contact3d.h"
#define M(name) VC(name) { name([](auto&& k) { vc_cover("contact built"); k.basis(); }); } VC(disk_##name) { name([](auto&& k) { vc_cover("contact built"); k.disk(int(2 + vc_choose("samples", vc_native() ? 6 : 2))); }); }
EACH_CONTACT_3D(M)
// SECS .* 140
// NATIVEONLY disk_boxPlane disk_sphereCylinder disk_sphereTele sphereTele disk_spherePlane body3Cylinder
