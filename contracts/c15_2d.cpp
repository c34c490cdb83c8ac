#include "contact2d.h"
#define M(name) VC(name) { name([](auto&& k) { vc_cover("contact built"); k.basis(); }); } VC(disk_##name) { name([](auto&& k) { vc_cover("contact built"); k.disk(1); }); }
EACH_CONTACT_2D(M)
