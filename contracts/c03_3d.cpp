#include "contact3d.h"
#define M(name) VC(name) { name([](auto&& k) { vc_cover("contact built"); k.anyFrame(); k.momenta(); }); }
EACH_CONTACT_3D(M)
