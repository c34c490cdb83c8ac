#include "contact2d.h"
#define M(name) VC(name) { name([](auto&& k) { vc_cover("contact built"); k.anyFrame(); k.momenta(); }); }
EACH_CONTACT_2D(M)
