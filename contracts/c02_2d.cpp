#include "contact2d.h"
#define M(name) VC(name) { name([](auto&& k) { vc_cover("contact built"); k.kinematics(); k.pointVelocity(); k.anyFrame(); k.jacobians(); k.friction(false); k.redirect(unsigned(vc_int("i2", 0, 1000)), unsigned(vc_int("j2", 0, 1000))); }); }
EACH_CONTACT_2D(M)
