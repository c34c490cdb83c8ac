// Restitution law of the 2D contact that supports pairwise response.
#include "contact2d.h"
#include "resolve.h"
VC(ballBallImpact) { ballBall([](auto&& k) { resolveImpact(k, false); }); }
