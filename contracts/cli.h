// The command line tools: a checkpoint file written by serializeSystem() and read back by deserializeSystem() restores every variable the rest of the run depends on,
// and a resumed run takes exactly the same steps as an uninterrupted one.  The tool's own source file is included by the contract (its main() renamed).
#ifndef VC_CLI_H
#define VC_CLI_H
#include "ser.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include <cstring>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <typeinfo>
struct VcQuiet { std::streambuf *o, *e; std::ostringstream s; VcQuiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~VcQuiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct VcScratch { std::string old, dir; VcScratch() { char b[4096]; old = getcwd(b, sizeof b); char t[] = "/tmp/vc_cli_XXXXXX"; dir = mkdtemp(t); if (chdir(dir.c_str())) abort(); } ~VcScratch() { unlink((dir + "/serial.bin").c_str()); if (chdir(old.c_str())) abort(); rmdir(dir.c_str()); } };
inline void vc_smbits(scalar a, scalar b) { vc_assert(std::memcmp(&a, &b, sizeof a) == 0, VC_SAME); }
#endif
