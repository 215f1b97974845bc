#ifndef VERIF_SCRATCH_H
#define VERIF_SCRATCH_H
#include "pbt.h"
namespace scratch {
// a private file name for this process (the driver removes the directory)
inline std::string file(const std::string& suffix) { const char* d = getenv("VERIF_SCRATCH"); return std::string(d ? d : "/tmp") + "/v" + std::to_string((long)getpid()) + suffix; }
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), s.size()); }
struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } };
}
#endif
