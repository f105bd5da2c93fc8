// Stand-in for the empty git submodule "demangle".
#ifndef VERIF_SHIM_DEMANGLE
#define VERIF_SHIM_DEMANGLE 1
#include <cstdlib>
#include <cxxabi.h>
#include <string>
namespace raft
{
inline std::string demangle(const char *name)
{
    int st = 0;
    char *p = abi::__cxa_demangle(name, nullptr, nullptr, &st);
    std::string out(st == 0 && p ? p : name);
    std::free(p);
    return out;
}
inline std::string demangle(const std::string &s) { return demangle(s.c_str()); }
}
#endif
