// The code under verification: the library exactly as the repository's own test build compiles it, plus instantiations of
// its container templates that the library itself does not make (VERIF_INST).
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#include "gen.cpp"
#ifdef VERIF_INST
namespace gen {
#include "inst.inc"
}
#endif
