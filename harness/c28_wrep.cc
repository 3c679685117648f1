// The wrep tool, to be run inside of the harness
#define main wrep_main
#include "src/wrep.cc"
#undef main
#include "src/options.cc"
