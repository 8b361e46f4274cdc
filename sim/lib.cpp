// The library under test, compiled from /repo's working tree.
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#define GEN_TIME
#define GEN_BENCHMARK
#include "gen.cpp"
