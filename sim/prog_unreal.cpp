// One of the repository's generator programs, from its working tree (its main is renamed).
#include "gen_unreal_engine/unreal.cpp"
