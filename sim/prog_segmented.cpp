// One of the repository's generator programs, from its working tree (its main is renamed).
#include "gen_segmented/segmented.cpp"
