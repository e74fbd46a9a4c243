// 64-bit coordinates, products in 128 bits.
#define COORDINATE_TYPE long long
#define MULTIPLIED_TYPE __int128
#define MAXC 1000000000000000000LL
#define MAXR 1000000000000000000LL
#include "wide.hpp"
