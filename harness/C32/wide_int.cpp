// Narrow coordinates, products in 64 bits.
#define COORDINATE_TYPE int
#define MULTIPLIED_TYPE long long
#define MAXC 1000000000LL
#define MAXR 1000000000LL
#include "wide.hpp"
