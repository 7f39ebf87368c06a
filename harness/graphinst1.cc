#define DBL 1
#define INPLACE 0
#define SAMEPACK 0
#define MK mkrunner1
#include "graphinst.hpp"
