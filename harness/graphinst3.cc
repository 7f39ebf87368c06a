#define DBL 1
#define INPLACE 1
#define SAMEPACK 0
#define MK mkrunner3
#include "graphinst.hpp"
