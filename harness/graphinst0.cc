#define DBL 0
#define INPLACE 0
#define SAMEPACK 0
#define MK mkrunner0
#include "graphinst.hpp"
