#define DBL 0
#define INPLACE 1
#define SAMEPACK 0
#define MK mkrunner2
#include "graphinst.hpp"
