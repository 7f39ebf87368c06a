#define DBL 0
#define INPLACE 0
#define SAMEPACK 1
#define MK mkrunner4
#include "graphinst.hpp"
