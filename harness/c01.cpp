#define CONFINED_ONLY
#include "scan.hpp"
