#include "scan.hpp"
