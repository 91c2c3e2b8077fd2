#include "nl_static.hpp"
STATIC_CTL(a, 2, 1, 1, 5, 3, 3, 2)
