#include "nl_static.hpp"
STATIC_CTL(c, 1, 2, 0, 3, 1, 1, 0)
