#include "nl_static.hpp"
STATIC_CTL(d, 1, 1, 1, 1, 1, 0, 0)
