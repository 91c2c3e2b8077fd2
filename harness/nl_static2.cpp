#include "nl_static.hpp"
STATIC_CTL(b, 3, 2, 2, 4, 4, 2, 1)
