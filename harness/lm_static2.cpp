#include "lm_ctl_impl.hpp"
static bool r2 = (linRegistry().push_back(linEntry<2, 2, 2, 3, 5, 1>()), linRegistry().push_back(linEntry<4, 1, 1, 2, 6, 3>()), linRegistry().push_back(linEntry<1, 3, 0, 2, 2, 2>()), true);
