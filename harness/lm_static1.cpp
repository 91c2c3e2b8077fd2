#include "lm_ctl_impl.hpp"
static bool r1 = (linRegistry().push_back(linEntry<2, 1, 1, 2, 3, 2>()), linRegistry().push_back(linEntry<1, 1, 0, 1, 1, 1>()), linRegistry().push_back(linEntry<3, 2, 1, 1, 4, 4>()), true);
