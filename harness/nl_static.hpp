#include "nl_ctl_impl.hpp"
#define STATIC_CTL(ID, ...) \
    static bool reg_##ID = [] { using T = Ctl<__VA_ARGS__>; \
        auto mk = [](int a, int b, int c, int d, int e, int f, int g) { return Dims{a, b, c, d, e, f, g}; }; \
        staticRegistry().push_back({mk(__VA_ARGS__), [] { return std::unique_ptr<ICtl>(new T()); }}); return true; }();
