#include "nl_ctl.hpp"
std::vector<StaticEntry> &staticRegistry() { static std::vector<StaticEntry> r; return r; }
std::unique_ptr<ICtl> makeCtl(const Dims &d, bool preferStatic)
{
    if (preferStatic)
        for (auto &e : staticRegistry())
            if (e.d.nx == d.nx && e.d.nu == d.nu && e.d.ny == d.ny && e.d.ph == d.ph && e.d.ch == d.ch && e.d.ineq == d.ineq && e.d.eq == d.eq) return e.make();
    return makeDynamic(d);
}
