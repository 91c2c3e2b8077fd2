#include "lm_ctl.hpp"
std::vector<LEntry> &linRegistry() { static std::vector<LEntry> r; return r; }
static bool same(const LDims &a, const LDims &b) { return a.nx == b.nx && a.nu == b.nu && a.ndu == b.ndu && a.ny == b.ny && a.ph == b.ph && a.ch == b.ch; }
std::unique_ptr<ILin> makeLin(const LDims &d, bool st)
{
    if (st) for (auto &e : linRegistry()) if (same(e.d, d)) return e.make();
    return makeLinDynamic(d);
}
std::unique_ptr<IBuilder> makeBuilder(const LDims &d, bool st)
{
    if (st) for (auto &e : linRegistry()) if (same(e.d, d)) return e.builder();
    return makeBuilderDynamic(d);
}
