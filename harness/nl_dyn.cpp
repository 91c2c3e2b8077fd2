#include "nl_ctl_impl.hpp"
constexpr int D = Eigen::Dynamic;
std::unique_ptr<ICtl> makeDynamic(const Dims &d) { return std::make_unique<Ctl<D, D, D, D, D, D, D>>(d); }
