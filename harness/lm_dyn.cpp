#include "lm_ctl_impl.hpp"
std::unique_ptr<ILin> makeLinDynamic(const LDims &d) { return std::make_unique<Lin<-1, -1, -1, -1, -1, -1>>(d); }
std::unique_ptr<IBuilder> makeBuilderDynamic(const LDims &d) { return std::make_unique<Bld<-1, -1, -1, -1, -1, -1>>(d); }
