// Enumerations of libmpc by their documented names: the monitors never rely on the underlying numbers.
#pragma once
#include <mpc/Logger.hpp>
#include <mpc/Types.hpp>

inline int statusIndex(mpc::ResultStatus s)
{
    return s == mpc::ResultStatus::SUCCESS ? 0 : s == mpc::ResultStatus::MAX_ITERATION ? 1 : s == mpc::ResultStatus::INFEASIBLE ? 2 : s == mpc::ResultStatus::ERROR ? 3 : s == mpc::ResultStatus::UNKNOWN ? 4 : 5;
}
// 0 everything .. 3 nothing
inline mpc::Logger::log_level logLevel(int l)
{
    return l == 0 ? mpc::Logger::log_level::DEEP : l == 1 ? mpc::Logger::log_level::NORMAL : l == 2 ? mpc::Logger::log_level::ALERT : mpc::Logger::log_level::NONE;
}
inline mpc::Logger::log_type logType(int t)
{
    return t == 0 ? mpc::Logger::log_type::DETAIL : t == 1 ? mpc::Logger::log_type::INFO : mpc::Logger::log_type::ERROR;
}
