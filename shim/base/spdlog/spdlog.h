// Stand-in for spdlog: messages are dropped, or kept with their numbers when vp_log is set
#pragma once
#include <memory>
#include <string>
#include <iostream>
#include <type_traits>
#include <vector>
struct VpLog { int level; std::string text; std::vector<double> v; };
inline std::vector<VpLog> *vp_log = nullptr;
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug, info, warn, err, critical, off }; }
namespace sinks { struct stdout_sink_st {}; struct null_sink_st {}; }
struct logger { template <class S> logger(const std::string &, S) {} };
template <class A> inline void vp_take(VpLog &l, const A &a) {
    if constexpr (std::is_arithmetic_v<A>) l.v.push_back((double)a);
    else if constexpr (std::is_convertible_v<const A &, std::string>) l.text += std::string(a);
}
template <class... A> inline void vp_logged(int level, const A &...a) {
    if (!vp_log) return;
    VpLog l{level, "", {}};
    (void)std::initializer_list<int>{(vp_take(l, a), 0)...};
#pragma omp critical(vp_log)
    vp_log->push_back(l);
}
inline void set_default_logger(std::shared_ptr<logger>) {}
inline void set_level(level::level_enum) {}
template <class... A> inline void trace(A &&...a) { vp_logged(0, a...); }
template <class... A> inline void debug(A &&...a) { vp_logged(1, a...); }
template <class... A> inline void info(A &&...a) { vp_logged(2, a...); }
template <class... A> inline void warn(A &&...a) { vp_logged(3, a...); }
template <class... A> inline void error(A &&...a) { vp_logged(4, a...); }
template <class... A> inline void critical(A &&...a) { vp_logged(5, a...); }
} // namespace spdlog
