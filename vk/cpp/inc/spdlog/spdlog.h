// stand-in for spdlog (a log sink that drops every message): keeps the per-run sanitizer builds fast
#pragma once
#include <string>
#include <sstream>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
inline void set_level(level::level_enum) {}
template <class... A> void trace(const std::string&, A&&...) {}
template <class... A> void debug(const std::string&, A&&...) {}
template <class... A> void info(const std::string&, A&&...) {}
template <class... A> void warn(const std::string&, A&&...) {}
template <class... A> void error(const std::string&, A&&...) {}
}
