// Logging has an empty body in every harness (formatting is not the subject of any property).
#pragma once
#include <string>
#include <memory>
#include <vector>
#include <functional>
#include <chrono>
#include <mutex>
#include <atomic>
#include <thread>
#include <stdexcept>
#include <algorithm>
#include <unordered_map>
namespace spdlog {
template<class... A> inline void trace(const A &...) {}
template<class... A> inline void debug(const A &...) {}
template<class... A> inline void info(const A &...) {}
template<class... A> inline void warn(const A &...) {}
template<class... A> inline void error(const A &...) {}
template<class... A> inline void critical(const A &...) {}
}
