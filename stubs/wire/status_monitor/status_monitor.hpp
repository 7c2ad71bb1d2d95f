#pragma once
#include <atomic>
#include <chrono>
#include <string>
namespace common { struct StatusMonitor { template <class T> void touch(T &&) {} template <class T, class F> auto overrideThreshold(T &&, F f) { return f(); } } static status_monitor; }
