#pragma once
#include <shim/params.h>
namespace ros { namespace param {
template <class T> bool get(const std::string& k, T& v) { return ::shim::getParam(k, v); }
inline bool has(const std::string& k) { return ::shim::hasParam(k); }
template <class T> void set(const std::string& k, const T& v) { ::shim::setParam(k, v); }
template <class T> bool param(const std::string& k, T& v, const T& d) { if (get(k, v)) return true; v = d; return false; }
} }
