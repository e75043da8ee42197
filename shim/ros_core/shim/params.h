#pragma once
#include <shim/base.h>
#include <boost/any.hpp>
namespace shim {
inline std::map<std::string, boost::any>& params() { static std::map<std::string, boost::any> p; return p; }
inline bool hasParam(const std::string& k) { return params().count(k) > 0; }
template <class T> void setParam(const std::string& k, const T& v) { params()[k] = boost::any(v); }
inline void setParam(const std::string& k, const char* v) { params()[k] = boost::any(std::string(v)); }
template <class T> bool getParam(const std::string& k, T& v) {
  auto it = params().find(k);
  if (it == params().end()) return false;
  if (const T* p = boost::any_cast<T>(&it->second)) { v = *p; return true; }
  return false;
}
inline bool getParam(const std::string& k, float& v) {
  auto it = params().find(k);
  if (it == params().end()) return false;
  if (const float* p = boost::any_cast<float>(&it->second)) { v = *p; return true; }
  if (const double* p = boost::any_cast<double>(&it->second)) { v = float(*p); return true; }
  return false;
}
}
