#pragma once
#include <sensor_msgs/PointCloud2.h>
#include <stdarg.h>
namespace sensor_msgs {
class PointCloud2Modifier {
 public:
  explicit PointCloud2Modifier(PointCloud2& c) : c_(c) {}
  void resize(size_t n) { c_.width = uint32_t(n); c_.height = 1; c_.row_step = c_.point_step * c_.width; c_.data.resize(c_.row_step); }
  size_t size() const { return c_.point_step ? c_.data.size() / c_.point_step : 0; }
  void clear() { c_.data.clear(); }
  void reserve(size_t n) { c_.data.reserve(n * c_.point_step); }
  void setPointCloud2Fields(int n, ...) {
    va_list vl; va_start(vl, n); c_.fields.clear(); uint32_t off = 0;
    for (int i = 0; i < n; ++i) { PointField f; f.name = va_arg(vl, char*); f.count = uint32_t(va_arg(vl, int)); f.datatype = uint8_t(va_arg(vl, int)); f.offset = off; off += 4 * f.count; c_.fields.push_back(f); }
    va_end(vl); fin(off);
  }
  void setPointCloud2FieldsByString(int n, ...) {
    va_list vl; va_start(vl, n); c_.fields.clear(); uint32_t off = 0;
    for (int i = 0; i < n; ++i) { std::string s = va_arg(vl, char*);
      if (s == "xyz") { add("x", off); add("y", off + 4); add("z", off + 8); off += 16; } else { add(s, off); off += 16; } }
    va_end(vl); fin(off);
  }
 private:
  void add(const std::string& n, uint32_t o) { PointField f; f.name = n; f.offset = o; f.datatype = PointField::FLOAT32; f.count = 1; c_.fields.push_back(f); }
  void fin(uint32_t off) { c_.point_step = off; c_.row_step = c_.point_step * c_.width; c_.data.resize(size_t(c_.row_step) * c_.height); }
  PointCloud2& c_;
};
template <class T> class PointCloud2Iterator {
 public:
  PointCloud2Iterator(PointCloud2& c, const std::string& n) : p_(nullptr), step_(c.point_step) {
    size_t off = 0; bool ok = false;
    for (auto& f : c.fields) if (f.name == n) { off = f.offset; ok = true; }
    if (!ok) for (auto& f : c.fields) if (f.name == "rgb" || f.name == "rgba") { off = f.offset + (n == "r" ? 2 : n == "g" ? 1 : n == "b" ? 0 : 3); ok = true; }
    if (!ok) throw std::runtime_error("Field " + n + " does not exist");
    p_ = c.data.empty() ? nullptr : &c.data[0] + off; end_ = c.data.empty() ? nullptr : &c.data[0] + c.data.size() + off;
  }
  T& operator*() { return *reinterpret_cast<T*>(p_); }
  T& operator[](size_t i) { return *(reinterpret_cast<T*>(p_) + i); }
  PointCloud2Iterator& operator++() { p_ += step_; return *this; }
  bool operator!=(const PointCloud2Iterator& o) const { return p_ != o.p_; }
  PointCloud2Iterator end() const { PointCloud2Iterator e(*this); e.p_ = end_; return e; }
 private:
  uint8_t* p_; uint8_t* end_; size_t step_;
};
template <class T> using PointCloud2ConstIterator = PointCloud2Iterator<T>;
}
