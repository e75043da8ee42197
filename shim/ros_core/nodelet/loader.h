#pragma once
#include <nodelet/nodelet.h>
namespace nodelet { class Loader { public: explicit Loader(bool = true) {} bool load(const std::string&, const std::string&, const M_string&, const V_string&) { return true; } }; }
