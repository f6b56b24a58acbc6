#pragma once
#include <string>
namespace boost::core { inline std::string demangle(const char*) { return std::string(); } }
