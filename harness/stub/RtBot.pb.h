#pragma once
#include <string>
namespace rtbot::api::proto { struct Input { std::string DebugString() const { return ""; } }; }
