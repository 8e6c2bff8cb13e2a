// included first when compiling the API for the symbolic executor (not natively): number printing becomes a call the engine can see
#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <nlohmann/detail/abi_macros.hpp>
NLOHMANN_JSON_NAMESPACE_BEGIN
namespace detail { template <typename F> __attribute__((noinline)) char* to_chars(char*, const char*, F); }
NLOHMANN_JSON_NAMESPACE_END
#include <nlohmann/json.hpp>
#ifndef SYM_NO_STREAMS
#include "streams.h"
#endif
