// Shared helpers of the API harnesses
#pragma once
#include <nlohmann/json.hpp>
#include "allops.h"
#include "rtbot/FactoryOp.h"
#include "rtbot/Pipeline.h"
using nlohmann::json;
typedef std::map<std::string, std::vector<std::string>> Filt;
typedef Op_ptr<T, V> Ptr;
