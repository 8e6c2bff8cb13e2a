// A12 the Python module
#include "prog.h"
#include "text.h"
#include "libs/wrappers/python/rtbot.cpp"
#define BIND_TIMES (T)1 << 62
#include "api_bind.h"
static void bindAll() { static pybind11::module_ m; bindtable_init(m); }
