// A13 the WebAssembly module
#include "prog.h"
#include "text.h"
#include "libs/api/wasm/emscripten-bindings.cpp"
// the numbers of the host language hold whole times up to 2^53
#define BIND_TIMES (T)1 << 52
#define BIND_BATCH
#include "api_bind.h"
static void bindAll();
// the largest whole numbers of the host language, exactly
ENTRY(h_bind_exact) {
  Bound b;
  std::string s = prog("in", {op("Input", "in")}, {});
  call("createProgram", {"p", s});
  static const uint64_t TIMES[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, ((T)1 << 52) - 1, ((T)1 << 52) + 1, ((T)1 << 52) + 3, ((T)1 << 53) - 1, (T)1 << 53};
  unsigned i = sym_choice("i", 10), n = 0;
  V v = sym_f64("v");
  for (unsigned k : {i, i + 1}) {
    call("addToMessageBuffer", {"p", "i1", TIMES[k], v});
    json j = json::parse(call(n++ ? "processMessageBufferDebug" : "processMessageBuffer", {"p"}));
    sym_check(j["in"]["o1"].size() == 1 && j["in"]["o1"][0]["time"].get<T>() == TIMES[k], "the time is taken as it is");
    sym_check_same(j["in"]["o1"][0]["value"].get<V>(), v, "the value is taken as it is");
    sym_cover("reported");
  }
}
static void bindAll() { emscripten::fields().clear(); bindtable_init(); }
