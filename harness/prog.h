// Programs in the JSON format and streams to drive them
#pragma once
#include "api.h"
#include "rtbot/Program.h"
typedef OperatorMessage<T, V> Map;
static json op(const char* type, const char* id) { return json{{"type", type}, {"id", id}}; }
static json op(const char* type, const char* id, const char* key, const json& v) { json j{{"type", type}, {"id", id}}; j[key] = v; return j; }
static json con(const char* a, const char* b, const char* pa = "o1", const char* pb = "i1") { return json{{"from", a}, {"to", b}, {"fromPort", pa}, {"toPort", pb}}; }
static std::string prog(const char* entry, const std::vector<json>& ops, const std::vector<json>& cons, const Filt& out = Filt()) {
  json j{{"entryOperator", entry}, {"operators", json::array()}, {"connections", json::array()}};
  for (auto& o : ops) j["operators"].push_back(o);
  for (auto& c : cons) j["connections"].push_back(c);
  if (!out.empty()) j["output"] = out;
  return j.dump();
}
static Map msg(T t, V v, const char* port = "i1") { Map m; m[port].push_back(Msg(t, v)); return m; }
// what a call reports, an exception being part of it
template <class F> static bool tryX(F f, ProgM& r) {
  try { r = f(); return false; } catch (const std::exception&) { r = ProgM(); return true; }
}
// the programs used by several properties: 0 windows, 1 joins, 2 resamplers, 3 demultiplexer and variable, 4 finance, 5 two ports
static std::string sample(unsigned k) {
  switch (k) {
    case 0:
      return prog("in", {op("Input", "in"), op("MovingAverage", "ma", "n", 3), op("FiniteImpulseResponse", "fir", "coeff", std::vector<V>{1, -2}), op("CumulativeSum", "sum"), op("Count", "cnt"), op("Output", "out", "numPorts", 3)},
                  {con("in", "ma"), con("in", "fir"), con("ma", "sum"), con("in", "cnt"), con("sum", "out"), con("fir", "out", "o1", "i2"), con("cnt", "out", "o1", "i3")});
    case 1:
      return prog("in", {op("Input", "in"), op("MovingAverage", "ma", "n", 2), op("Minus", "minus"), op("GreaterThan", "gt", "value", 0.5), op("Join", "join", "numPorts", 2), op("Difference", "diff"), op("Output", "out", "numPorts", 2)},
                  {con("in", "ma"), con("in", "minus"), con("ma", "minus", "o1", "i2"), con("minus", "gt"), con("gt", "join"), con("in", "diff"), con("diff", "join", "o1", "i2"), con("join", "out"), con("join", "out", "o2", "i2")});
    case 2:
      return prog("in", {op("Input", "in"), op("ConstantResampler", "cr", "interval", 3), op("CosineResampler", "cos", "dt", 2), op("TimeShift", "ts", "dt", 5), op("CumulativeSum", "sum"), op("Output", "out", "numPorts", 2)},
                  {con("in", "cr"), con("in", "cos"), con("cr", "ts"), con("ts", "sum"), con("sum", "out"), con("cos", "out", "o1", "i2")});
    case 3:
      return prog("in", {op("Input", "in"), op("GreaterThan", "gt", "value", 0), op("LessThan", "lt", "value", 0), op("Constant", "one", "value", 1), op("Constant", "zero", "value", 0), op("Demultiplexer", "dm", "numPorts", 1), op("Output", "out")},
                  {con("in", "gt"), con("in", "lt"), con("gt", "one"), con("lt", "zero"), con("one", "dm", "o1", "c1"), con("zero", "dm", "o1", "c1"), con("in", "dm"), con("dm", "out")});
    case 4:
      return prog("in", {op("Input", "in"), op("RelativeStrengthIndex", "rsi", "n", 2), op("PeakDetector", "pk", "n", 3), op("AutoRegressive", "ar", "coeff", std::vector<V>{0.5}), op("HermiteResampler", "her", "dt", 3), op("Output", "out", "numPorts", 4)},
                  {con("in", "rsi"), con("in", "pk"), con("in", "ar"), con("in", "her"), con("rsi", "out"), con("pk", "out", "o1", "i2"), con("ar", "out", "o1", "i3"), con("her", "out", "o1", "i4")});
    case 5:
      return prog("in", {op("Input", "in", "numPorts", 2), op("Plus", "plus"), op("Variable", "var", "value", 1.5), op("Scale", "sc", "value", 2), op("Output", "out", "numPorts", 2)},
                  {con("in", "plus"), con("in", "plus", "o2", "i2"), con("in", "var"), con("plus", "sc"), con("sc", "var", "o1", "c1"), con("sc", "out"), con("var", "out", "o1", "i2")});
    case 6:  // a pipeline with state inside
      return prog("in", {op("Input", "in"), json{{"type", "Pipeline"}, {"id", "pipe"}, {"prog", json::parse(prog("a", {op("MovingAverage", "a", "n", 2), op("CumulativeSum", "b"), op("Difference", "c")}, {con("a", "b"), con("a", "c")}))}}, op("Join", "join", "numPorts", 2), op("Output", "out", "numPorts", 2)},
                  {con("in", "pipe"), con("pipe", "join"), con("pipe", "join", "o2", "i2"), con("join", "out"), con("join", "out", "o2", "i2")});
    default:  // a pipeline inside a pipeline, and one with two inputs
      return prog("in", {op("Input", "in"), json{{"type", "Pipeline"}, {"id", "p1"}, {"prog", json::parse(prog("x", {json{{"type", "Pipeline"}, {"id", "q"}, {"prog", json::parse(prog("m", {op("MovingAverage", "m", "n", 2)}, {}))}}, op("Count", "n")}, {con("q", "n")}))}},
                  json{{"type", "Pipeline"}, {"id", "p2"}, {"prog", json::parse(prog("x", {op("Scale", "s", "value", 2), op("Plus", "z")}, {con("s", "z")}))}}, op("Output", "out")},
                  {con("in", "p1"), con("in", "p2", "o1", "i1"), con("p1", "p2", "o1", "i2"), con("p2", "out")});
  }
}
static bool twoPorts(unsigned k) { return k == 5; }
