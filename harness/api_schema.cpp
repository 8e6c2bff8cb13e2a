// A14 every operator description that conforms to the published schema is built, an absent parameter taking the documented default;
// one that does not conform is refused by the text interface
#include "prog.h"
#include <nlohmann/json-schema.hpp>
#include "rtbot/bindings.h"
#include "rtbot/jsonschema.hpp"
#include "text.h"
using nlohmann::json_schema::conforms;
static const json& schemas() { return rtbot_schema["properties"]["operators"]["items"]["oneOf"]; }
static int64_t bound(const json& s, const char* k, int64_t otherwise) { return s.contains(k) ? s[k].get<int64_t>() : otherwise; }
// any value that the schema allows
static json anyOf(const std::string& key, const json& s, unsigned& k) {
  if (s.contains("enum")) return s["enum"][sym_choice(Nm("e", k++), s["enum"].size())];
  std::string t = s["type"].get<std::string>();
  if (t == "string") return "x";
  if (t == "boolean") return sym_choice(Nm("b", k++), 2) == 1;
  if (t == "number") return sym_f64(Nm("v", k++));
  if (t == "array") {
    unsigned lo = bound(s, "minItems", 0), hi = bound(s, "maxItems", lo + QT(1, 2)), n = lo + sym_choice(Nm("l", k++), hi - lo + 1);
    json a = json::array();
    for (unsigned i = 0; i < n; i++) a.push_back(anyOf(key, s["items"], k));
    return a;
  }
  int64_t lo = bound(s, "minimum", -((int64_t)1 << 31)), hi = bound(s, "maximum", ((int64_t)1 << 31) - 1);
  if (key == "numPorts") return lo + (int64_t)sym_choice(Nm("n", k++), QT(2, 4));
  int64_t x = lo + (int64_t)sym_u64(Nm("i", k++), 0, (uint64_t)(hi - lo));
  if (lo >= 0) return (uint64_t)x;
  if (x < 0) return x;
  return (uint64_t)x;
}
static bool in(const json& list, const std::string& x) { for (auto& y : list) if (y == x) return true; return false; }
static void each(unsigned from, unsigned to) {
  unsigned n = schemas().size();
  if (to > n) to = n;
  const json& s = schemas()[from + sym_choice("type", to - from)];
  std::string type = s["properties"]["type"]["enum"][0].get<std::string>();
  json doc{{"type", type}, {"id", "x"}}, full;
  unsigned k = 0;
  std::vector<std::string> left;
  for (auto& p : s["properties"].items()) {
    if (p.key() == "type" || p.key() == "id") continue;
    if (!in(s["required"], p.key()) && sym_choice(Nm("given", k++), 2) == 0) { left.push_back(p.key()); continue; }
    doc[p.key()] = anyOf(p.key(), p.value(), k);
  }
  full = doc;
  bool defaults = true;
  for (auto& x : left) if (s["properties"][x].contains("default")) full[x] = s["properties"][x]["default"]; else defaults = false;
  sym_check(conforms(doc, s), "the document conforms");
  Ptr a;
  bool bad = throws([&] { a = FactoryOp::readOp(doc.dump()); });
  sym_check(!bad, "a document that conforms to the schema is built");
  if (bad) return;
  sym_check(a->typeName() == type, "into an operator of its type");
  sym_check(a->id == "x", "with its name");
  sym_cover("built");
  if (left.empty() || !defaults) return;
  Ptr b = FactoryOp::readOp(full.dump());
  sym_check(FactoryOp::writeOp(a) == FactoryOp::writeOp(b), "an absent parameter has the documented default");
  sym_check(a->getDataInputs() == b->getDataInputs() && a->getControlInputs() == b->getControlInputs() && a->outputIds == b->outputIds, "the same ports");
  for (unsigned i = 0; i < 3; i++)
    for (auto& p : a->getDataInputs()) {
      ProgM x, y;
      Ev e{false, p, 10 + i, (V)(1 + i * i)};
      bool s1 = driveX(*a, e, x), s2 = driveX(*b, e, y);
      sym_check(s1 == s2, "an absent parameter has the documented default");
      sameProg(x, y, "an absent parameter has the documented default");
    }
  sym_cover("default");
}
ENTRY(h_schema_0) { each(0, 9); }
ENTRY(h_schema_1) { each(9, 18); }
ENTRY(h_schema_2) { each(18, 27); }
ENTRY(h_schema_3) { each(27, 60); }
// the documents one step outside the schema
ENTRY(h_schema_refused) {
  const json& s = schemas()[sym_choice("type", schemas().size())];
  std::string type = s["properties"]["type"]["enum"][0].get<std::string>();
  json doc{{"type", type}, {"id", "x"}};
  unsigned k = 0, n = 0, pick = sym_choice("pick", 4);
  for (auto& p : s["properties"].items())
    if (p.key() != "type" && p.key() != "id") doc[p.key()] = anyOf(p.key(), p.value(), k);
  std::string what;
  if (pick == 0) { doc.erase("id"); what = "no id"; }
  for (auto& p : s["properties"].items()) {
    if (p.key() == "type" || p.key() == "id") continue;
    if (++n != pick) continue;
    const json& ps = p.value();
    unsigned how = sym_choice("how", 3);
    if (how == 0 && in(s["required"], p.key())) { doc.erase(p.key()); what = "parameter missing"; }
    if (how == 1) { doc[p.key()] = nullptr; what = "wrong type"; }
    if (how == 2 && ps.contains("minimum")) { doc[p.key()] = ps["minimum"].get<int64_t>() - (sym_choice("below", 2) ? 100 : 1); what = "out of range"; }
    if (how == 2 && ps.contains("minItems")) { json a = json::array(); for (int64_t i = 1; i < ps["minItems"].get<int64_t>(); i++) a.push_back(doc[p.key()][i]); doc[p.key()] = a; what = "too few"; }
  }
  if (what.empty()) return;
  sym_check(json::parse(validateOperator(type, doc.dump()))["valid"] == false, "the description of the operator is refused");
  json prog{{"entryOperator", "in"}, {"operators", {op("Input", "in"), doc, op("Output", "out")}}, {"connections", {con("in", "out")}}};
  std::string r = createProgram("p", prog.dump());
  sym_check(!r.empty() && json::parse(r)["valid"] == false, "the program is refused");
  sym_check(throws([&] { getProgramEntryPorts("p"); }), "and does not exist");
  sym_cover("refused");
}
// the sample programs are valid and run
ENTRY(h_schema_programs) {
  static const unsigned ks[] = {0, 1, 2, 3, 5};
  unsigned k = ks[sym_choice("k", 5)];
  sym_check(json::parse(validate(sample(k)))["valid"] == true, "valid");
  sym_check(createProgram("p", sample(k)).empty(), "created");
  Program q(sample(k));
  for (unsigned i = 0; i < 3; i++) {
    Map m = msg(10 + 4 * i, sym_f64(Nm("v", i)));
    ProgM w;
    std::string r;
    bool x = tryX([&] { return q.receive(m); }, w);
    sym_check(throws([&] { r = processMessageMap("p", m); }) == x, "same errors");
    if (!x) sameText(r, w, "report");
  }
  sym_cover("ran");
}
