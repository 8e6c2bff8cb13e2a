// stands in for the json-schema-validator library, which is not installed: the keywords that the schemas of this repository use
#pragma once
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
namespace nlohmann::json_schema {
inline void default_string_format_check(const std::string&, const std::string&) {}
inline bool whole(const json& d) {
  if (d.is_number_integer()) return true;
  if (!d.is_number_float()) return false;
  double x = d.get<double>();
  return x > -1e15 && x < 1e15 && x == (double)(long long)x;
}
inline bool typed(const json& d, const std::string& t) {
  if (t == "object") return d.is_object();
  if (t == "array") return d.is_array();
  if (t == "string") return d.is_string();
  if (t == "boolean") return d.is_boolean();
  if (t == "null") return d.is_null();
  if (t == "number") return d.is_number();
  if (t == "integer") return whole(d);
  throw std::invalid_argument("unknown type in the schema: " + t);
}
inline bool less(const json& a, const json& b) {
  if (a.is_number_unsigned() && b.is_number_unsigned()) return a.get<uint64_t>() < b.get<uint64_t>();
  if (a.is_number_unsigned() && b.is_number_integer()) return b.get<int64_t>() > 0 && a.get<uint64_t>() < (uint64_t)b.get<int64_t>();
  if (b.is_number_unsigned() && a.is_number_integer()) return a.get<int64_t>() < 0 || (uint64_t)a.get<int64_t>() < b.get<uint64_t>();
  if (a.is_number_integer() && b.is_number_integer()) return a.get<int64_t>() < b.get<int64_t>();
  return a.get<double>() < b.get<double>();
}
inline bool conforms(const json& d, const json& s) {
  auto has = [&](const char* k) { return s.contains(k); };
  if (has("type")) {
    const json& t = s["type"];
    bool ok = false;
    if (t.is_array()) { for (auto& x : t) ok = ok || typed(d, x.get<std::string>()); } else ok = typed(d, t.get<std::string>());
    if (!ok) return false;
  }
  if (has("enum")) { bool ok = false; for (auto& x : s["enum"]) ok = ok || (x.type() == d.type() && x == d); if (!ok) return false; }
  if (has("const") && !(s["const"] == d)) return false;
  if (d.is_number()) {
    if (has("minimum") && less(d, s["minimum"])) return false;
    if (has("maximum") && less(s["maximum"], d)) return false;
    if (has("exclusiveMinimum") && !less(s["exclusiveMinimum"], d)) return false;
    if (has("exclusiveMaximum") && !less(d, s["exclusiveMaximum"])) return false;
  }
  if (d.is_string()) {
    if (has("minLength") && d.get<std::string>().size() < s["minLength"].get<size_t>()) return false;
    if (has("maxLength") && d.get<std::string>().size() > s["maxLength"].get<size_t>()) return false;
  }
  if (d.is_array()) {
    if (has("minItems") && d.size() < s["minItems"].get<size_t>()) return false;
    if (has("maxItems") && d.size() > s["maxItems"].get<size_t>()) return false;
    if (has("items")) for (auto& x : d) if (!conforms(x, s["items"])) return false;
  }
  if (d.is_object()) {
    if (has("required")) for (auto& k : s["required"]) if (!d.contains(k.get<std::string>())) return false;
    if (has("properties")) for (auto& p : s["properties"].items()) if (d.contains(p.key()) && !conforms(d[p.key()], p.value())) return false;
    if (has("additionalProperties") && s["additionalProperties"] == json(false))
      for (auto& p : d.items()) if (!has("properties") || !s["properties"].contains(p.key())) return false;
  }
  if (has("oneOf")) {
    unsigned n = 0;
    for (auto& x : s["oneOf"]) {  // most alternatives differ in the type name already
      if (d.is_object() && d.contains("type") && x.contains("properties") && x["properties"].contains("type") && !conforms(d["type"], x["properties"]["type"])) continue;
      if (conforms(d, x)) n++;
    }
    if (n != 1) return false;
  }
  if (has("anyOf")) { bool ok = false; for (auto& x : s["anyOf"]) ok = ok || conforms(d, x); if (!ok) return false; }
  if (has("allOf")) for (auto& x : s["allOf"]) if (!conforms(d, x)) return false;
  return true;
}
struct json_validator {
  json root;
  json_validator(std::nullptr_t = nullptr, void (*)(const std::string&, const std::string&) = nullptr) {}
  void set_root_schema(const json& s) { root = s; }
  void validate(const json& d) const { if (!conforms(d, root)) throw std::invalid_argument("does not conform to the schema"); }
};
}  // namespace nlohmann::json_schema
