// a report printed as text against the report itself
#pragma once
#include "prog.h"
static void sameText(const std::string& text, const ProgM& want, const char* l) {
  json j = json::parse(text);
  if (want.empty()) { sym_check(j.empty(), l); return; }
  sym_check(j.size() == want.size(), l);
  for (auto& o : want) {
    sym_check(j.contains(o.first), l);
    if (!j.contains(o.first)) continue;
    json& jo = j[o.first];
    sym_check(jo.size() == o.second.size(), l);
    for (auto& p : o.second) {
      sym_check(jo.contains(p.first), l);
      if (!jo.contains(p.first)) continue;
      json& a = jo[p.first];
      sym_check(a.size() == p.second.size(), l);
      for (size_t i = 0; i < a.size() && i < p.second.size(); i++) {
        sym_check(a[i]["time"].is_number_unsigned(), "a reported time is a number without sign");
        sym_check(a[i]["time"].get<T>() == p.second[i].time, "reported time");
        sym_check_same(a[i]["value"].get<V>(), p.second[i].value, "reported value");
        sym_check(a[i].size() == 2, l);
        sym_cover("reported");
      }
    }
  }
}
static std::string selected(unsigned k, const Filt& f) { json j = json::parse(sample(k)); j["output"] = f; return j.dump(); }
