// Rule values between JSON and the library (spec/Values.tla).
#pragma once
#include "geo.h"
#include "maliput/api/regions.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
namespace val {
using json = nlohmann::json;
using namespace maliput::api;
using namespace maliput::api::rules;
using St = std::string;

inline void Rel(const json& v, Rule::RelatedRules* rr, Rule::RelatedUniqueIds* ru) {
  for (const auto& r : v.at("rel")) {
    const St k = r["k"].get<St>();
    if (r["what"] == "rules") (*rr)[k];
    else (*ru)[k];
    for (const auto& x : geo::Ord(r.at("ids"))) {
      if (r["what"] == "rules") (*rr)[k].push_back(Rule::Id(x["id"].get<St>()));
      else (*ru)[k].push_back(UniqueId(x["id"].get<St>()));
    }
  }
}
inline DiscreteValueRule::DiscreteValue Dv(const json& v) {
  Rule::RelatedRules rr;
  Rule::RelatedUniqueIds ru;
  Rel(v, &rr, &ru);
  return DiscreteValueRule::DiscreteValue(v["sev"].get<int>(), rr, ru, v["text"].get<St>());
}
inline RangeValueRule::Range Rv(const json& v) {
  Rule::RelatedRules rr;
  Rule::RelatedUniqueIds ru;
  Rel(v, &rr, &ru);
  return RangeValueRule::Range(v["sev"].get<int>(), rr, ru, v["text"].get<St>(), v["min"].get<double>(), v["max"].get<double>());
}
inline json Num(double d) { return d == (long)d ? json((long)d) : json(d); }
inline json EncRel(const Rule::State& s) {
  json a = json::array();
  for (const auto& kv : s.related_rules) {
    json ids = json::array();
    int i = 0;
    for (const auto& x : kv.second) ids.push_back({{"i", ++i}, {"id", x.string()}});
    a.push_back({{"what", "rules"}, {"k", kv.first}, {"ids", ids}});
  }
  for (const auto& kv : s.related_unique_ids) {
    json ids = json::array();
    int i = 0;
    for (const auto& x : kv.second) ids.push_back({{"i", ++i}, {"id", x.string()}});
    a.push_back({{"what", "ids"}, {"k", kv.first}, {"ids", ids}});
  }
  return a;
}
inline json Enc(const DiscreteValueRule::DiscreteValue& v) {
  return {{"sev", v.severity}, {"text", v.value}, {"min", 0}, {"max", 0}, {"rel", EncRel(v)}};
}
inline json Enc(const RangeValueRule::Range& v) {
  return {{"sev", v.severity}, {"text", v.description}, {"min", Num(v.min)}, {"max", Num(v.max)}, {"rel", EncRel(v)}};
}
template <class T>
json EncAll(const std::vector<T>& v) {
  json a = json::array();
  int i = 0;
  for (const auto& x : v) a.push_back({{"i", ++i}, {"v", Enc(x)}});
  return a;
}
inline std::vector<DiscreteValueRule::DiscreteValue> Dvs(const json& a) {
  std::vector<DiscreteValueRule::DiscreteValue> r;
  for (const auto& x : geo::Ord(a)) r.push_back(Dv(x["v"]));
  return r;
}
inline std::vector<RangeValueRule::Range> Rvs(const json& a) {
  std::vector<RangeValueRule::Range> r;
  for (const auto& x : geo::Ord(a)) r.push_back(Rv(x["v"]));
  return r;
}
inline std::vector<LaneSRange> Rngs(const json& z) {
  std::vector<LaneSRange> r;
  for (const auto& x : geo::Ord(z))
    r.emplace_back(LaneId(x["lane"].get<St>()), SRange(x["s0"].get<double>(), x["s1"].get<double>()));
  return r;
}
inline json EncZ(const std::vector<LaneSRange>& z) {
  json a = json::array();
  int i = 0;
  for (const auto& r : z)
    a.push_back({{"i", ++i}, {"lane", r.lane_id().string()}, {"s0", Num(r.s_range().s0())}, {"s1", Num(r.s_range().s1())}});
  return a;
}
inline json EncRule(const DiscreteValueRule& r) {
  return {{"kind", "dv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", EncZ(r.zone().ranges())}, {"states", EncAll(r.states())}};
}
inline json EncRule(const RangeValueRule& r) {
  return {{"kind", "rv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", EncZ(r.zone().ranges())}, {"states", EncAll(r.states())}};
}
}  // namespace val
