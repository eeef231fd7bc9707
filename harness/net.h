// A road network of manual books around a road geometry.
#pragma once
#include "geo.h"
#include "maliput/api/road_network.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/traffic_light_book.h"

namespace geo {
struct Books {
  std::unique_ptr<ManualRulebook> rules = std::make_unique<ManualRulebook>();
  std::unique_ptr<TrafficLightBook> lights = std::make_unique<TrafficLightBook>();
  std::unique_ptr<ManualPhaseRingBook> rings = std::make_unique<ManualPhaseRingBook>();
  std::unique_ptr<ManualPhaseProvider> phases = std::make_unique<ManualPhaseProvider>();
  std::unique_ptr<api::rules::RuleRegistry> registry = std::make_unique<api::rules::RuleRegistry>();
  std::unique_ptr<IntersectionBook> intersections;
};
inline std::unique_ptr<api::RoadNetwork> Network(std::unique_ptr<api::RoadGeometry> rg, Books b = {}) {
  if (!b.intersections) b.intersections = std::make_unique<IntersectionBook>(rg.get());
  auto dv = std::make_unique<ManualDiscreteValueRuleStateProvider>(b.rules.get());
  auto rv = std::make_unique<ManualRangeValueRuleStateProvider>(b.rules.get());
  return std::make_unique<api::RoadNetwork>(std::move(rg), std::move(b.rules), std::move(b.lights), std::move(b.intersections),
                                            std::move(b.rings), std::move(b.phases), std::move(b.registry), std::move(dv), std::move(rv));
}
// Lanes as a flat list of [id, seg, o, x, y, z, q, len, ...] and placements [lane, end, bp, side], in units of u.
inline json Flat(const json& c, double u) {
  std::map<std::string, json> segs, bps;
  std::vector<json> ls(c["lanes"].begin(), c["lanes"].end());
  std::sort(ls.begin(), ls.end(), [](const json& a, const json& b) { return std::make_pair(a["seg"], a["o"]) < std::make_pair(b["seg"], b["o"]); });
  for (auto l : ls) {
    for (const char* k : {"x", "y", "z", "len", "rmin", "rmax", "smin", "smax", "hmin", "hmax"}) l[k] = l[k].get<double>() * u;
    for (const char* k : {"wide", "tall", "gl", "gr"}) l[k] = l.value(k, 0.) * u;
    l["yaw"] = l["q"];
    json& s = segs[l["seg"]];
    if (s.is_null()) s = {{"id", l["seg"]}, {"lanes", json::array()}};
    s["lanes"].push_back(l);
  }
  for (const auto& x : c["at"]) {
    json& b = bps[x["bp"]];
    if (b.is_null()) b = {{"id", x["bp"]}, {"a", json::array()}, {"b", json::array()}};
    b[x["side"] == "A" ? "a" : "b"].push_back({{"lane", x["lane"]}, {"end", x["end"]}});
  }
  json js = json::array(), bs = json::array();
  for (const auto& kv : segs) js.push_back({{"id", "j" + kv.first}, {"segments", json::array({kv.second})}});
  for (const auto& kv : bps) bs.push_back(kv.second);
  return {{"junctions", js}, {"bps", bs}, {"lin", (c["lin"] == 0 ? 1e-6 : c["lin"].get<double>()) * u},
          {"frame", {c["frame"]["x"].get<double>() * u, c["frame"]["y"].get<double>() * u, c["frame"]["z"].get<double>() * u}}};
}
}  // namespace geo
