// Conformance driver of spec/Rulebook.tla: ManualRulebook and FilterRules.
#include "drv.h"
#include "maliput/api/regions.h"
#include "maliput/api/rules/road_rulebook.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_filter.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;

LaneSRange Rng(const json& r) {
  return LaneSRange(LaneId(r["lane"].get<std::string>()), SRange(r["s0"].get<double>(), r["s1"].get<double>()));
}
// [{"i":1,"lane":..,"s0":..,"s1":..},...] in any order
std::vector<LaneSRange> Rngs(const json& z) {
  std::vector<json> v(z.begin(), z.end());
  std::sort(v.begin(), v.end(), [](const json& a, const json& b) { return a["i"] < b["i"]; });
  std::vector<LaneSRange> r;
  for (const auto& x : v) r.push_back(Rng(x));
  return r;
}
json EncR(const LaneSRange& r, int i) {
  return {{"i", i}, {"lane", r.lane_id().string()}, {"s0", (long)r.s_range().s0()}, {"s1", (long)r.s_range().s1()}};
}
json EncZ(const std::vector<LaneSRange>& z) {
  json a = json::array();
  int i = 0;
  for (const auto& r : z) a.push_back(EncR(r, ++i));
  return a;
}
json Enc(const RightOfWayRule& r) {
  return {{"kind", "rw"}, {"id", r.id().string()}, {"type", ""}, {"zone", EncZ(r.zone().ranges())}};
}
json Enc(const SpeedLimitRule& r) {
  return {{"kind", "sl"}, {"id", r.id().string()}, {"type", ""}, {"zone", EncZ({r.zone()})}};
}
json Enc(const DirectionUsageRule& r) {
  return {{"kind", "du"}, {"id", r.id().string()}, {"type", ""}, {"zone", EncZ({r.zone()})}};
}
json Enc(const DiscreteValueRule& r) {
  return {{"kind", "dv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", EncZ(r.zone().ranges())}};
}
json Enc(const RangeValueRule& r) {
  return {{"kind", "rv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", EncZ(r.zone().ranges())}};
}
template <class M>
void EncAll(const M& m, json* a) {
  for (const auto& kv : m) {
    json e = Enc(kv.second);
    if (kv.first.string() != kv.second.id().string()) e["key"] = kv.first.string();
    a->push_back(e);
  }
}
json EncQ(const RoadRulebook::QueryResults& q) {
  json a = json::array();
  EncAll(q.right_of_way, &a);
  EncAll(q.speed_limit, &a);
  EncAll(q.direction_usage, &a);
  EncAll(q.discrete_value_rules, &a);
  EncAll(q.range_value_rules, &a);
  return a;
}
json Names(const json& rules) {
  json a = json::array();
  for (const auto& r : rules) a.push_back({{"kind", r["kind"]}, {"id", r["id"]}});
  return a;
}

class RulebookSut : public drv::Sut {
 public:
  explicit RulebookSut(const json& cfg) : cfg_(cfg) {}
  json Do(const json& c) override {
    const std::string op = c["op"], kind = c.value("kind", "");
    if (op == "Add") {
      const std::string id = c["id"];
      const auto z = Rngs(c["zone"]);
      if (kind == "rw") {
        dut_.AddRule(RightOfWayRule(RightOfWayRule::Id(id), LaneSRoute(z), RightOfWayRule::ZoneType::kStopAllowed,
                                    {RightOfWayRule::State(RightOfWayRule::State::Id("go"),
                                                           RightOfWayRule::State::Type::kGo, {})},
                                    {}));
      } else if (kind == "sl") {
        dut_.AddRule(SpeedLimitRule(SpeedLimitRule::Id(id), z.at(0), SpeedLimitRule::Severity::kStrict, 0., 1.));
      } else if (kind == "du") {
        dut_.AddRule(DirectionUsageRule(DirectionUsageRule::Id(id), z.at(0),
                                        {DirectionUsageRule::State(DirectionUsageRule::State::Id("x"),
                                                                   DirectionUsageRule::State::Type::kWithS,
                                                                   DirectionUsageRule::State::Severity::kStrict)}));
      } else if (kind == "dv") {
        dut_.AddRule(DiscreteValueRule(Rule::Id(id), Rule::TypeId(c["type"]), LaneSRoute(z),
                                       {DiscreteValueRule::DiscreteValue(Rule::State::kStrict, {}, {}, "v")}));
      } else {
        dut_.AddRule(RangeValueRule(Rule::Id(id), Rule::TypeId(c["type"]), LaneSRoute(z),
                                    {RangeValueRule::Range(Rule::State::kStrict, {}, {}, "d", 0., 1.)}));
      }
      return "ok";
    }
    if (op == "Remove") {
      const std::string id = c["id"];
      if (kind == "rw") dut_.RemoveRule(RightOfWayRule::Id(id));
      else if (kind == "sl") dut_.RemoveRule(SpeedLimitRule::Id(id));
      else if (kind == "du") dut_.RemoveRule(DirectionUsageRule::Id(id));
      else dut_.RemoveRule(Rule::Id(id));
      return "ok";
    }
    if (op == "RemoveAll") {
      dut_.RemoveAll();
      return "ok";
    }
    if (op == "Find") {
      return Names(EncQ(dut_.FindRules(Rngs(c["ranges"]), c["tol"].get<double>())));
    }
    throw std::logic_error("op " + op);
  }
  template <class F>
  json Get(F f) {
    try {
      return json::array({Enc(f())});
    } catch (const std::exception&) {
      return json::array();
    }
  }
  json Obs() override {
    json o;
    const auto all = dut_.Rules();
    o["all"] = EncQ(all);
    json get = json::array();
    for (const std::string id : cfg_["ids"]) {
      auto put = [&](const char* k, json v) { get.push_back({{"kind", k}, {"id", id}, {"rule", v}}); };
      put("rw", Get([&] { return dut_.GetRule(RightOfWayRule::Id(id)); }));
      put("sl", Get([&] { return dut_.GetRule(SpeedLimitRule::Id(id)); }));
      put("du", Get([&] { return dut_.GetRule(DirectionUsageRule::Id(id)); }));
      put("dv", Get([&] { return dut_.GetDiscreteValueRule(Rule::Id(id)); }));
      put("rv", Get([&] { return dut_.GetRangeValueRule(Rule::Id(id)); }));
    }
    o["get"] = get;
    json flt = json::array();
    for (const std::string ty : cfg_["types"]) {
      const Rule::TypeId t(ty);
      std::vector<DiscreteValueRuleFilter> df{[&](const DiscreteValueRule& r) { return r.type_id() == t; }};
      std::vector<RangeValueRuleFilter> rf{[&](const RangeValueRule& r) { return r.type_id() == t; }};
      flt.push_back({{"type", ty}, {"rules", Names(EncQ(FilterRules(all, df, rf)))}});
    }
    o["type"] = flt;
    json find = json::array();
    int i = 0;
    for (const auto& q : cfg_["queries"]) {
      find.push_back({{"q", ++i}, {"rules", Names(EncQ(dut_.FindRules(Rngs(q["ranges"]), q["tol"].get<double>())))}});
    }
    o["find"] = find;
    return o;
  }

 private:
  json cfg_;
  ManualRulebook dut_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<RulebookSut>(c); });
}
