// Conformance driver of spec/Registry.tla.
#include "drv.h"
#include "values.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/rule_registry.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using St = std::string;

class Reg : public drv::Sut {
 public:
  explicit Reg(const json& cfg) : cfg_(cfg) {}
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "RegisterBuiltin") {
      const St n = c["name"];
      DiscreteValueRuleTypeAndValues t = n == DirectionUsageRuleTypeId().string() ? BuildDirectionUsageRuleType()
                                         : n == RightOfWayRuleTypeId().string()   ? BuildRightOfWayRuleType()
                                                                                  : BuildVehicleStopInZoneBehaviorRuleType();
      dut_.RegisterDiscreteValueRule(t.first, t.second);
      return "ok";
    }
    const bool dv = c["kind"] == "dv";
    const Rule::TypeId ty(c["type"].get<St>());
    if (op == "Register") {
      if (dv) dut_.RegisterDiscreteValueRule(ty, val::Dvs(c["values"]));
      else dut_.RegisterRangeValueRule(ty, val::Rvs(c["values"]));
      return "ok";
    }
    const Rule::Id id(c["id"].get<St>());
    const LaneSRoute zone(val::Rngs(c["zone"]));
    if (op == "Build")
      return dv ? val::EncRule(dut_.BuildDiscreteValueRule(id, ty, zone, val::Dvs(c["values"])))
                : val::EncRule(dut_.BuildRangeValueRule(id, ty, zone, val::Rvs(c["values"])));
    if (op == "Make")
      return dv ? val::EncRule(DiscreteValueRule(id, ty, zone, val::Dvs(c["values"])))
                : val::EncRule(RangeValueRule(id, ty, zone, val::Rvs(c["values"])));
    throw std::logic_error("op");
  }
  json Obs() override {
    json t = json::array(), g = json::array();
    for (const auto& kv : dut_.DiscreteValueRuleTypes()) t.push_back({{"type", kv.first.string()}, {"kind", "dv"}, {"values", val::EncAll(kv.second)}});
    for (const auto& kv : dut_.RangeValueRuleTypes()) t.push_back({{"type", kv.first.string()}, {"kind", "rv"}, {"values", val::EncAll(kv.second)}});
    for (const St ty : cfg_["types"]) {
      auto q = dut_.GetPossibleStatesOfRuleType(Rule::TypeId(ty));
      json is = json::array();
      if (q) {
        if (auto* d = std::get_if<RuleRegistry::QueryResult::DiscreteValues>(&q->rule_values))
          is.push_back({{"type", q->type_id.string()}, {"kind", "dv"}, {"values", val::EncAll(*d)}});
        else
          is.push_back({{"type", q->type_id.string()}, {"kind", "rv"}, {"values", val::EncAll(std::get<RuleRegistry::QueryResult::Ranges>(q->rule_values))}});
      }
      g.push_back({{"type", ty}, {"is", is}});
    }
    return {{"types", t}, {"get", g}};
  }

 private:
  json cfg_;
  RuleRegistry dut_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Reg>(c); });
}
