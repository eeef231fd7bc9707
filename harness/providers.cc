// Conformance driver of spec/Providers.tla.
#include "drv.h"
#include "values.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_tools.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using St = std::string;

template <class R>
json EncRes(const std::optional<R>& r) {
  if (!r) return {{"st", "none"}, {"state", json::array()}, {"next", json::array()}, {"dur", 0}};
  return {{"st", "ok"},
          {"state", json::array({val::Enc(r->state)})},
          {"next", r->next ? json::array({val::Enc(r->next->state)}) : json::array()},
          {"dur", r->next && r->next->duration_until ? val::Num(*r->next->duration_until) : json(0)}};
}
template <class F>
json Try(F f) {
  try {
    return EncRes(f());
  } catch (const std::exception&) {
    return {{"st", "throws"}, {"state", json::array()}, {"next", json::array()}, {"dur", 0}};
  }
}

class Prov : public drv::Sut {
 public:
  explicit Prov(const json& cfg) : cfg_(cfg), dv_(&book_), rv_(&book_) {
    json segs = json::array();
    for (const auto& p : cfg["points"]) {
      bool known = false;
      for (const auto& s : segs) known |= s["id"] == p["lane"];
      if (known) continue;
      segs.push_back({{"id", p["lane"]}, {"lanes", json::array({{{"id", p["lane"]}, {"y", 10. * segs.size()}, {"len", 100}}})}});
    }
    rg_ = geo::Build({{"junctions", json::array({{{"id", "j"}, {"segments", segs}}})}});
  }
  json Do(const json& c) override {
    const St op = c["op"];
    const Rule::Id id(c.value("id", St("-")));
    if (op == "AddRule") {
      if (c["kind"] == "dv")
        book_.AddRule(DiscreteValueRule(id, Rule::TypeId(c["type"].get<St>()), LaneSRoute(val::Rngs(c["zone"])), val::Dvs(c["values"])));
      else
        book_.AddRule(RangeValueRule(id, Rule::TypeId(c["type"].get<St>()), LaneSRoute(val::Rngs(c["zone"])), val::Rvs(c["values"])));
    } else if (op == "RemoveRule") {
      book_.RemoveRule(id);
    } else if (op == "SetState" || op == "SetStateZero") {
      std::optional<double> dur;
      if (op == "SetStateZero") dur = 0.;
      else if (c["dur"].get<double>() != 0) dur = c["dur"].get<double>();
      if (c["kind"] == "dv") {
        std::optional<DiscreteValueRule::DiscreteValue> n;
        if (!c["next"].empty()) n = val::Dv(c["next"][0]);
        dv_.SetState(id, val::Dv(c["state"]), n, dur);
      } else {
        std::optional<RangeValueRule::Range> n;
        if (!c["next"].empty()) n = val::Rv(c["next"][0]);
        rv_.SetState(id, val::Rv(c["state"]), n, dur);
      }
    } else if (op == "RwAdd") {
      rw_.AddState(RightOfWayRule::Id(id.string()), RightOfWayRule::State::Id(c["state"].get<St>()));
    } else if (op == "RwSet") {
      rw_.SetState(RightOfWayRule::Id(id.string()), RightOfWayRule::State::Id(c["state"].get<St>()));
    } else if (op == "Defaults") {
      auto d = ManualRangeValueRuleStateProvider::GetDefaultManualRangeValueRuleStateProvider(&book_);
      json a = json::array();
      for (const auto& kv : book_.Rules().range_value_rules) a.push_back({{"id", kv.first.string()}, {"r", Try([&] { return d->GetState(kv.first); })}});
      return a;
    } else {
      throw std::logic_error("op");
    }
    return "ok";
  }
  json Obs() override {
    json byid = json::array(), bypos = json::array(), rw = json::array(), ye = json::array(), bu = json::array();
    for (const St i : cfg_["ids"]) {
      byid.push_back({{"kind", "dv"}, {"id", i}, {"r", Try([&] { return dv_.GetState(Rule::Id(i)); })}});
      byid.push_back({{"kind", "rv"}, {"id", i}, {"r", Try([&] { return rv_.GetState(Rule::Id(i)); })}});
      auto group = [&](auto f) {
        std::optional<DiscreteValueRule> r;
        try {
          r = book_.GetDiscreteValueRule(Rule::Id(i));
        } catch (const std::exception&) {
          return json::array({"no such rule"});
        }
        json a = json::array();
        try {
          for (const auto& x : f(*r)) a.push_back(x.string());
        } catch (const std::exception&) {
          return json::array({"throws"});
        }
        return a;
      };
      ye.push_back({{"id", i}, {"g", group([&](const DiscreteValueRule& r) { return GetCurrentYieldGroup(r, &dv_); })}});
      bu.push_back({{"id", i}, {"g", group([&](const DiscreteValueRule& r) { return GetCurrentBulbGroup(r, &dv_); })}});
    }
    for (const auto& p : cfg_["points"]) {
      const RoadPosition rp(rg_->ById().GetLane(LaneId(p["lane"].get<St>())), LanePosition(p["s"].get<double>(), 0, 0));
      for (const St t : cfg_["types"]) {
        const double tol = p["tol"].get<double>();
        bypos.push_back({{"kind", "dv"}, {"p", p["p"]}, {"type", t}, {"r", Try([&] { return dv_.GetState(rp, Rule::TypeId(t), tol); })}});
        bypos.push_back({{"kind", "rv"}, {"p", p["p"]}, {"type", t}, {"r", Try([&] { return rv_.GetState(rp, Rule::TypeId(t), tol); })}});
      }
    }
    for (const St i : cfg_["rwids"]) {
      auto r = rw_.GetState(RightOfWayRule::Id(i));
      json s = json::array();
      if (r) s.push_back(r->next ? St("has a next state") : r->state.string());
      rw.push_back({{"id", i}, {"s", s}});
    }
    return {{"byid", byid}, {"bypos", bypos}, {"rw", rw}, {"yield", ye}, {"bulbs", bu}};
  }

 private:
  json cfg_;
  std::unique_ptr<geo::RoadGeometry> rg_;
  ManualRulebook book_;
  ManualDiscreteValueRuleStateProvider dv_;
  ManualRangeValueRuleStateProvider rv_;
  ManualRightOfWayRuleStateProvider rw_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Prov>(c); });
}
