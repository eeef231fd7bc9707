// Conformance driver of spec/Phases.tla.
#include "drv.h"
#include "geo.h"
#include "maliput/api/intersection.h"
#include "maliput/api/regions.h"
#include "maliput/api/rules/phase.h"
#include "maliput/api/rules/phase_ring.h"
#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"
#include "maliput/base/phased_discrete_rule_state_provider.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using Ph = maliput::api::rules::Phase;
using St = std::string;

std::vector<LaneSRange> Rngs(const json& z) {
  std::vector<LaneSRange> r;
  for (const auto& x : geo::Ord(z))
    r.emplace_back(LaneId(x["lane"].get<St>()), SRange(x["s0"].get<double>(), x["s1"].get<double>()));
  return r;
}
DiscreteValueRule::DiscreteValue Val(const St& v) { return DiscreteValueRule::DiscreteValue(Rule::State::kStrict, {}, {}, v); }
BulbState BS(const St& s) { return s == "on" ? BulbState::kOn : s == "off" ? BulbState::kOff : BulbState::kBlinking; }
const char* BSName(BulbState s) { return s == BulbState::kOn ? "on" : s == BulbState::kOff ? "off" : "blinking"; }
template <class T>
std::optional<T> Opt(const St& s) {
  return s.empty() ? std::nullopt : std::optional<T>(T(s));
}
std::optional<double> Dur(const json& d) {
  return d.get<double>() == 0 ? std::nullopt : std::optional<double>(d.get<double>());
}
PhaseRing MakeRing(const json& d) {
  std::vector<Ph> phases;
  for (const auto& p : geo::Ord(d["phases"])) {
    RuleStates rw;
    for (const auto& x : p["rw"]) rw.emplace(RightOfWayRule::Id(x["rule"].get<St>()), RightOfWayRule::State::Id(x["state"].get<St>()));
    DiscreteValueRuleStates dv;
    for (const auto& x : p["dv"]) dv.emplace(Rule::Id(x["rule"].get<St>()), Val(x["val"].get<St>()));
    std::optional<BulbStates> bulbs;
    if (p["hasb"].get<bool>()) {
      bulbs.emplace();
      for (const auto& x : p["bulbs"])
        bulbs->emplace(UniqueBulbId(TrafficLight::Id(x["tl"].get<St>()), BulbGroup::Id("g"), Bulb::Id(x["bulb"].get<St>())),
                       BS(x["state"].get<St>()));
    }
    phases.emplace_back(Ph::Id(p["id"].get<St>()), rw, dv, bulbs);
  }
  if (!d["hasnext"].get<bool>()) return PhaseRing(PhaseRing::Id(d["id"].get<St>()), phases);
  std::unordered_map<Ph::Id, std::vector<PhaseRing::NextPhase>> next;
  for (const auto& n : d["next"]) {
    auto& v = next[Ph::Id(n["phase"].get<St>())];
    for (const auto& t : geo::Ord(n["to"])) v.push_back({Ph::Id(t["id"].get<St>()), Dur(t["dur"])});
  }
  return PhaseRing(PhaseRing::Id(d["id"].get<St>()), phases, next);
}
long D(const std::optional<double>& d) { return d ? (*d == (long)*d && *d != 0 ? (long)*d : -777) : 0; }
json EncBulbs(const BulbStates& b) {
  json a = json::array();
  for (const auto& kv : b)
    a.push_back({{"tl", kv.first.traffic_light_id().string()}, {"bulb", kv.first.bulb_id().string()}, {"state", BSName(kv.second)}});
  return a;
}
json EncRw(const RuleStates& r) {
  json a = json::array();
  for (const auto& kv : r) a.push_back({{"rule", kv.first.string()}, {"state", kv.second.string()}});
  return a;
}
json EncDv(const DiscreteValueRuleStates& r) {
  json a = json::array();
  for (const auto& kv : r) a.push_back({{"rule", kv.first.string()}, {"val", kv.second.value}});
  return a;
}
json EncRing(const PhaseRing& r) {
  json ph = json::array(), nx = json::array();
  for (const auto& kv : r.phases()) {
    const Ph& p = kv.second;
    json e{{"id", p.id().string()}, {"rw", EncRw(p.rule_states())}, {"dv", EncDv(p.discrete_value_rule_states())},
           {"hasb", p.bulb_states().has_value()}, {"bulbs", p.bulb_states() ? EncBulbs(*p.bulb_states()) : json::array()}};
    if (kv.first != p.id()) e["key"] = kv.first.string();
    auto g = r.GetPhase(kv.first);
    if (!g || g->id() != p.id()) e["get"] = "differs";
    ph.push_back(e);
  }
  if (r.GetPhase(Ph::Id("no-such-phase"))) ph.push_back("phantom");
  for (const auto& kv : r.next_phases()) {
    json to = json::array();
    int i = 0;
    for (const auto& t : kv.second) to.push_back({{"i", ++i}, {"id", t.id.string()}, {"dur", D(t.duration_until)}});
    nx.push_back({{"phase", kv.first.string()}, {"to", to}});
  }
  return {{"id", r.id().string()}, {"phases", ph}, {"next", nx}};
}
json Res(const char* st, const St& s, const St& n, long d) { return {{"st", st}, {"state", s}, {"next", n}, {"dur", d}}; }
json Enc(const std::optional<PhaseProvider::Result>& r) {
  if (!r) return Res("none", "", "", 0);
  return Res("ok", r->state.string(), r->next ? r->next->state.string() : "", r->next ? D(r->next->duration_until) : 0);
}
json Enc(const std::optional<RightOfWayRuleStateProvider::RightOfWayResult>& r) {
  if (!r) return Res("none", "", "", 0);
  return Res("ok", r->state.string(), r->next ? r->next->state.string() : "", r->next ? D(r->next->duration_until) : 0);
}
json Enc(const std::optional<DiscreteValueRuleStateProvider::StateResult>& r) {
  if (!r) return Res("none", "", "", 0);
  return Res("ok", r->state.value, r->next ? r->next->state.value : "", r->next ? D(r->next->duration_until) : 0);
}
template <class F>
json Try(F f) {
  try {
    return Enc(f());
  } catch (const std::exception&) {
    return Res("throws", "", "", 0);
  }
}
template <class F>
json Name(F f) {
  try {
    auto* p = f();
    return p ? p->id().string() : St("none");
  } catch (const std::exception&) {
    return "throws";
  }
}

class Phases : public drv::Sut {
 public:
  explicit Phases(const json& cfg) : cfg_(cfg) {
    json lanes = json::array();
    for (auto l : cfg["lanes"]) {
      lanes.push_back({{"id", l["id"]}, {"y", l["y"]}, {"len", l["len"]}, {"w", 1}, {"hmin", 0}, {"hmax", 5}});
    }
    rg_ = geo::Build({{"junctions", {{{"id", "j"}, {"segments", {{{"id", "s"}, {"lanes", lanes}}}}}}}});
    ib_ = std::make_unique<maliput::IntersectionBook>(rg_.get());
    for (const auto& d : cfg["dvdesc"]) {
      std::vector<DiscreteValueRule::DiscreteValue> v;
      for (const auto& s : geo::Ord(d["states"])) v.push_back(Val(s.is_object() ? s["v"].get<St>() : s.get<St>()));
      rules_.AddRule(DiscreteValueRule(Rule::Id(d["id"].get<St>()), Rule::TypeId(d["type"].get<St>()), LaneSRoute(Rngs(d["zone"])), v));
    }
    rw_ = std::make_unique<PhaseBasedRightOfWayRuleStateProvider>(&book_, &prov_);
    dv_ = std::make_unique<PhasedDiscreteRuleStateProvider>(&rules_, &book_, &prov_);
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "AddRing") {
      book_.AddPhaseRing(MakeRing(c["ring"]));
    } else if (op == "RemoveRing") {
      book_.RemovePhaseRing(PhaseRing::Id(c["id"].get<St>()));
    } else if (op == "ProvAdd") {
      prov_.AddPhaseRing(PhaseRing::Id(c["ring"].get<St>()), Ph::Id(c["phase"].get<St>()), Opt<Ph::Id>(c["next"]), Dur(c["dur"]));
    } else if (op == "ProvSet") {
      prov_.SetPhase(PhaseRing::Id(c["ring"].get<St>()), Ph::Id(c["phase"].get<St>()), Opt<Ph::Id>(c["next"]), Dur(c["dur"]));
    } else if (op == "ManualSet") {
      const St n = c["next"];
      dv_->SetState(Rule::Id(c["rule"].get<St>()), Val(c["state"]),
                    n.empty() ? std::nullopt : std::optional<DiscreteValueRule::DiscreteValue>(Val(n)), Dur(c["dur"]));
    } else if (op == "AddInter") {
      ib_->AddIntersection(std::make_unique<maliput::Intersection>(api::Intersection::Id(c["id"].get<St>()), Rngs(c["region"]),
                                                                   MakeRing(c["ring"]), &prov_));
    } else if (op == "InterSet") {
      auto* x = ib_->GetIntersection(api::Intersection::Id(c["id"].get<St>()));
      if (!x) return "absent";
      x->SetPhase(Ph::Id(c["phase"].get<St>()), Opt<Ph::Id>(c["next"]), Dur(c["dur"]));
    } else if (op == "Defaults") {
      auto p = ManualPhaseProvider::GetDefaultPopulatedManualPhaseProvider(&book_);
      json a = json::array(), b = json::array();
      for (const auto& id : book_.GetPhaseRings()) a.push_back({{"ring", id.string()}, {"p", Try([&] { return p->GetPhase(id); })}});
      auto d = PhasedDiscreteRuleStateProvider::GetDefaultPhasedDiscreteRuleStateProvider(&rules_, &book_, &prov_);
      for (const auto& r : cfg_["dvdesc"]) {
        Rule::Id id(r["id"].get<St>());
        b.push_back({{"rule", id.string()}, {"r", Try([&] { return d->GetState(id); })}});
      }
      return {{"prov", a}, {"dv", b}};
    } else {
      throw std::logic_error("op " + op);
    }
    return "ok";
  }
  json Obs() override {
    json o;
    json a = json::array();
    for (const auto& id : book_.GetPhaseRings()) a.push_back(id.string());
    o["rings"] = a;
    a = json::array();
    json pv = json::array();
    for (const St r : cfg_["rings"]) {
      auto ring = book_.GetPhaseRing(PhaseRing::Id(r));
      a.push_back({{"id", r}, {"d", ring ? json::array({EncRing(*ring)}) : json::array()}});
      pv.push_back({{"ring", r}, {"p", Try([&] { return prov_.GetPhase(PhaseRing::Id(r)); })}});
    }
    o["ring"] = a;
    o["prov"] = pv;
    auto ref = [&](const std::optional<PhaseRing>& x) -> St {
      if (!x) return "";
      auto y = book_.GetPhaseRing(x->id());
      if (!y || drv::Canon(EncRing(*y)) != drv::Canon(EncRing(*x))) return x->id().string() + " differs from the ring of the book";
      return x->id().string();
    };
    json f = json::array(), rr = json::array();
    for (const St r : cfg_["rwrules"]) {
      f.push_back({{"rule", r}, {"ring", ref(book_.FindPhaseRing(RightOfWayRule::Id(r)))}});
      rr.push_back({{"rule", r}, {"r", Try([&] { return rw_->GetState(RightOfWayRule::Id(r)); })}});
    }
    o["findrw"] = f;
    o["rw"] = rr;
    f = json::array(), rr = json::array();
    for (const St r : cfg_["dvrules"]) {
      f.push_back({{"rule", r}, {"ring", ref(book_.FindPhaseRing(Rule::Id(r)))}});
      rr.push_back({{"rule", r}, {"r", Try([&] { return dv_->GetState(Rule::Id(r)); })}});
    }
    o["finddv"] = f;
    o["dv"] = rr;
    json pos = json::array();
    for (const auto& p : cfg_["points"])
      for (const St t : cfg_["types"]) {
        const RoadPosition rp(rg_->ById().GetLane(LaneId(p["lane"].get<St>())), LanePosition(p["s"].get<double>(), 0, 0));
        pos.push_back({{"p", p["p"]}, {"type", t}, {"r", Try([&] { return dv_->GetState(rp, Rule::TypeId(t), 0.); })}});
      }
    o["pos"] = pos;
    json in = json::array(), inc = json::array();
    for (auto* x : ib_->GetIntersections()) {
      json e{{"id", x->id().string()}, {"ring", x->ring_id().string()}};
      json z = json::array();
      int i = 0;
      for (const auto& r : x->region())
        z.push_back({{"i", ++i}, {"lane", r.lane_id().string()}, {"s0", (long)r.s_range().s0()}, {"s1", (long)r.s_range().s1()}});
      e["region"] = z;
      e["phase"] = Try([&] { return x->Phase(); });
      e["bulbs"] = e["rw"] = e["dv"] = json::array();
      json n{{"id", x->id().string()}, {"rw", json::array()}, {"dv", json::array()}, {"tl", json::array()}, {"pt", json::array()}};
      try {
        auto b = x->bulb_states();
        auto dv = x->DiscreteValueRuleStates();
        auto rw = x->RuleStates();
        if (dv.has_value() != rw.has_value()) e["mixed"] = true;
        e["st"] = b ? "ok" : dv ? "nobulbs" : "none";
        if (b) e["bulbs"] = EncBulbs(*b);
        if (dv) e["dv"] = EncDv(*dv);
        if (rw) e["rw"] = EncRw(*rw);
        for (const St r : cfg_["rwrules"])
          if (x->Includes(RightOfWayRule::Id(r))) n["rw"].push_back(r);
        for (const St r : cfg_["dvrules"])
          if (x->Includes(Rule::Id(r))) n["dv"].push_back(r);
        for (const St r : cfg_["lights"])
          if (x->Includes(TrafficLight::Id(r))) n["tl"].push_back(r);
      } catch (const std::exception&) {
        e["st"] = "throws";
      }
      for (const auto& p : cfg_["points"])
        if (x->Includes(Pt(p), rg_.get())) n["pt"].push_back(p["p"]);
      in.push_back(e);
      inc.push_back(n);
    }
    o["inter"] = in;
    o["inc"] = inc;
    json g = json::array();
    for (const St i : cfg_["inters"]) {
      auto* x = ib_->GetIntersection(api::Intersection::Id(i));
      if (x && x->id().string() != i) g.push_back("wrong");
      g.push_back({{"id", i}, {"found", x != nullptr}});
    }
    o["get"] = g;
    json fi{{"rw", json::array()}, {"dv", json::array()}, {"tl", json::array()}, {"pt", json::array()}};
    for (const St r : cfg_["rwrules"]) fi["rw"].push_back({{"k", r}, {"x", Name([&] { return ib_->FindIntersection(RightOfWayRule::Id(r)); })}});
    for (const St r : cfg_["dvrules"]) fi["dv"].push_back({{"k", r}, {"x", Name([&] { return ib_->FindIntersection(Rule::Id(r)); })}});
    for (const St r : cfg_["lights"]) fi["tl"].push_back({{"k", r}, {"x", Name([&] { return ib_->FindIntersection(TrafficLight::Id(r)); })}});
    for (const auto& p : cfg_["points"]) fi["pt"].push_back({{"k", p["p"]}, {"x", Name([&] { return ib_->FindIntersection(Pt(p)); })}});
    o["fint"] = fi;
    json fr = json::array();
    int q = 0;
    for (const auto& r : geo::Ord(cfg_["regions"])) {
      json s = json::array();
      for (auto* x : ib_->FindIntersections(Rngs(r["ranges"]), r["tol"].get<double>())) s.push_back(x->id().string());
      fr.push_back({{"q", ++q}, {"found", s}});
    }
    o["freg"] = fr;
    return o;
  }

 private:
  InertialPosition Pt(const json& p) { return InertialPosition(p["x"].get<double>(), p["y"].get<double>(), 0); }
  json cfg_;
  std::unique_ptr<geo::RoadGeometry> rg_;
  ManualRulebook rules_;
  ManualPhaseRingBook book_;
  ManualPhaseProvider prov_;
  std::unique_ptr<maliput::IntersectionBook> ib_;
  std::unique_ptr<PhaseBasedRightOfWayRuleStateProvider> rw_;
  std::unique_ptr<PhasedDiscreteRuleStateProvider> dv_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Phases>(c); });
}
