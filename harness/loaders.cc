// Conformance driver of spec/Loaders.tla: documents are written as YAML and loaded.
#include <fstream>
#include <set>
#include <unistd.h>
#include "drv.h"
#include "geo.h"
#include "values.h"
#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/right_of_way_rule.h"
#include "maliput/base/intersection_book_loader.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_ring_book_loader.h"
#include "maliput/base/road_rulebook_loader.h"
#include "maliput/base/rule_registry_loader.h"
#include "maliput/base/traffic_light_book_loader.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using St = std::string;
using maliput::math::Vector3;

// Flow and block style in turn.
St Yaml(const json& n, bool flow) {
  const St t = n["t"];
  if (t == "num") return n["v"].dump();
  if (t == "str") return n["v"].dump();
  St s;
  if (t == "seq") {
    for (const auto& x : n["v"]) s += (s.empty() ? "" : ", ") + Yaml(x, flow);
    return "[" + s + "]";
  }
  for (const auto& kv : n["kv"]) s += (s.empty() ? "" : ", ") + kv["k"].dump() + ": " + Yaml(kv["v"], flow);
  return "{" + s + "}";
}
bool Plain(const St& s) { return !s.empty() && s.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_ 0123456789") == St::npos && isalpha(s[0]) && s.back() != ' '; }
St Scalar(const json& v) { return v.is_string() && Plain(v) ? v.get<St>() : v.dump(); }
St Block(const json& n, const St& in) {
  const St t = n["t"];
  if (t == "num" || t == "str") return " " + Scalar(n["v"]) + "\n";
  St s = "\n";
  if (t == "seq") {
    if (n["v"].empty()) return " []\n";
    for (const auto& x : n["v"]) s += in + "-" + Block(x, in + "  ");
    return s;
  }
  if (n["kv"].empty()) return " {}\n";
  for (const auto& kv : n["kv"]) s += in + Scalar(kv["k"]) + ":" + Block(kv["v"], in + "  ");
  return s;
}
json Pose(const InertialPosition& p, const Rotation& r) {
  const auto& q = r.quat();
  auto n = val::Num;
  return {{"x", n(p.x())}, {"y", n(p.y())}, {"z", n(p.z())}, {"qw", n(q.w())}, {"qx", n(q.x())}, {"qy", n(q.y())}, {"qz", n(q.z())}};
}
json Indexed(const std::vector<St>& v, int step = 1) {
  json a = json::array();
  int i = 0;
  for (const auto& s : v) a.push_back({{"i", i += step}, {"id", s}});
  return a;
}
template <class V>
std::vector<St> Names(const V& v) {
  std::vector<St> r;
  for (const auto& x : v) r.push_back(x.string());
  return r;
}
json Plainly(json v) {  // related ids as a set
  for (auto& r : v["rel"]) {
    std::set<St> s;
    for (const auto& x : r["ids"]) s.insert(x["id"].get<St>());
    r["ids"] = s;
  }
  return v;
}
template <class V>
json Vals(const V& v, bool bag) {
  json a = json::array();
  int i = 0;
  for (const auto& x : v) a.push_back({{"i", bag ? 0 : ++i}, {"v", Plainly(val::Enc(x))}});
  return a;
}
long Dur(const std::optional<double>& d) { return d ? (*d == (long)*d && *d != 0 ? (long)*d : -777) : 0; }

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) {
    json js = json::array();
    int y = 0;
    for (const auto& l : cfg["lanes"]) {
      const St id = l["id"];
      json lane{{"id", id}, {"y", 10 * y++}, {"len", l["len"]}, {"w", 1}, {"hmin", 0}, {"hmax", 5}};
      js.push_back({{"id", "j" + id}, {"segments", json::array({{{"id", "s" + id}, {"lanes", json::array({lane})}}})}});
    }
    rg_ = geo::Build({{"junctions", js}});
    St t = drv::g_scratch + "/loadersXXXXXX";
    if (!mkdtemp(&t[0])) throw std::logic_error("mkdtemp");
    dir_ = t;
  }
  ~Sut() override {
    unlink((dir_ + "/d.yaml").c_str());
    rmdir(dir_.c_str());
  }
  json Do(const json& c) override {
    const St what = c["what"];
    ++n_;
    const St text = n_ % 2 ? Yaml(c["doc"], true) : Block(c["doc"], "");
    const bool file = n_ % 3 == 0;
    const St path = dir_ + "/d.yaml";
    if (file) std::ofstream(path) << text << "\n";
    if (what == "Registry") {
      reg_ = file ? LoadRuleRegistryFromFile(path) : LoadRuleRegistry(text);
    } else if (what == "Rules") {
      rules_ = file ? LoadRoadRulebookFromFile(rg_.get(), path, *reg_) : LoadRoadRulebook(rg_.get(), text, *reg_);
    } else if (what == "Old") {
      rules_ = file ? LoadRoadRulebookFromFile(rg_.get(), path) : LoadRoadRulebook(rg_.get(), text);
    } else if (what == "Lights") {
      lights_ = file ? LoadTrafficLightBookFromFile(path) : LoadTrafficLightBook(text);
    } else if (what == "Rings") {
      rings_ = file ? LoadPhaseRingBookFromFile(rules_.get(), lights_.get(), path) : LoadPhaseRingBook(rules_.get(), lights_.get(), text);
    } else if (what == "OldRings") {
      rings_ = file ? LoadPhaseRingBookFromFileOldRules(rules_.get(), lights_.get(), path) : LoadPhaseRingBookOldRules(rules_.get(), lights_.get(), text);
    } else if (what == "Inters") {
      auto p = std::make_unique<ManualPhaseProvider>();
      std::set<St> known;
      for (const auto& x : c["pre"]) p->AddPhaseRing(PhaseRing::Id(x["ring"].get<St>()), api::rules::Phase::Id(x["phase"].get<St>()));
      auto b = file ? LoadIntersectionBookFromFile(path, *rules_, *rings_, rg_.get(), p.get()) : LoadIntersectionBook(text, *rules_, *rings_, rg_.get(), p.get());
      inters_ = std::move(b);
      prov_ = std::move(p);
      names_.clear();
      for (const auto& id : rings_->GetPhaseRings()) names_.insert(id.string());
      for (const auto& x : c["pre"]) names_.insert(x["ring"].get<St>());
    } else {
      throw std::logic_error("what");
    }
    return "ok";
  }
  json Obs() override {
    json o;
    json a = json::array();
    if (reg_) {
      for (const auto& kv : reg_->DiscreteValueRuleTypes()) a.push_back({{"type", kv.first.string()}, {"kind", "dv"}, {"values", Vals(kv.second, false)}});
      for (const auto& kv : reg_->RangeValueRuleTypes()) a.push_back({{"type", kv.first.string()}, {"kind", "rv"}, {"values", Vals(kv.second, false)}});
    }
    o["reg"] = a;
    for (const char* k : {"rules", "rows", "dirs", "lights", "rings", "inters", "prov"}) o[k] = json::array();
    if (rules_) Rules(&o);
    if (lights_) {
      for (const auto* t : lights_->TrafficLights()) {
        json groups = json::array();
        int i = 0;
        for (const auto* g : t->bulb_groups()) {
          json bulbs = json::array();
          int j = 0;
          for (const auto* b : g->bulbs()) bulbs.push_back({{"i", ++j}, {"v", Enc(*b)}});
          groups.push_back({{"i", ++i}, {"v", {{"id", g->id().string()}, {"pose", Pose(g->position_traffic_light(), g->orientation_traffic_light())}, {"bulbs", bulbs}}}});
        }
        o["lights"].push_back({{"id", t->id().string()}, {"pose", Pose(t->position_road_network(), t->orientation_road_network())}, {"groups", groups}});
      }
    }
    if (rings_)
      for (const auto& id : rings_->GetPhaseRings()) o["rings"].push_back(Enc(*rings_->GetPhaseRing(id)));
    if (inters_) {
      for (auto* x : inters_->GetIntersections()) {
        std::set<json> region;
        for (const auto& r : x->region()) region.insert(json{{"lane", r.lane_id().string()}, {"s0", val::Num(r.s_range().s0())}, {"s1", val::Num(r.s_range().s1())}});
        o["inters"].push_back({{"id", x->id().string()}, {"ring", x->ring_id().string()}, {"region", region}});
      }
      for (const auto& r : names_) {
        auto p = prov_->GetPhase(PhaseRing::Id(r));
        if (p) o["prov"].push_back({{"ring", r}, {"phase", p->state.string()}, {"next", p->next ? p->next->state.string() : ""}, {"dur", p->next ? Dur(p->next->duration_until) : 0}});
      }
    }
    return o;
  }

 private:
  void Rules(json* o) {
    auto q = rules_->Rules();
    const bool old = !q.right_of_way.empty();
    for (const auto& kv : q.discrete_value_rules) {
      const auto& r = kv.second;
      const bool derived = old && (r.type_id().string() == "Right-Of-Way Rule Type" || r.type_id().string() == "Vehicle-Stop-In-Zone-Behavior Rule Type");
      (*o)["rules"].push_back({{"kind", "dv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", val::EncZ(r.zone().ranges())}, {"values", Vals(r.states(), derived)}});
    }
    for (const auto& kv : q.range_value_rules) {
      const auto& r = kv.second;
      (*o)["rules"].push_back({{"kind", "rv"}, {"id", r.id().string()}, {"type", r.type_id().string()}, {"zone", val::EncZ(r.zone().ranges())}, {"values", Vals(r.states(), false)}});
    }
    for (const auto& kv : q.right_of_way) {
      const auto& r = kv.second;
      json s = json::array(), g = json::array();
      for (const auto& x : r.states()) {
        using T = RightOfWayRule::State::Type;
        const T t = x.second.type();
        const St name = t == T::kGo ? "Go" : t == T::kStop ? "Stop" : "StopThenGo";
        s.push_back({{"type", x.second.id().string() == name && x.first == x.second.id() ? name : "id differs"}, {"yield", Indexed(Names(x.second.yield_to()))}});
      }
      for (const auto& x : r.related_bulb_groups()) g.push_back({{"tl", x.first.string()}, {"groups", Indexed(Names(x.second))}});
      (*o)["rows"].push_back({{"id", r.id().string()}, {"zone", val::EncZ(r.zone().ranges())}, {"stop", r.zone_type() == RightOfWayRule::ZoneType::kStopAllowed}, {"states", s}, {"groups", g}});
    }
    for (const auto& kv : q.direction_usage) {
      const auto& r = kv.second;
      json s = json::array();
      for (const auto& x : r.states())
        s.push_back({{"id", x.second.id().string()}, {"sev", x.second.severity() == DirectionUsageRule::State::Severity::kStrict ? "Strict" : "Preferred"},
                     {"type", DirectionUsageRule::StateTypeMapper().at(x.second.type())}});
      json z = val::EncZ({r.zone()})[0];
      z.erase("i");
      (*o)["dirs"].push_back({{"id", r.id().string()}, {"zone", z}, {"states", s}});
    }
    if (!q.speed_limit.empty()) (*o)["dirs"].push_back("speed limits");
  }
  json Enc(const Bulb& b) {
    json states = json::array(), arrow = json::array(), box = json::array();
    for (auto s : b.states()) states.push_back(BulbStateMapper().at(s));
    if (b.arrow_orientation_rad()) arrow.push_back(val::Num(*b.arrow_orientation_rad()));
    const auto &x = b.bounding_box(), d = Bulb::BoundingBox();
    auto n = val::Num;
    if (x.p_BMin != d.p_BMin || x.p_BMax != d.p_BMax)
      box.push_back({{"x0", n(x.p_BMin.x())}, {"y0", n(x.p_BMin.y())}, {"z0", n(x.p_BMin.z())}, {"x1", n(x.p_BMax.x())}, {"y1", n(x.p_BMax.y())}, {"z1", n(x.p_BMax.z())}});
    return {{"id", b.id().string()}, {"pose", Pose(b.position_bulb_group(), b.orientation_bulb_group())}, {"color", BulbColorMapper().at(b.color())},
            {"type", BulbTypeMapper().at(b.type())}, {"arrow", arrow}, {"states", states}, {"box", box}};
  }
  json Enc(const PhaseRing& r) {
    json ph = json::array(), nx = json::array();
    for (const auto& kv : r.phases()) {
      const auto& p = kv.second;
      json rw = json::array(), dv = json::array(), bulbs = json::array();
      for (const auto& x : p.rule_states()) rw.push_back({{"rule", x.first.string()}, {"state", x.second.string()}});
      for (const auto& x : p.discrete_value_rule_states()) dv.push_back({{"rule", x.first.string()}, {"val", Plainly(val::Enc(x.second))}});
      if (p.bulb_states())
        for (const auto& x : *p.bulb_states())
          bulbs.push_back({{"tl", x.first.traffic_light_id().string()}, {"bulb", x.first.bulb_group_id().string() + "-" + x.first.bulb_id().string()}, {"state", BulbStateMapper().at(x.second)}});
      ph.push_back({{"id", p.id().string()}, {"rw", rw}, {"dv", dv}, {"hasb", p.bulb_states().has_value()}, {"bulbs", bulbs}});
    }
    for (const auto& kv : r.next_phases()) {
      json to = json::array();
      int i = 0;
      for (const auto& t : kv.second) to.push_back({{"i", ++i}, {"id", t.id.string()}, {"dur", Dur(t.duration_until)}});
      nx.push_back({{"phase", kv.first.string()}, {"to", to}});
    }
    return {{"id", r.id().string()}, {"phases", ph}, {"next", nx}};
  }
  int n_{0};
  St dir_;
  std::unique_ptr<api::RoadGeometry> rg_;
  std::unique_ptr<RuleRegistry> reg_ = std::make_unique<RuleRegistry>();
  std::unique_ptr<RoadRulebook> rules_ = std::make_unique<ManualRulebook>();
  std::unique_ptr<TrafficLightBook> lights_ = LoadTrafficLightBook("{TrafficLights: []}");
  std::unique_ptr<PhaseRingBook> rings_ = std::make_unique<ManualPhaseRingBook>();
  std::unique_ptr<ManualPhaseProvider> prov_;
  std::unique_ptr<api::IntersectionBook> inters_;
  std::set<St> names_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Sut>(c); });
}
