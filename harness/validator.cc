// Conformance driver of spec/Validator.tla: a road geometry that may be inconsistent, and books around it.
#include <unordered_map>

#include "drv.h"
#include "maliput/api/regions.h"
#include "maliput/api/road_network_validator.h"
#include "net.h"
#include "values.h"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using St = std::string;
static const double kDelta = 0.01;

struct World {
  double u{1};
  math::Quaternion rot;
  math::Vector3 off;
  InertialPosition At(double x, double y) const { return InertialPosition::FromXyz(off + rot * math::Vector3(x * u, y * u, 0)); }
  Rotation Facing(double yaw) const { return Rotation::FromQuat(rot * math::Quaternion(yaw, math::Vector3(0, 0, 1))); }
};
struct GLane : Lane {
  World w;
  json j;
  const Segment* owner{};
  const BranchPoint *sb{}, *fb{};
  int Dir(const char* k) const {
    static const std::map<St, std::vector<int>> d{{"x", {1, 0, -1, 0}}, {"y", {0, 1, 0, -1}}};
    return d.at(k)[j["q"].get<int>()];
  }
  LaneId do_id() const override { return LaneId(j["id"].get<St>()); }
  const Segment* do_segment() const override { return owner; }
  int do_index() const override { return j["idx"].get<int>() - 1; }
  const Lane* do_to_left() const override { return nullptr; }
  const Lane* do_to_right() const override { return nullptr; }
  double do_length() const override { return j["len"].get<double>() * w.u; }
  RBounds do_lane_bounds(double) const override { return {-1, 1}; }
  RBounds do_segment_bounds(double) const override { return {-1, 1}; }
  HBounds do_elevation_bounds(double, double) const override { return {0, 5}; }
  InertialPosition DoToInertialPosition(const LanePosition& p) const override {
    const double s = p.s() / w.u, r = p.r() / w.u;
    return w.At(j["x"].get<double>() + Dir("x") * s - Dir("y") * r, j["y"].get<double>() + Dir("y") * s + Dir("x") * r);
  }
  LanePositionResult DoToLanePosition(const InertialPosition&) const override { throw std::logic_error("not expected"); }
  LanePositionResult DoToSegmentPosition(const InertialPosition&) const override { throw std::logic_error("not expected"); }
  Rotation DoGetOrientation(const LanePosition& p) const override {
    const bool first = 2 * p.s() < do_length() - 1e-9 * w.u;
    return w.Facing(j["q"].get<int>() * M_PI / 2 + j[first ? "t0" : "t1"].get<double>() * kDelta);
  }
  LanePosition DoEvalMotionDerivatives(const LanePosition&, const IsoLaneVelocity&) const override { return {}; }
  const BranchPoint* DoGetBranchPoint(const LaneEnd::Which e) const override { return e == LaneEnd::kStart ? sb : fb; }
  const LaneEndSet* DoGetConfluentBranches(const LaneEnd::Which) const override { return nullptr; }
  const LaneEndSet* DoGetOngoingBranches(const LaneEnd::Which) const override { return nullptr; }
  std::optional<LaneEnd> DoGetDefaultBranch(const LaneEnd::Which) const override { return std::nullopt; }
};
struct GSeg : Segment {
  St name;
  const Junction* owner{};
  std::vector<const GLane*> kids;
  SegmentId do_id() const override { return SegmentId(name); }
  const Junction* do_junction() const override { return owner; }
  int do_num_lanes() const override { return kids.size(); }
  const Lane* do_lane(int i) const override { return kids.at(i); }
};
struct GJunc : Junction {
  St name;
  const RoadGeometry* owner{};
  std::vector<const GSeg*> kids;
  JunctionId do_id() const override { return JunctionId(name); }
  const RoadGeometry* do_road_geometry() const override { return owner; }
  int do_num_segments() const override { return kids.size(); }
  const Segment* do_segment(int i) const override { return kids.at(i); }
};
struct GSet : LaneEndSet {
  std::vector<LaneEnd> v;
  int do_size() const override { return v.size(); }
  const LaneEnd& do_get(int i) const override { return v.at(i); }
};
struct GBp : BranchPoint {
  St name;
  const RoadGeometry* owner{};
  bool null{};
  GSet a, b;
  BranchPointId do_id() const override { return BranchPointId(name); }
  const RoadGeometry* do_road_geometry() const override { return owner; }
  const LaneEndSet* DoGetConfluentBranches(const LaneEnd&) const override { return nullptr; }
  const LaneEndSet* DoGetOngoingBranches(const LaneEnd&) const override { return nullptr; }
  std::optional<LaneEnd> DoGetDefaultBranch(const LaneEnd&) const override { return std::nullopt; }
  const LaneEndSet* DoGetASide() const override { return &a; }
  const LaneEndSet* DoGetBSide() const override { return null ? nullptr : &b; }
};
struct GGeo : RoadGeometry {
  struct Index : IdIndex {
    std::unordered_map<LaneId, const Lane*> l;
    std::map<St, const Segment*> s;
    std::map<St, const Junction*> j;
    std::map<St, const BranchPoint*> b;
    template <class M>
    static typename M::mapped_type Get(const M& m, const typename M::key_type& k) {
      auto it = m.find(k);
      return it == m.end() ? nullptr : it->second;
    }
    const Lane* DoGetLane(const LaneId& id) const override { return Get(l, id); }
    const std::unordered_map<LaneId, const Lane*>& DoGetLanes() const override { return l; }
    const Segment* DoGetSegment(const SegmentId& id) const override { return Get(s, id.string()); }
    const Junction* DoGetJunction(const JunctionId& id) const override { return Get(j, id.string()); }
    const BranchPoint* DoGetBranchPoint(const BranchPointId& id) const override { return Get(b, id.string()); }
  };
  std::map<St, std::unique_ptr<GLane>> lanes;
  std::map<St, std::unique_ptr<GSeg>> segs;
  std::map<St, std::unique_ptr<GJunc>> juncs;
  std::map<St, std::unique_ptr<GBp>> bps;
  std::vector<const GJunc*> js;
  std::vector<const GBp*> bs;
  Index idx;
  double lin{.5};
  RoadGeometryId do_id() const override { return RoadGeometryId("rg"); }
  int do_num_junctions() const override { return js.size(); }
  const Junction* do_junction(int i) const override { return js.at(i); }
  int do_num_branch_points() const override { return bs.size(); }
  const BranchPoint* do_branch_point(int i) const override { return bs.at(i); }
  const IdIndex& DoById() const override { return idx; }
  RoadPositionResult DoToRoadPosition(const InertialPosition&, const std::optional<RoadPosition>&) const override { throw std::logic_error("no"); }
  std::vector<RoadPositionResult> DoFindRoadPositions(const InertialPosition&, double) const override { throw std::logic_error("no"); }
  double do_linear_tolerance() const override { return lin; }
  double do_angular_tolerance() const override { return 1.8 * kDelta; }
  double do_scale_length() const override { return 1; }
  math::Vector3 do_inertial_to_backend_frame_translation() const override { return {0, 0, 0}; }
};
static std::unique_ptr<GGeo> MakeGeo(const json& g, const World& w) {
  // A second, empty geometry with a junction and a segment, for elements that claim to belong elsewhere.
  static GGeo other;
  auto rg = std::make_unique<GGeo>();
  rg->lin = (g["lin"].get<double>() + .5) * w.u;
  for (const auto& x : geo::Ord(g["juncs"])) {
    auto& p = rg->juncs[x["id"]] = std::make_unique<GJunc>();
    p->name = x["id"];
    p->owner = x["owner"] == "rg" ? static_cast<RoadGeometry*>(rg.get()) : &other;
  }
  for (const auto& x : g["segs"]) {
    auto& p = rg->segs[x["id"]] = std::make_unique<GSeg>();
    p->name = x["id"];
    p->owner = rg->juncs.at(x["owner"]).get();
  }
  for (const auto& x : g["bps"]) {
    auto& p = rg->bps[x["id"]] = std::make_unique<GBp>();
    p->name = x["id"];
    p->owner = x["owner"] == "rg" ? static_cast<RoadGeometry*>(rg.get()) : &other;
    p->null = x["null"];
  }
  for (const auto& x : g["lanes"]) {
    auto& p = rg->lanes[x["id"]] = std::make_unique<GLane>();
    p->w = w;
    p->j = x;
    p->owner = rg->segs.at(x["owner"]).get();
    if (x["sb"] != "") p->sb = rg->bps.at(x["sb"]).get();
    if (x["fb"] != "") p->fb = rg->bps.at(x["fb"]).get();
  }
  const auto sorted = [](const json& a) {
    std::vector<json> v(a.begin(), a.end());
    std::sort(v.begin(), v.end(), [](const json& x, const json& y) { return x["o"] < y["o"]; });
    return v;
  };
  for (const auto& x : sorted(g["juncs"])) {
    rg->js.push_back(rg->juncs.at(x["id"]).get());
    if (x["inx"].get<bool>()) rg->idx.j[x["id"]] = rg->js.back();
  }
  for (const auto& x : sorted(g["segs"])) {
    rg->juncs.at(x["j"])->kids.push_back(rg->segs.at(x["id"]).get());
    if (x["inx"].get<bool>()) rg->idx.s[x["id"]] = rg->segs.at(x["id"]).get();
  }
  for (const auto& x : sorted(g["lanes"])) {
    rg->segs.at(x["seg"])->kids.push_back(rg->lanes.at(x["id"]).get());
    if (x["inx"].get<bool>()) rg->idx.l[LaneId(x["id"].get<St>())] = rg->lanes.at(x["id"]).get();
  }
  for (const auto& x : sorted(g["bps"])) {
    auto* b = rg->bps.at(x["id"]).get();
    rg->bs.push_back(b);
    if (x["inx"].get<bool>()) rg->idx.b[x["id"]] = b;
    for (const auto& e : x["a"]) b->a.v.emplace_back(rg->lanes.at(e["lane"]).get(), geo::End(e["end"]));
    for (const auto& e : x["b"]) b->b.v.emplace_back(rg->lanes.at(e["lane"]).get(), geo::End(e["end"]));
  }
  return rg;
}

class Val : public drv::Sut {
 public:
  explicit Val(const json& c) {
    w_.u = c["u"].get<double>();
    const json& r = c["rpy"];
    w_.rot = math::RollPitchYaw(r[0].get<double>(), r[1].get<double>(), r[2].get<double>()).ToQuaternion();
    w_.off = math::Vector3(r[0].get<double>() * 10, r[1].get<double>() * 5, r[2].get<double>()) * w_.u;
    Build(json{{"juncs", json::array()}, {"segs", json::array()}, {"lanes", json::array()}, {"bps", json::array()}, {"lin", 0}});
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Load") {
      Build(c["geo"]);
      for (const auto& r : c["rules"]) AddRule(r);
      for (const auto& r : c["lights"]) AddLight(r);
      for (const auto& r : c["rings"]) AddRing(r);
    } else if (op == "Validate") {
      RoadNetworkValidatorOptions o{false, false, false, false, false, false, false, false};
      for (const auto& x : c["opts"]) {
        if (x == "dir") o.check_direction_usage_rule_coverage = true;
        else if (x == "inv") o.check_road_geometry_invariants = true;
        else if (x == "hier") o.check_road_geometry_hierarchy = true;
        else if (x == "groups") o.check_related_bulb_groups = true;
        else if (x == "zones") o.check_contiguity_rule_zones = true;
        else if (x == "pdr") o.check_phase_discrete_value_rule_states = true;
        else if (x == "pbs") o.check_phase_bulb_states = true;
        else o.check_related_rules = true;
      }
      if (c["opts"].size() == 8) o = RoadNetworkValidatorOptions{};
      ValidateRoadNetwork(*rn_, o);
    } else if (op == "CheckInvariants") {
      return rg_->CheckInvariants().empty() ? "clean" : "reports";
    } else if (op == "IsContiguous") {
      return IsContiguous(Rng(c["z"]), Rng(c["w"]), rg_) ? "yes" : "no";
    } else if (op == "AddRule") {
      AddRule(c["rule"]);
    } else if (op == "RemoveRule") {
      const St k = c["kind"], id = c["id"];
      if (k == "dir") rules_->RemoveRule(DirectionUsageRule::Id(id));
      else if (k == "row") rules_->RemoveRule(RightOfWayRule::Id(id));
      else if (k == "dv") rules_->RemoveRule(rules_->GetDiscreteValueRule(Rule::Id(id)).id());
      else rules_->RemoveRule(rules_->GetRangeValueRule(Rule::Id(id)).id());
    } else if (op == "AddLight") {
      AddLight(c["light"]);
    } else if (op == "AddRing") {
      AddRing(c["ring"]);
    } else if (op == "RemoveRing") {
      rings_->RemovePhaseRing(PhaseRing::Id(c["id"].get<St>()));
    } else {
      throw std::logic_error("unknown " + op);
    }
    return "ok";
  }
  json Obs() override {
    json o{{"rules", json::array()}, {"lights", json::array()}, {"rings", json::array()}};
    const auto q = rn_->rulebook()->Rules();
    const auto put = [&](const char* k, const auto& m) {
      for (const auto& kv : m) o["rules"].push_back({{"kind", k}, {"id", kv.first.string()}});
    };
    put("dir", q.direction_usage);
    put("row", q.right_of_way);
    put("dv", q.discrete_value_rules);
    put("rv", q.range_value_rules);
    for (const auto* t : rn_->traffic_light_book()->TrafficLights()) o["lights"].push_back(t->id().string());
    for (const auto& r : rn_->phase_ring_book()->GetPhaseRings()) o["rings"].push_back(r.string());
    return o;
  }

 private:
  void Build(const json& g) {
    rn_.reset();
    auto rg = MakeGeo(g, w_);
    geo::Books b;
    rg_ = rg.get();
    rules_ = b.rules.get();
    lights_ = b.lights.get();
    rings_ = b.rings.get();
    rn_ = geo::Network(std::move(rg), std::move(b));
  }
  LaneSRange Rng(const json& z) const {
    return LaneSRange(LaneId(z["lane"].get<St>()), SRange(z["s0"].get<double>() * w_.u, z["s1"].get<double>() * w_.u));
  }
  std::vector<LaneSRange> Zone(const json& z) const {
    std::vector<LaneSRange> v;
    for (const auto& x : geo::Ord(z)) v.push_back(Rng(x));
    return v;
  }
  static Rule::RelatedRules Rel(const json& v) {
    std::set<St> ids;
    for (const auto& x : v["rel"]) ids.insert(x.get<St>());
    Rule::RelatedRules r;
    for (const auto& x : ids) r["g"].push_back(Rule::Id(x));
    return r;
  }
  static DiscreteValueRule::DiscreteValue Dv(const json& v) {
    return DiscreteValueRule::DiscreteValue(v["sev"].get<int>(), Rel(v), {}, v["text"].get<St>());
  }
  void AddRule(const json& r) {
    const St k = r["kind"], id = r["id"];
    if (k == "dir") {
      rules_->AddRule(DirectionUsageRule(DirectionUsageRule::Id(id), Zone(r["zone"]).at(0),
                                         {DirectionUsageRule::State(DirectionUsageRule::State::Id("s"), DirectionUsageRule::State::Type::kWithS,
                                                                    DirectionUsageRule::State::Severity::kStrict)}));
    } else if (k == "row") {
      RightOfWayRule::RelatedBulbGroups rel;
      for (const auto& x : r["lights"]) {
        auto& v = rel[TrafficLight::Id(x["id"].get<St>())];
        for (const auto& g : x["groups"]) v.push_back(BulbGroup::Id(g.get<St>()));
      }
      rules_->AddRule(RightOfWayRule(RightOfWayRule::Id(id), LaneSRoute(Zone(r["zone"])), RightOfWayRule::ZoneType::kStopExcluded,
                                     {RightOfWayRule::State(RightOfWayRule::State::Id("go"), RightOfWayRule::State::Type::kGo, {})}, rel));
    } else if (k == "dv") {
      std::vector<DiscreteValueRule::DiscreteValue> v;
      for (const auto& x : r["vals"]) v.push_back(Dv(x));
      rules_->AddRule(DiscreteValueRule(Rule::Id(id), Rule::TypeId("t"), LaneSRoute(Zone(r["zone"])), v));
    } else {
      std::vector<RangeValueRule::Range> v;
      for (const auto& x : r["vals"]) v.emplace_back(x["sev"].get<int>(), Rel(x), Rule::RelatedUniqueIds{}, x["text"].get<St>(), 0., 1.);
      rules_->AddRule(RangeValueRule(Rule::Id(id), Rule::TypeId("t"), LaneSRoute(Zone(r["zone"])), v));
    }
  }
  static BulbState State(const json& s) { return s == "On" ? BulbState::kOn : s == "Off" ? BulbState::kOff : BulbState::kBlinking; }
  void AddLight(const json& t) {
    std::vector<std::unique_ptr<BulbGroup>> gs;
    for (const auto& g : t["groups"]) {
      std::vector<std::unique_ptr<Bulb>> bs;
      for (const auto& b : g["bulbs"]) {
        std::vector<BulbState> st;
        for (const auto& s : b["states"]) st.push_back(State(s));
        bs.push_back(std::make_unique<Bulb>(Bulb::Id(b["id"].get<St>()), InertialPosition(0, 0, 0), Rotation::FromRpy(0, 0, 0), BulbColor::kRed,
                                            BulbType::kRound, std::nullopt, st));
      }
      gs.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g["id"].get<St>()), InertialPosition(0, 0, 0), Rotation::FromRpy(0, 0, 0), std::move(bs)));
    }
    lights_->AddTrafficLight(std::make_unique<TrafficLight>(TrafficLight::Id(t["id"].get<St>()), InertialPosition(0, 0, 0),
                                                            Rotation::FromRpy(0, 0, 0), std::move(gs)));
  }
  void AddRing(const json& r) {
    std::vector<Phase> ps;
    for (const auto& p : r["phases"]) {
      DiscreteValueRuleStates dv;
      for (const auto& x : p["dv"]) dv.emplace(Rule::Id(x["rule"].get<St>()), Dv(x["val"]));
      std::optional<BulbStates> bs;
      if (!p["bulbs"].empty()) {
        bs.emplace();
        for (const auto& x : p["bulbs"])
          bs->emplace(UniqueBulbId(TrafficLight::Id(x["light"].get<St>()), BulbGroup::Id(x["group"].get<St>()), Bulb::Id(x["bulb"].get<St>())),
                      State(x["state"]));
      }
      ps.emplace_back(Phase::Id(p["id"].get<St>()), RuleStates{}, dv, bs);
    }
    rings_->AddPhaseRing(PhaseRing(PhaseRing::Id(r["id"].get<St>()), ps));
  }
  World w_;
  std::unique_ptr<RoadNetwork> rn_;
  const RoadGeometry* rg_{};
  ManualRulebook* rules_{};
  maliput::TrafficLightBook* lights_{};
  ManualPhaseRingBook* rings_{};
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::unique_ptr<drv::Sut>(new Val(c)); });
}
