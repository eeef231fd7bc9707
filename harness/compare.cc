// Conformance driver of spec/Compare.tla: the comparison helpers.
#include <functional>
#include <limits>
#include <set>
#include <unordered_set>
#include "drv.h"
#include "geo.h"
#include "values.h"
#include "maliput/api/compare.h"
#include "maliput/api/rules/compare.h"
#include "maliput/math/compare.h"
#include "maliput/routing/compare.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;
using drv::json;
using St = std::string;

template <class R>
json Tell(const R& r) {
  if (!r.message) return "same";
  return r.message->empty() ? "no message" : "differ";
}
template <class E, class M>
E FromName(const M& mapper, const St& s) {
  for (const auto& kv : mapper)
    if (s == kv.second) return kv.first;
  throw std::runtime_error("driver: no such name " + s);
}
// An index of the parts of a geometry that may have lost, or mistaken, some of them.
class Index : public RoadGeometry::IdIndex {
 public:
  Index(const RoadGeometry* rg, const json& faults) : rg_(rg), faults_(faults) {}

 private:
  template <class T, class I, class F>
  const T* Get(const char* what, const I& id, const T* real, F other) const {
    for (const auto& f : faults_)
      if (f["what"] == what && f["id"] == id.string()) return f["how"] == "missing" ? nullptr : other(real);
    return real;
  }
  const api::Lane* DoGetLane(const LaneId& id) const override {
    return Get("lane", id, rg_->ById().GetLane(id), [&](const api::Lane* r) -> const api::Lane* {
      for (const auto& kv : rg_->ById().GetLanes()) if (kv.second != r) return kv.second;
      return nullptr;
    });
  }
  const std::unordered_map<LaneId, const api::Lane*>& DoGetLanes() const override { return rg_->ById().GetLanes(); }
  const api::Segment* DoGetSegment(const SegmentId& id) const override {
    return Get("segment", id, rg_->ById().GetSegment(id), [&](const api::Segment* r) -> const api::Segment* {
      for (int j = 0; j < rg_->num_junctions(); ++j)
        for (int s = 0; s < rg_->junction(j)->num_segments(); ++s)
          if (rg_->junction(j)->segment(s) != r) return rg_->junction(j)->segment(s);
      return nullptr;
    });
  }
  const api::Junction* DoGetJunction(const JunctionId& id) const override {
    return Get("junction", id, rg_->ById().GetJunction(id), [&](const api::Junction* r) -> const api::Junction* {
      for (int j = 0; j < rg_->num_junctions(); ++j)
        if (rg_->junction(j) != r) return rg_->junction(j);
      return nullptr;
    });
  }
  const api::BranchPoint* DoGetBranchPoint(const BranchPointId& id) const override {
    return Get("branch", id, rg_->ById().GetBranchPoint(id), [&](const api::BranchPoint* r) -> const api::BranchPoint* {
      for (int j = 0; j < rg_->num_branch_points(); ++j)
        if (rg_->branch_point(j) != r) return rg_->branch_point(j);
      return nullptr;
    });
  }
  const RoadGeometry* rg_;
  json faults_;
};
class Indexed : public RoadGeometry {
 public:
  Indexed(const RoadGeometry* rg, const json& faults) : rg_(rg), index_(rg, faults) {}

 private:
  RoadGeometryId do_id() const override { return rg_->id(); }
  int do_num_junctions() const override { return rg_->num_junctions(); }
  const api::Junction* do_junction(int i) const override { return rg_->junction(i); }
  int do_num_branch_points() const override { return rg_->num_branch_points(); }
  const api::BranchPoint* do_branch_point(int i) const override { return rg_->branch_point(i); }
  const IdIndex& DoById() const override { return index_; }
  RoadPositionResult DoToRoadPosition(const InertialPosition&, const std::optional<RoadPosition>&) const override { return {}; }
  std::vector<RoadPositionResult> DoFindRoadPositions(const InertialPosition&, double) const override { return {}; }
  double do_linear_tolerance() const override { return rg_->linear_tolerance(); }
  double do_angular_tolerance() const override { return rg_->angular_tolerance(); }
  double do_scale_length() const override { return rg_->scale_length(); }
  std::vector<InertialPosition> DoSampleAheadWaypoints(const LaneSRoute&, double) const override { return {}; }
  math::Vector3 do_inertial_to_backend_frame_translation() const override { return {}; }
  const RoadGeometry* rg_;
  Index index_;
};

class Cmp : public drv::Sut {
 public:
  explicit Cmp(const json& cfg) : u_(cfg.value("u", 1.)) {
    json js = json::array();
    for (const St j : {"a", "b", "c"})
      js.push_back({{"id", j}, {"segments", {{{"id", j + "s"}, {"lanes", {{{"id", j + "l"}}}}}}}});
    json bps = json::array();
    for (const St j : {"a", "b", "c"})
      bps.push_back({{"id", j + "p"}, {"a", {{{"lane", j + "l"}, {"end", "start"}}}}, {"b", json::array()}});
    rg_ = geo::Build({{"junctions", js}, {"bps", bps}});
  }
  json Obs() override { return {{"n", 0}}; }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Index") {
      const Indexed g(rg_.get(), c["faults"]);
      const auto r = CheckIdIndexing(&g);
      return !r ? "same" : r->empty() ? "no message" : "differ";
    }
    if (op == "Keys") {
      const St k = c["kind"];
      const json& vs = c["vs"];
      if (k == "typed") return Keys<LaneId, true>(vs, [](const json& v) { return LaneId(v.get<St>()); });
      if (k == "unique") return Keys<UniqueId, true>(vs, [](const json& v) { return UniqueId(v.get<St>()); });
      if (k == "bulb")
        return Keys<UniqueBulbId, true>(vs, [](const json& v) { return UniqueBulbId(TrafficLight::Id(v["t"].get<St>()), BulbGroup::Id(v["g"].get<St>()), Bulb::Id(v["b"].get<St>())); });
      if (k == "bulb-group")
        return Keys<UniqueBulbGroupId, true>(vs, [](const json& v) { return UniqueBulbGroupId(TrafficLight::Id(v["t"].get<St>()), BulbGroup::Id(v["g"].get<St>())); });
      if (k == "range") return Keys<RangeValueRule::Range, false>(vs, [this](const json& v) { return Rv(v); });
      return Keys<EndKey, false, EndKey::Less>(vs, [this](const json& v) { return EndKey{End(v)}; });
    }
    if (op == "Collect") {
      common::ComparisonResultCollector k;
      for (const bool f : c["fails"])
        MALIPUT_ADD_RESULT(k, (common::ComparisonResult<int>{f ? std::optional<St>("it differs") : std::nullopt}));
      const auto r = k.result();
      return {{"count", k.count()}, {"failed", k.failed()}, {"result", !r ? "same" : r->empty() ? "no message" : "differ"}};
    }
    auto run = [&](const json& a, const json& b) -> json {
      if (op == "Equal") return Equal(c["kind"], a, b);
      if (op == "Close") return Close(c["kind"], a, b, c["tol"].get<double>());
      return Array(c, a, b);
    };
    return {{"ab", run(c["a"], c["b"])}, {"ba", run(c["b"], c["a"])}};
  }

 private:
  struct EndKey {
    api::LaneEnd e;
    bool operator==(const EndKey& o) const { return e.lane == o.e.lane && e.end == o.e.end; }
    bool operator!=(const EndKey& o) const { return !(*this == o); }
    struct Less {
      bool operator()(const EndKey& x, const EndKey& y) const { return api::LaneEnd::StrictOrder()(x.e, y.e); }
    };
  };
  template <class T, bool H, class L = std::less<T>, class F>
  static json Keys(const json& vs, F make) {
    std::vector<T> v;
    for (const auto& x : vs) v.push_back(make(x));
    json below = json::array(), pairs = json::array();
    for (size_t n = 0; n < v.size(); ++n) {
      int k = 0;
      for (size_t m = 0; m < v.size(); ++m) {
        k += L()(v[m], v[n]);
        pairs.push_back({{"a", n + 1}, {"b", m + 1}, {"eq", v[n] == v[m] ? "yes" : "no"}, {"ne", v[n] != v[m] ? "yes" : "no"}});
      }
      below.push_back({{"k", n + 1}, {"below", k}});
    }
    int hashed = 0;
    if constexpr (H) hashed = std::unordered_set<T>(v.begin(), v.end()).size();
    return {{"below", below}, {"pairs", pairs}, {"ordered", std::set<T, L>(v.begin(), v.end()).size()}, {"hashed", hashed}};
  }
  static json List(const json& x) {
    json r = json::array();
    for (const auto& e : geo::Ord(x)) r.push_back(e["v"]);
    return r;
  }
  template <class T>
  static std::vector<T> Vec(const json& x, std::function<T(const json&)> f) {
    std::vector<T> r;
    for (const auto& e : geo::Ord(x)) r.push_back(f(e["v"]));
    return r;
  }
  template <class T>
  static std::vector<T> Ids(const json& x) {
    return Vec<T>(x, [](const json& s) { return T(s.get<St>()); });
  }
  SRange Sr(const json& r) const { return SRange(r["s0"].get<double>() * u_, r["s1"].get<double>() * u_); }
  LaneSRange Lsr(const json& r) const { return LaneSRange(LaneId(r["lane"].get<St>()), Sr(r)); }
  std::vector<LaneSRange> Zone(const json& z) const {
    return Vec<LaneSRange>(z, [this](const json& r) { return Lsr(r); });
  }
  static void Rel(const json& v, Rule::RelatedRules* rr, Rule::RelatedUniqueIds* ru) {
    for (const auto& e : v["rr"]) (*rr)[e["k"].get<St>()] = Ids<Rule::Id>(e["v"]);
    for (const auto& e : v["ru"]) (*ru)[e["k"].get<St>()] = Ids<UniqueId>(e["v"]);
  }
  static DiscreteValueRule::DiscreteValue Dv(const json& v) {
    Rule::RelatedRules rr;
    Rule::RelatedUniqueIds ru;
    Rel(v, &rr, &ru);
    return DiscreteValueRule::DiscreteValue(v["sev"].get<int>(), rr, ru, v["text"].get<St>());
  }
  RangeValueRule::Range Rv(const json& v) const {
    Rule::RelatedRules rr;
    Rule::RelatedUniqueIds ru;
    Rel(v, &rr, &ru);
    return RangeValueRule::Range(v["sev"].get<int>(), rr, ru, v["text"].get<St>(), v["min"].get<double>() * u_, v["max"].get<double>() * u_);
  }
  static std::vector<DiscreteValueRule::DiscreteValue> Dvs(const json& x) { return Vec<DiscreteValueRule::DiscreteValue>(x, Dv); }
  std::vector<RangeValueRule::Range> Rvs(const json& x) const {
    return Vec<RangeValueRule::Range>(x, [this](const json& v) { return Rv(v); });
  }
  static std::unordered_map<Rule::Id, DiscreteValueRule::DiscreteValue> DvMap(const json& m) {
    std::unordered_map<Rule::Id, DiscreteValueRule::DiscreteValue> r;
    for (const auto& e : m) r.emplace(Rule::Id(e["k"].get<St>()), Dv(e["v"]));
    return r;
  }
  static RuleStates Rs(const json& m) {
    RuleStates r;
    for (const auto& e : m) r.emplace(RightOfWayRule::Id(e["k"].get<St>()), RightOfWayRule::State::Id(e["v"].get<St>()));
    return r;
  }
  static std::optional<BulbStates> Bulbs(const json& o) {
    if (o.empty()) return std::nullopt;
    BulbStates r;
    for (const auto& e : o[0]["v"])
      r.emplace(UniqueBulbId(TrafficLight::Id("t"), BulbGroup::Id("g"), Bulb::Id(e["k"].get<St>())), FromName<BulbState>(BulbStateMapper(), e["v"]));
    return r;
  }
  std::optional<double> Num(const json& o) const { return o.empty() ? std::nullopt : std::optional<double>(o[0]["v"].get<double>() * u_); }
  PhaseRing::NextPhase Next(const json& n) const { return {rules::Phase::Id(n["id"].get<St>()), Num(n["dur"])}; }
  static DirectionUsageRule::State DuState(const json& id, const json& v) {
    using S = DirectionUsageRule::State;
    return S(S::Id(id.get<St>()), FromName<S::Type>(DirectionUsageRule::StateTypeMapper(), v["type"]), v["sev"] == "strict" ? S::Severity::kStrict : S::Severity::kPreferred);
  }
  static RightOfWayRule::State::Type RwType(const json& t) {
    using T = RightOfWayRule::State::Type;
    return t == "go" ? T::kGo : t == "stop" ? T::kStop : T::kStopThenGo;
  }
  static RightOfWayRule::State RwState(const json& id, const json& v) {
    using S = RightOfWayRule::State;
    return S(S::Id(id.get<St>()), RwType(v["type"]), Ids<RightOfWayRule::Id>(v["yield"]));
  }
  static RightOfWayRule::RelatedBulbGroups Groups(const json& m) {
    RightOfWayRule::RelatedBulbGroups r;
    for (const auto& e : m) r[TrafficLight::Id(e["k"].get<St>())] = Ids<BulbGroup::Id>(e["v"]);
    return r;
  }
  DirectionUsageRule Du(const json& r) const {
    std::vector<DirectionUsageRule::State> s;
    for (const auto& e : r["states"]) s.push_back(DuState(e["k"], e["v"]));
    return DirectionUsageRule(DirectionUsageRule::Id(r["id"].get<St>()), Lsr(r["zone"]), s);
  }
  RightOfWayRule Rw(const json& r) const {
    std::vector<RightOfWayRule::State> s;
    for (const auto& e : r["states"]) s.push_back(RwState(e["k"], e["v"]));
    return RightOfWayRule(RightOfWayRule::Id(r["id"].get<St>()), LaneSRoute(Zone(r["zone"])),
                          r["ztype"] == "stop" ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded, s, Groups(r["groups"]));
  }
  RightOfWayRuleStateProvider::RightOfWayResult RwResult(const json& r) const {
    RightOfWayRuleStateProvider::RightOfWayResult x{RightOfWayRule::State::Id(r["state"].get<St>()), std::nullopt};
    if (!r["next"].empty()) {
      const json n = r["next"][0]["v"];
      x.next = RightOfWayRuleStateProvider::RightOfWayResult::Next{RightOfWayRule::State::Id(n["id"].get<St>()), Num(n["dur"])};
    }
    return x;
  }
  InertialPosition Pos(int k) const { return InertialPosition(k == 1 ? u_ : 0., k == 2 ? u_ : 0., k == 3 ? u_ : 0.); }
  static Rotation Rot(int k) { return Rotation::FromRpy(k == 1 ? .1 : 0., k == 2 ? .1 : 0., k == 3 ? .1 : 0.); }
  Bulb::BoundingBox Bb(int k) const {
    Bulb::BoundingBox b;
    if (k >= 1 && k <= 3) b.p_BMin[k - 1] -= u_;
    if (k >= 4) b.p_BMax[k - 4] += u_;
    return b;
  }
  std::unique_ptr<Bulb> MakeBulb(const json& b) const {
    return std::make_unique<Bulb>(Bulb::Id(b["id"].get<St>()), Pos(b["pos"]), Rot(b["rot"]), FromName<BulbColor>(BulbColorMapper(), b["color"]),
                                  FromName<BulbType>(BulbTypeMapper(), b["type"]), Num(b["arrow"]),
                                  Vec<BulbState>(b["states"], [](const json& s) { return FromName<BulbState>(BulbStateMapper(), s.get<St>()); }), Bb(b["bb"]));
  }
  std::unique_ptr<BulbGroup> MakeGroup(const json& g) const {
    std::vector<std::unique_ptr<Bulb>> v;
    for (const auto& b : List(g["bulbs"])) v.push_back(MakeBulb(b));
    return std::make_unique<BulbGroup>(BulbGroup::Id(g["id"].get<St>()), Pos(g["pos"]), Rot(g["rot"]), std::move(v));
  }
  std::unique_ptr<TrafficLight> MakeLight(const json& t) const {
    std::vector<std::unique_ptr<BulbGroup>> v;
    for (const auto& g : List(t["groups"])) v.push_back(MakeGroup(g));
    return std::make_unique<TrafficLight>(TrafficLight::Id(t["id"].get<St>()), Pos(t["pos"]), Rot(t["rot"]), std::move(v));
  }
  rules::Phase Ph(const json& p) const {
    return rules::Phase(rules::Phase::Id(p["id"].get<St>()), Rs(p["rules"]), DvMap(p["values"]), Bulbs(p["bulbs"]));
  }
  api::LaneEnd End(const json& e) const { return api::LaneEnd(LanePtr(e["lane"]), geo::End(e["end"])); }
  const api::Lane* LanePtr(int k) const { return k == 0 ? nullptr : rg_->junction(k - 1)->segment(0)->lane(0); }

  json Equal(const St& k, const json& a, const json& b) const {
    using api::IsEqual;
    using rules::IsEqual;
    if (k == "bool") return Tell(IsEqual("a", "b", a.get<bool>(), b.get<bool>()));
    if (k == "double") return Tell(IsEqual("a", "b", a.get<double>() * u_, b.get<double>() * u_));
    if (k == "size") return Tell(IsEqual("a", "b", a.get<std::size_t>(), b.get<std::size_t>()));
    if (k == "id") return Tell(IsEqual("a", "b", LaneId(a.get<St>()), LaneId(b.get<St>())));
    if (k == "junction") return Tell(IsEqual("a", "b", J(a), J(b)));
    if (k == "segment") return Tell(IsEqual("a", "b", a == 0 ? nullptr : J(a)->segment(0), b == 0 ? nullptr : J(b)->segment(0)));
    if (k == "lane") return Tell(IsEqual("a", "b", LanePtr(a), LanePtr(b)));
    if (k == "branch") return Tell(IsEqual("a", "b", B(a), B(b)));
    if (k == "inertial") return Tell(IsEqual(Pos(a), Pos(b)));
    if (k == "rotation") return Tell(IsEqual(Rot(a), Rot(b)));
    if (k == "which") return Tell(IsEqual(geo::End(a), geo::End(b)));
    if (k == "srange") return Tell(IsEqual(Sr(a), Sr(b)));
    if (k == "lane-range") return Tell(IsEqual(Lsr(a), Lsr(b)));
    if (k == "lane-ranges") return Tell(IsEqual(Zone(a), Zone(b)));
    if (k == "route") return Tell(IsEqual(LaneSRoute(Zone(a)), LaneSRoute(Zone(b))));
    if (k == "lane-end") return Tell(IsEqual(End(a), End(b)));
    if (k == "lane-end-equal") return Tell(IsLaneEndEqual(End(a), End(b)));
    if (k == "dv") return Tell(IsEqual(Dv(a), Dv(b)));
    if (k == "dvs") return Tell(IsEqual(Dvs(a), Dvs(b)));
    if (k == "dv-map") return Tell(IsEqual(DvMap(a), DvMap(b)));
    auto dvr = [&](const json& r) { return DiscreteValueRule(Rule::Id(r["id"].get<St>()), Rule::TypeId(r["type"].get<St>()), LaneSRoute(Zone(r["zone"])), Dvs(r["values"])); };
    auto rvr = [&](const json& r) { return RangeValueRule(Rule::Id(r["id"].get<St>()), Rule::TypeId(r["type"].get<St>()), LaneSRoute(Zone(r["zone"])), Rvs(r["values"])); };
    if (k == "dv-rule") return Tell(IsEqual(dvr(a), dvr(b)));
    if (k == "rv") return Tell(IsEqual(Rv(a), Rv(b)));
    if (k == "rvs") return Tell(IsEqual(Rvs(a), Rvs(b)));
    if (k == "rv-rule") return Tell(IsEqual(rvr(a), rvr(b)));
    if (k == "rule-states") return Tell(IsEqual(Rs(a), Rs(b)));
    if (k == "phase") return Tell(IsEqual(Ph(a), Ph(b)));
    if (k == "next") return Tell(IsEqual(Next(a), Next(b)));
    auto nexts = [&](const json& x) { return Vec<PhaseRing::NextPhase>(x, [this](const json& n) { return Next(n); }); };
    if (k == "nexts") return Tell(IsEqual(nexts(a), nexts(b)));
    using DS = DirectionUsageRule::State;
    if (k == "du-type") return Tell(IsEqual(FromName<DS::Type>(DirectionUsageRule::StateTypeMapper(), a), FromName<DS::Type>(DirectionUsageRule::StateTypeMapper(), b)));
    if (k == "du-sev") return Tell(IsEqual(a == "strict" ? DS::Severity::kStrict : DS::Severity::kPreferred, b == "strict" ? DS::Severity::kStrict : DS::Severity::kPreferred));
    if (k == "du-state") return Tell(IsEqual(DuState(a["id"], a), DuState(b["id"], b)));
    auto dum = [&](const json& m) { std::unordered_map<DS::Id, DS> r; for (const auto& e : m) r.emplace(DS::Id(e["k"].get<St>()), DuState(e["k"], e["v"])); return r; };
    if (k == "du-map") return Tell(IsEqual(dum(a), dum(b)));
    if (k == "du-rule") return Tell(IsEqual(Du(a), Du(b)));
    using RS = RightOfWayRule::State;
    if (k == "rw-type") return Tell(IsEqual(RwType(a), RwType(b)));
    if (k == "rw-zone") return Tell(IsEqual(a == "stop" ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded,
                                            b == "stop" ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded));
    if (k == "rw-ids") return Tell(IsEqual(Ids<RightOfWayRule::Id>(a), Ids<RightOfWayRule::Id>(b)));
    auto rws = [](const json& s) { return RwState(s["id"], s["v"]); };
    if (k == "rw-state") return Tell(IsEqual(rws(a), rws(b)));
    auto rwm = [&](const json& m) { std::unordered_map<RS::Id, RS> r; for (const auto& e : m) r.emplace(RS::Id(e["k"].get<St>()), RwState(e["k"], e["v"])); return r; };
    if (k == "rw-map") return Tell(IsEqual(rwm(a), rwm(b)));
    if (k == "rw-rule") return Tell(IsEqual(Rw(a), Rw(b)));
    if (k == "rw-result") return Tell(IsEqual(RwResult(a), RwResult(b)));
    auto sev = [](const json& s) { return s == "strict" ? SpeedLimitRule::Severity::kStrict : SpeedLimitRule::Severity::kAdvisory; };
    if (k == "sl-sev") return Tell(IsEqual(sev(a), sev(b)));
    auto sl = [&](const json& r) { return SpeedLimitRule(SpeedLimitRule::Id(r["id"].get<St>()), Lsr(r["zone"]), sev(r["sev"]), r["min"].get<double>() * u_, r["max"].get<double>() * u_); };
    if (k == "sl-rule") return Tell(IsEqual(sl(a), sl(b)));
    if (k == "groups") return Tell(IsEqual(Groups(a), Groups(b)));
    if (k == "color") return Tell(IsEqual(FromName<BulbColor>(BulbColorMapper(), a), FromName<BulbColor>(BulbColorMapper(), b)));
    if (k == "bulb-type") return Tell(IsEqual(FromName<BulbType>(BulbTypeMapper(), a), FromName<BulbType>(BulbTypeMapper(), b)));
    if (k == "bulb-state") return Tell(IsEqual(FromName<BulbState>(BulbStateMapper(), a), FromName<BulbState>(BulbStateMapper(), b)));
    if (k == "bulbs") return Tell(IsEqual(Bulbs(a), Bulbs(b)));
    if (k == "opt-double") return Tell(IsEqual(Num(a), Num(b)));
    if (k == "box") return Tell(IsEqual(Bb(a), Bb(b)));
    if (k == "bulb") return Tell(IsEqual(MakeBulb(a).get(), MakeBulb(b).get()));
    if (k == "bulb-list") {
      std::vector<std::unique_ptr<Bulb>> va, vb;
      std::vector<const Bulb*> pa, pb;
      for (const auto& x : List(a)) va.push_back(MakeBulb(x)), pa.push_back(va.back().get());
      for (const auto& x : List(b)) vb.push_back(MakeBulb(x)), pb.push_back(vb.back().get());
      return Tell(IsEqual("a", "b", pa, pb));
    }
    if (k == "group") return Tell(IsEqual(MakeGroup(a).get(), MakeGroup(b).get()));
    if (k == "light") return Tell(IsEqual(MakeLight(a).get(), MakeLight(b).get()));
    throw std::logic_error("kind " + k);
  }
  const api::Junction* J(int k) const { return k == 0 ? nullptr : rg_->junction(k - 1); }
  const api::BranchPoint* B(int k) const { return k == 0 ? nullptr : rg_->branch_point(k - 1); }
  LanePosition Lp(const json& x, int at) const { return LanePosition(X(x, at), X(x, at + 1), X(x, at + 2)); }
  InertialPosition Ip(const json& x, int at) const { return InertialPosition(X(x, at), X(x, at + 1), X(x, at + 2)); }
  double X(const json& x, int at) const { return x[at].get<double>() * u_; }
  json Close(const St& k, const json& va, const json& vb, double tol) const {
    const json &a = va["x"], &b = vb["x"];
    const double t = tol * u_;
    if (k == "inertial") return Tell(IsInertialPositionClose(Ip(a, 0), Ip(b, 0), t));
    if (k == "lane-position") return Tell(IsLanePositionClose(Lp(a, 0), Lp(b, 0), t));
    if (k == "rotation") {
      auto r = [](const json& x) { return Rotation::FromRpy(x[0].get<double>() * .01, x[1].get<double>() * .01, x[2].get<double>() * .01); };
      return Tell(IsRotationClose(r(a), r(b), (tol + .5) * .01));
    }
    auto rb = [&](const json& x) { return RBounds(-X(x, 0), X(x, 1)); };
    auto hb = [&](const json& x) { return HBounds(-X(x, 0), X(x, 1)); };
    if (k == "r-bounds") return Tell(IsRBoundsClose(rb(a), rb(b), t));
    if (k == "h-bounds") return Tell(IsHBoundsClose(hb(a), hb(b), t));
    if (k == "lane-result") {
      auto r = [&](const json& x) { return LanePositionResult{Lp(x, 0), Ip(x, 3), X(x, 6)}; };
      return Tell(IsLanePositionResultClose(r(a), r(b), t));
    }
    if (k == "road") {
      auto r = [&](const json& v) { const json& x = v["x"]; return RoadPositionResult{RoadPosition(LanePtr(v["lane"]), Lp(x, 0)), Ip(x, 3), X(x, 6)}; };
      return Tell(IsRoadPositionResultClose(r(va), r(vb), t));
    }
    auto pp = [&](const json& v) {
      const json& x = v["x"];
      routing::PhasePositionResult r;
      r.lane_s_range_index = v["index"];
      r.lane_position = Lp(x, 0);
      r.inertial_position = Ip(x, 3);
      r.distance = X(x, 6);
      return r;
    };
    if (k == "phase-position") return Tell(routing::IsPhasePositionResultClose(pp(va), pp(vb), t));
    if (k == "route-position") {
      routing::RoutePositionResult x, y;
      x.phase_index = va["phase"];
      y.phase_index = vb["phase"];
      x.phase_position_result = pp(va);
      y.phase_position_result = pp(vb);
      return Tell(routing::IsRoutePositionResultClose(x, y, t));
    }
    throw std::logic_error("kind " + k);
  }
  template <class V>
  static V Fill(const json& x) {
    V v;
    for (size_t i = 0; i < x.size(); ++i) v[i] = Entry(x[i]);
    return v;
  }
  template <std::size_t N>
  static math::Matrix<N> FillM(const json& x) {
    math::Matrix<N> m;
    for (size_t i = 0; i < N; ++i)
      for (size_t j = 0; j < N; ++j) m[i][j] = Entry(x[i * N + j]);
    return m;
  }
  static double Entry(const json& e) {
    const double inf = std::numeric_limits<double>::infinity();
    return e["c"] == "num" ? e["v"].get<double>() / 4 : e["c"] == "nan" ? std::numeric_limits<double>::quiet_NaN() : e["c"] == "inf" ? inf : -inf;
  }
  static json Array(const json& c, const json& a, const json& b) {
    const auto ty = c["relative"].get<bool>() ? math::CompareType::kRelative : math::CompareType::kAbsolute;
    const double t = c["tol"].get<double>() / 16;
    const bool mx = c["matrix"].get<bool>();
    const int n = c["size"];
    using V2 = math::VectorBase<2, math::Vector2>;
    using V3 = math::VectorBase<3, math::Vector3>;
    using V4 = math::VectorBase<4, math::Vector4>;
    if (!mx) {
      if (n == 2) { const auto x = Fill<math::Vector2>(a), y = Fill<math::Vector2>(b); return Tell(math::CompareVectors(static_cast<const V2&>(x), static_cast<const V2&>(y), t, ty)); }
      if (n == 3) { const auto x = Fill<math::Vector3>(a), y = Fill<math::Vector3>(b); return Tell(math::CompareVectors(static_cast<const V3&>(x), static_cast<const V3&>(y), t, ty)); }
      const auto x = Fill<math::Vector4>(a), y = Fill<math::Vector4>(b);
      return Tell(math::CompareVectors(static_cast<const V4&>(x), static_cast<const V4&>(y), t, ty));
    }
    if (n == 2) return Tell(math::CompareMatrices(FillM<2>(a), FillM<2>(b), t, ty));
    if (n == 3) return Tell(math::CompareMatrices(FillM<3>(a), FillM<3>(b), t, ty));
    return Tell(math::CompareMatrices(FillM<4>(a), FillM<4>(b), t, ty));
  }
  double u_;
  std::unique_ptr<geo::RoadGeometry> rg_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Cmp>(cfg); });
}
