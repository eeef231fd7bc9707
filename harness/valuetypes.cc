// Drives the value types of the API (spec/ValueTypes.tla).
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include "drv.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/regions.h"
#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/right_of_way_rule.h"
#include "maliput/api/rules/speed_limit_rule.h"
#include "maliput/api/unique_id.h"
#include "maliput/common/assertion_error.h"
#include "maliput/common/range_validator.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using drv::json;
using namespace maliput::api;
using namespace maliput::api::rules;
using maliput::math::Vector3;
using St = std::string;

template <class I>
static std::vector<I> Ids(const json& a) {
  std::vector<I> r;
  for (const auto& x : a) r.push_back(I(x.get<St>()));
  return r;
}
template <class V, class F>
static json Told(const V& v, F f) {
  json a = json::array();
  int i = 0;
  for (const auto& x : v) a.push_back({{"i", ++i}, {"v", f(x)}});
  return a;
}
// Names of enumerators, both ways.
template <class T>
static T Enum(const std::vector<std::pair<St, T>>& m, const json& name) {
  for (const auto& x : m)
    if (name == x.first) return x.second;
  std::abort();
}
template <class T>
static json Name(const std::vector<std::pair<St, T>>& m, T v) {
  for (const auto& x : m)
    if (v == x.second) return x.first;
  return "?";
}
static const std::vector<std::pair<St, DirectionUsageRule::State::Type>> kDuType{
    {"WithS", DirectionUsageRule::State::Type::kWithS},           {"AgainstS", DirectionUsageRule::State::Type::kAgainstS},
    {"Bidirectional", DirectionUsageRule::State::Type::kBidirectional}, {"NoUse", DirectionUsageRule::State::Type::kNoUse},
    {"Parking", DirectionUsageRule::State::Type::kParking}};
static const std::vector<std::pair<St, DirectionUsageRule::State::Severity>> kDuSev{
    {"strict", DirectionUsageRule::State::Severity::kStrict}, {"preferred", DirectionUsageRule::State::Severity::kPreferred}};
static const std::vector<std::pair<St, SpeedLimitRule::Severity>> kSlSev{{"strict", SpeedLimitRule::Severity::kStrict},
                                                                       {"advisory", SpeedLimitRule::Severity::kAdvisory}};
static const std::vector<std::pair<St, RightOfWayRule::State::Type>> kRwType{{"Go", RightOfWayRule::State::Type::kGo},
                                                                            {"Stop", RightOfWayRule::State::Type::kStop},
                                                                            {"StopThenGo", RightOfWayRule::State::Type::kStopThenGo}};

static json Whole(double d) { return std::abs(d - std::round(d)) < 1e-6 ? json(static_cast<long>(std::round(d))) : json(d); }

class Values : public drv::Sut {
 public:
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "new") {
      *this = Values{};
      return "ok";
    }
    if (op == "Bound") return c["w"] == "r" ? SetBound(&r_, c) : SetBound(&h_, c);
    if (op == "Place") {
      if (c["w"] == "l") return PlaceLane(c);
      InertialPosition& p = c["w"] == "p" ? p_ : q_;
      const double x = c["x"], y = c["y"], z = c["z"];
      const St how = c["how"];
      if (how == "x") p.set_x(x);
      else if (how == "y") p.set_y(y);
      else if (how == "z") p.set_z(z);
      else if (how == "set") p.set_xyz(Vector3(x, y, z));
      else if (how == "from") p = InertialPosition::FromXyz(Vector3(x, y, z));
      else p = InertialPosition(x, y, z);
      return "ok";
    }
    if (op == "Combine") {
      const St how = c["how"];
      const double n = c["n"];
      const InertialPosition r = how == "plus" ? p_ + q_ : how == "minus" ? p_ - q_ : how == "left" ? n * p_ : p_ * n;
      (c["w"] == "p" ? p_ : q_) = r;
      return "ok";
    }
    if (op == "Identify") return Identify(c["how"], c["s"]);
    if (op == "EndOp") {
      static char lanes[8];  // (stand-ins, of which only the addresses matter)
      const LaneEnd e(c["l"] == 0 ? nullptr : reinterpret_cast<const Lane*>(lanes + c["l"].get<int>()),
                      c["e"] == "start" ? LaneEnd::kStart : LaneEnd::kFinish);
      if (c["how"] == "insert") ends_[e] = {{"l", c["l"]}, {"e", c["e"]}};
      else ends_.erase(e);
      return "ok";
    }
    if (op == "Validator") {
      using V = maliput::common::RangeValidator;
      const double a = c["a"], b = c["b"], t = c["t"].get<double>() / 16, e = c["e"].get<double>() / 16;
      val_ = c["mode"] == "abs" ? V::GetAbsoluteEpsilonValidator(a, b, t, e) : V::GetRelativeEpsilonValidator(a, b, t, e);
      return "ok";
    }
    if (op == "Validate") return {{"n", Whole(16 * (*val_)(c["s"].get<double>() / 16))}};
    return Make(c["k"], c["c"]);
  }
  json Obs() override {
    auto bound = [](const auto& b) { return json{{"min", Whole(b.min())}, {"max", Whole(b.max())}}; };
    auto pos = [](double x, double y, double z) { return json{{"x", Whole(x)}, {"y", Whole(y)}, {"z", Whole(z)}}; };
    json o = {{"bnd", {{"r", bound(r_)}, {"h", bound(h_)}}}};
    const bool agree = l_.srh() == Vector3(l_.s(), l_.r(), l_.h()) && p_.xyz() == Vector3(p_.x(), p_.y(), p_.z());
    o["pos"] = {{"p", pos(p_.x(), p_.y(), p_.z())}, {"q", pos(q_.x(), q_.y(), q_.z())}, {"l", agree ? pos(l_.s(), l_.r(), l_.h()) : json("?")}};
    o["same"] = (p_ == q_) == !(p_ != q_) ? json(p_ == q_) : json("?");
    o["d2"] = p_.Distance(q_) == q_.Distance(p_) ? Whole(std::pow(p_.Distance(q_), 2)) : json("?");
    o["n2"] = Whole(std::pow(p_.length(), 2));
    o["ids"] = ToldIds();
    o["ends"] = json::array();
    for (const auto& x : ends_) o["ends"].push_back(x.second);
    o["du"] = Static(du_);
    o["rw"] = Static(rw_);
    o["rule"] = {{"sl", "none"}, {"du", "none"}, {"rw", "none"}, {"dv", "none"}, {"rv", "none"}};
    json& r = o["rule"];
    if (sl_)
      r["sl"] = {{"id", sl_->id().string()}, {"lane", sl_->zone().lane_id().string()}, {"sev", Name(kSlSev, sl_->severity())}, {"min", Whole(sl_->min())}, {"max", Whole(sl_->max())}};
    if (du_) {
      json s = json::array();
      for (const auto& x : du_->states())
        s.push_back({{"i", 1}, {"v", {{"id", x.first == x.second.id() ? x.second.id().string() : "?"}, {"type", Name(kDuType, x.second.type())}, {"sev", Name(kDuSev, x.second.severity())}}}});
      r["du"] = {{"id", du_->id().string()}, {"lane", du_->zone().lane_id().string()}, {"states", s}};
    }
    if (rw_) {
      json s = json::array(), g = json::array();
      for (const auto& x : rw_->states())
        s.push_back({{"i", 0}, {"v", {{"id", x.first == x.second.id() ? x.second.id().string() : "?"}, {"type", Name(kRwType, x.second.type())}, {"yield", Told(x.second.yield_to(), [](const auto& i) { return i.string(); })}}}});
      for (const auto& x : rw_->related_bulb_groups()) g.push_back({{"light", x.first.string()}, {"bulbs", Told(x.second, [](const auto& i) { return i.string(); })}});
      r["rw"] = {{"id", rw_->id().string()}, {"lane", Lane1(rw_->zone())}, {"stop", rw_->zone_type() == RightOfWayRule::ZoneType::kStopAllowed}, {"states", s}, {"groups", g}};
    }
    if (dv_)
      r["dv"] = Ruled(*dv_, Told(dv_->states(), [](const auto& s) {
        return json{{"value", s.value}, {"sev", s.severity}, {"rules", Related(s.related_rules)}, {"uids", Related(s.related_unique_ids)}};
      }));
    if (rv_)
      r["rv"] = Ruled(*rv_, Told(rv_->states(), [](const auto& s) {
        return json{{"min", Whole(s.min)}, {"max", Whole(s.max)}, {"desc", s.description}, {"sev", s.severity}, {"rules", Related(s.related_rules)}, {"uids", Related(s.related_unique_ids)}};
      }));
    return o;
  }

 private:
  template <class B>
  static json SetBound(B* b, const json& c) {
    if (c["how"] == "make") *b = B(c["a"].get<double>(), c["b"].get<double>());
    else if (c["how"] == "min") b->set_min(c["a"].get<double>());
    else b->set_max(c["b"].get<double>());
    return "ok";
  }
  json PlaceLane(const json& c) {
    const double x = c["x"], y = c["y"], z = c["z"];
    const St how = c["how"];
    if (how == "x") l_.set_s(x);
    else if (how == "y") l_.set_r(y);
    else if (how == "z") l_.set_h(z);
    else if (how == "set") l_.set_srh(Vector3(x, y, z));
    else if (how == "from") l_ = LanePosition::FromSrh(Vector3(x, y, z));
    else l_ = LanePosition(x, y, z);
    return "ok";
  }
  json Identify(const St& how, const St& s) {
    const bool u = [&] { try { UniqueId x(s); return true; } catch (const maliput::common::assertion_error&) { return false; } }();
    const bool l = [&] { try { LaneId x(s); return true; } catch (const maliput::common::assertion_error&) { return false; } }();
    if (u != l) return "?";
    const UniqueId uid(s);
    const LaneId lid(s);
    if (how == "insert") {
      us_.insert(uid);
      uu_.insert(uid);
      ls_.insert(lid);
      lm_[lid] = s;
    } else if (how == "erase") {
      us_.erase(uid);
      uu_.erase(uid);
      ls_.erase(lid);
      lm_.erase(lid);
    } else {
      // Looked up in each container, and compared with every element.
      long n = us_.count(uid);
      for (const auto& x : us_)
        if ((x == uid) != (x.string() == s) || (x != uid) == (x == uid)) return "?";
      for (const auto& x : ls_)
        if ((x == lid) != (x.string() == s) || (x != lid) == (x == lid)) return "?";
      if (n != static_cast<long>(uu_.count(uid)) || n != static_cast<long>(ls_.count(lid)) || n != static_cast<long>(lm_.count(lid))) return "?";
      if (n && lm_.at(lid) != s) return "?";
      return {{"n", n}};
    }
    return "ok";
  }
  json ToldIds() const {
    std::set<St> a, b, c, d;
    for (const auto& x : us_) a.insert(x.string());
    for (const auto& x : uu_) b.insert(x.string());
    for (const auto& x : ls_) c.insert(x.string());
    for (const auto& x : lm_) d.insert(x.first.string());
    if (a != b || a != c || a != d || a.size() != us_.size() || a.size() != uu_.size() || a.size() != ls_.size() || a.size() != lm_.size()) return "?";
    return a;
  }
  static LaneSRange Zone(const json& lane) { return LaneSRange(LaneId(lane.get<St>()), SRange(0., 5.)); }
  static St Lane1(const LaneSRoute& z) { return z.ranges().size() == 1 ? z.ranges()[0].lane_id().string() : "?"; }
  static json Ruled(const Rule& r, json states) {
    return {{"id", r.id().string()}, {"type", r.type_id().string()}, {"lane", Lane1(r.zone())}, {"states", states}};
  }
  template <class M>
  static json Related(const M& m) {
    json a = json::array();
    for (const auto& x : m) a.push_back({{"key", x.first}, {"of", Told(x.second, [](const auto& i) { return i.string(); })}});
    return a;
  }
  template <class I>
  static std::map<St, std::vector<I>> Rel(const json& m) {
    std::map<St, std::vector<I>> r;
    for (const auto& x : m) r[x["key"].get<St>()] = Ids<I>(x["of"]);
    return r;
  }
  template <class R>
  static json Static(const std::optional<R>& r) {
    if (!r) return "none";
    json s = "throws";
    try {
      s = r->static_state().id().string();
    } catch (const maliput::common::assertion_error&) {
    }
    return {{"static", r->is_static()}, {"state", s}};
  }
  json Make(const St& k, const json& c) {
    const St id = c["id"];
    if (k == "sl") {
      sl_ = SpeedLimitRule(SpeedLimitRule::Id(id), Zone(c["lane"]), Enum(kSlSev, c["sev"]), c["min"].get<double>(), c["max"].get<double>());
    } else if (k == "du") {
      using S = DirectionUsageRule::State;
      std::vector<S> s;
      for (const auto& x : c["states"]) s.emplace_back(S::Id(x["id"].get<St>()), Enum(kDuType, x["type"]), Enum(kDuSev, x["sev"]));
      du_ = DirectionUsageRule(DirectionUsageRule::Id(id), Zone(c["lane"]), s);
    } else if (k == "rw") {
      using S = RightOfWayRule::State;
      std::vector<S> s;
      for (const auto& x : c["states"]) s.emplace_back(S::Id(x["id"].get<St>()), Enum(kRwType, x["type"]), Ids<RightOfWayRule::Id>(x["yield"]));
      RightOfWayRule::RelatedBulbGroups g;
      for (const auto& x : c["groups"]) g.emplace(TrafficLight::Id(x["light"].get<St>()), Ids<BulbGroup::Id>(x["bulbs"]));
      rw_ = RightOfWayRule(RightOfWayRule::Id(id), LaneSRoute({Zone(c["lane"])}),
                           c["stop"].get<bool>() ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded, s, g);
    } else if (k == "dv") {
      std::vector<DiscreteValueRule::DiscreteValue> s;
      for (const auto& x : c["states"]) s.emplace_back(x["sev"].get<int>(), Rel<Rule::Id>(x["rules"]), Rel<UniqueId>(x["uids"]), x["value"].get<St>());
      dv_ = DiscreteValueRule(Rule::Id(id), Rule::TypeId(c["type"].get<St>()), LaneSRoute({Zone(c["lane"])}), s);
    } else {
      std::vector<RangeValueRule::Range> s;
      for (const auto& x : c["states"])
        s.emplace_back(x["sev"].get<int>(), Rel<Rule::Id>(x["rules"]), Rel<UniqueId>(x["uids"]), x["desc"].get<St>(), x["min"].get<double>(), x["max"].get<double>());
      rv_ = RangeValueRule(Rule::Id(id), Rule::TypeId(c["type"].get<St>()), LaneSRoute({Zone(c["lane"])}), s);
    }
    return "ok";
  }
  RBounds r_;
  HBounds h_;
  InertialPosition p_, q_;
  LanePosition l_;
  std::set<UniqueId> us_;
  std::unordered_set<UniqueId> uu_;
  std::set<LaneId> ls_;
  std::unordered_map<LaneId, St> lm_;
  std::map<LaneEnd, json, LaneEnd::StrictOrder> ends_;
  std::optional<maliput::common::RangeValidator> val_;
  std::optional<SpeedLimitRule> sl_;
  std::optional<DirectionUsageRule> du_;
  std::optional<RightOfWayRule> rw_;
  std::optional<DiscreteValueRule> dv_;
  std::optional<RangeValueRule> rv_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json&) { return std::make_unique<Values>(); });
}
