// Conformance driver of spec/Routes.tla: routing phases and routes.  A unit is u.
#include "drv.h"
#include "net.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& c) : u_(c["u"].get<double>()) { Set(c); }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Set") {
      Set(c);
      return "ok";
    }
    if (op == "Phase") {
      try {
        return Enc(Make(c["index"], c["ph"], c["netw"] ? net_.get() : nullptr));
      } catch (const std::exception&) {
        return {{"index", -1}, {"tol", 0}, {"starts", json::array()}, {"ends", json::array()}, {"ranges", json::array()}};
      }
    }
    if (op == "SetRoute") {
      std::vector<routing::Phase> ps;
      for (const auto& p : c["phases"]) ps.push_back(Make(ps.size(), p, net_.get()));
      std::unique_ptr<routing::Route> r;
      try {
        r = std::make_unique<routing::Route>(ps, c["netw"] ? net_.get() : nullptr);
      } catch (const std::exception&) {
        return {{"size", 0}, {"phases", json::array()}, {"start", json::array()}, {"end", json::array()}};
      }
      route_ = std::move(r);
      json a = json::array();
      for (int k = 0; k < route_->size(); ++k) a.push_back(Enc(route_->Get(k)));
      return {{"size", route_->size()}, {"phases", a}, {"start", json::array({Enc(route_->start_route_position())})}, {"end", json::array({Enc(route_->end_route_position())})}};
    }
    if (op == "Within") return routing::ValidatePositionIsInLaneSRanges(Pos(c["p"]), Ranges(c["ranges"]), c["tol"].get<double>() * u_) ? "yes" : "no";
    if (op == "PhaseAt") return Enc(route_->Get(c["k"].get<int>() - 1), route_->Get(c["k"].get<int>() - 1).FindPhasePosition(Point(c["p"])));
    if (op == "PhaseAtRoad" || op == "RouteAtRoad") {
      try {
        if (op == "RouteAtRoad") return Enc(route_->FindRoutePosition(Pos(c["p"])));
        return Enc(route_->Get(c["k"].get<int>() - 1), route_->Get(c["k"].get<int>() - 1).FindPhasePosition(Pos(c["p"])));
      } catch (const std::exception&) {
        return {{"range", "throws"}};
      }
    }
    if (op == "RouteAt") return Enc(route_->FindRoutePosition(Point(c["p"])));
    if (op == "Relate") {
      const auto m = routing::LaneSRangeRelationMapper();
      return m.at(route_->ComputeLaneSRangeRelation(Range(c["a"]), Range(c["b"]))) + 1;
    }
    if (op == "LaneRoute") {
      json a = json::array();
      try {
        const auto r = route_->ComputeLaneSRoute(Pos(c["p"]));
        for (const auto& g : r.ranges()) a.push_back({{"i", (int)a.size() + 1}, {"g", Enc(g)}});
      } catch (const std::exception&) {
        a = json::array({{{"i", 0}, {"g", {{"lane", "throws"}, {"s0", 0}, {"s1", 0}}}}});
      }
      return a;
    }
    if (op == "Validate") return route_->ValidateEndToEndConnectivity().empty();
    if (op == "Get") {
      try {
        return Enc(route_->GetLaneSRange(c["k"].get<int>() - 1, c["i"].get<int>() - 1));
      } catch (const std::out_of_range&) {
        return {{"lane", "throws"}, {"s0", 0}, {"s1", 0}};
      }
    }
    throw std::logic_error("op");
  }
  json Obs() override { return {{"n", (int)net_->road_geometry()->ById().GetLanes().size()}}; }

 private:
  void Set(const json& c) {
    route_.reset();
    net_.reset();
    net_ = geo::Network(geo::Build(geo::Flat(c, u_)));
  }
  const api::Lane* LaneOf(const json& id) const { return net_->road_geometry()->ById().GetLane(api::LaneId(id.get<St>())); }
  api::InertialPosition Point(const json& p) const { return {p["x"].get<double>() * u_, p["y"].get<double>() * u_, p["z"].get<double>() * u_}; }
  api::RoadPosition Pos(const json& p) const {
    return {p["lane"] == "null" ? nullptr : LaneOf(p["lane"]), {p["s"].get<double>() * u_, p["r"].get<double>() * u_, p["h"].get<double>() * u_}};
  }
  api::LaneSRange Range(const json& g) const { return {api::LaneId(g["lane"].get<St>()), {g["s0"].get<double>() * u_, g["s1"].get<double>() * u_}}; }
  std::vector<api::LaneSRange> Ranges(const json& a) const {
    std::vector<api::LaneSRange> v;
    for (const auto& g : a) v.push_back(Range(g));
    return v;
  }
  std::vector<api::RoadPosition> Poss(const json& a) const {
    std::vector<api::RoadPosition> v;
    for (const auto& p : a) v.push_back(Pos(p));
    return v;
  }
  routing::Phase Make(int index, const json& p, const api::RoadNetwork* net) const {
    return routing::Phase(index, p["tol"].get<double>() * u_, Poss(p["starts"]), Poss(p["ends"]), Ranges(p["ranges"]), net);
  }
  json Num(double x) const {
    const double v = x / u_;
    return std::abs(v - std::round(v)) < 1e-9 ? json(static_cast<long>(std::round(v))) : json(v);
  }
  json Enc(const api::RoadPosition& p) const {
    return {{"lane", p.lane ? p.lane->id().string() : "null"}, {"s", Num(p.pos.s())}, {"r", Num(p.pos.r())}, {"h", Num(p.pos.h())}};
  }
  json Enc(const api::LaneSRange& g) const { return {{"lane", g.lane_id().string()}, {"s0", Num(g.s_range().s0())}, {"s1", Num(g.s_range().s1())}}; }
  json Enc(const routing::Phase& p) const {
    json o{{"index", p.index()}, {"tol", Num(p.lane_s_range_tolerance())}, {"starts", json::array()}, {"ends", json::array()}, {"ranges", json::array()}};
    for (const auto& x : p.start_positions()) o["starts"].push_back({{"i", (int)o["starts"].size() + 1}, {"p", Enc(x)}});
    for (const auto& x : p.end_positions()) o["ends"].push_back({{"i", (int)o["ends"].size() + 1}, {"p", Enc(x)}});
    for (const auto& x : p.lane_s_ranges()) o["ranges"].push_back({{"i", (int)o["ranges"].size() + 1}, {"g", Enc(x)}});
    return o;
  }
  json Enc(const routing::Phase& ph, const routing::PhasePositionResult& r) const {
    const double d = r.distance / u_;
    const auto& ip = r.inertial_position;
    json d2 = std::abs(d * d - std::round(d * d)) < 1e-6 ? json(static_cast<long>(std::round(d * d))) : json(d * d);
    return {{"range", r.lane_s_range_index}, {"lane", ph.lane_s_ranges().at(r.lane_s_range_index).lane_id().string()},
            {"s", Num(r.lane_position.s())}, {"r", Num(r.lane_position.r())}, {"h", Num(r.lane_position.h())},
            {"x", Num(ip.x())}, {"y", Num(ip.y())}, {"z", Num(ip.z())}, {"d2", d2}};
  }
  json Enc(const routing::RoutePositionResult& r) const {
    json o = Enc(route_->Get(r.phase_index), r.phase_position_result);
    o["phase"] = r.phase_index;
    return o;
  }
  double u_;
  std::unique_ptr<api::RoadNetwork> net_;
  std::unique_ptr<routing::Route> route_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
