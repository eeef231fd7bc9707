// Conformance driver of spec/Router.tla: DistanceRouter.  A unit is u.
#include "drv.h"
#include "net.h"
#include "maliput/base/distance_router.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& c) : u_(c["u"].get<double>()) { Set(c); }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Set") {
      Set(c);
      return "ok";
    }
    if (op == "NewRouter") {
      router_ = std::make_unique<DistanceRouter>(*net_, c["tol"].get<double>() * u_);
      return "ok";
    }
    routing::RoutingConstraints k;
    k.allow_lane_switch = c["c"]["switch"];
    if (c["c"]["phase"] != -99) k.max_phase_cost = c["c"]["phase"].get<double>() * u_;
    if (c["c"]["route"] != -99) k.max_route_cost = c["c"]["route"].get<double>() * u_;
    json a = json::array();
    std::vector<routing::Route> rs;
    try {
      rs = static_cast<const routing::Router&>(*router_).ComputeRoutes(Pos(c["a"]), Pos(c["b"]), k);
    } catch (const std::exception&) {
      return {{"how", "throws"}, {"routes", a}};
    }
    for (const auto& r : rs) {
      json q = json::array();
      for (int i = 0; i < r.size(); ++i) q.push_back(Enc(r.Get(i), i));
      a.push_back(q);
    }
    return {{"how", "ok"}, {"routes", a}};
  }
  json Obs() override { return {{"n", (int)net_->road_geometry()->ById().GetLanes().size()}}; }

 private:
  void Set(const json& c) {
    router_.reset();
    net_ = geo::Network(geo::Build(geo::Flat(c, u_)));
    other_ = geo::Build(geo::Flat(c, u_));
    json s = c;
    for (auto& l : s["lanes"]) l["id"] = "other" + l["id"].get<St>();
    for (auto& x : s["at"]) x["lane"] = "other" + x["lane"].get<St>();
    stray_ = geo::Build(geo::Flat(s, u_));
    router_ = std::make_unique<DistanceRouter>(*net_, c["tol"].get<double>() * u_);
  }
  const api::Lane* LaneOf(const St& id) const {
    if (id == "null") return nullptr;
    if (id == "stray") return stray_->junction(0)->segment(0)->lane(0);
    if (id == "twin") return other_->junction(0)->segment(0)->lane(0);
    return net_->road_geometry()->ById().GetLane(api::LaneId(id));
  }
  api::RoadPosition Pos(const json& p) const {
    return {LaneOf(p["lane"]), {p["s"].get<double>() * u_, p["r"].get<double>() * u_, p["h"].get<double>() * u_}};
  }
  json Num(double x) const {
    const double v = x / u_;
    return std::abs(v - std::round(v)) < 1e-9 ? json(static_cast<long>(std::round(v))) : json(v);
  }
  json Enc(const api::RoadPosition& p) const {
    return {{"lane", p.lane ? p.lane->id().string() : "null"}, {"s", Num(p.pos.s())}, {"r", Num(p.pos.r())}, {"h", Num(p.pos.h())}};
  }
  json Enc(const api::LaneSRange& g) const { return {{"lane", g.lane_id().string()}, {"s0", Num(g.s_range().s0())}, {"s1", Num(g.s_range().s1())}}; }
  json Enc(const routing::Phase& p, int i) const {
    json o{{"i", i + 1}, {"tol", Num(p.lane_s_range_tolerance())}, {"starts", json::array()}, {"ends", json::array()}, {"ranges", json::array()}};
    if (p.index() != i) o["index"] = p.index();
    for (const auto& x : p.start_positions()) o["starts"].push_back(Enc(x));
    for (const auto& x : p.end_positions()) o["ends"].push_back(Enc(x));
    for (const auto& x : p.lane_s_ranges()) o["ranges"].push_back({{"i", (int)o["ranges"].size() + 1}, {"g", Enc(x)}});
    return o;
  }
  double u_;
  std::unique_ptr<api::RoadNetwork> net_;
  std::unique_ptr<api::RoadGeometry> other_, stray_;
  std::unique_ptr<DistanceRouter> router_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
