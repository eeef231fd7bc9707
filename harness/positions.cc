// Conformance driver of spec/Positions.tla: road position queries with both strategies.  A unit is u.
#include <limits>

#include "drv.h"
#include "geo.h"
#include "maliput/geometry_base/brute_force_find_road_positions_strategy.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/filter_positions.h"
#include "maliput/geometry_base/kd_tree_strategy.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Pos : public drv::Sut {
 public:
  explicit Pos(const json& c) : u_(c["u"].get<double>()), step_(c["step"].get<double>()), lin_(c["lin"].get<double>()) { Set(c); }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Set") {
      Set(c);
      return "ok";
    }
    if (op == "ToInertial") {
      const auto p = LaneOf(c["lane"])->ToInertialPosition({c["s"].get<double>() * u_, c["r"].get<double>() * u_, c["h"].get<double>() * u_});
      return {{"x", Num(p.x())}, {"y", Num(p.y())}, {"z", Num(p.z())}};
    }
    const api::InertialPosition p(c["p"]["x"].get<double>() * u_, c["p"]["y"].get<double>() * u_, c["p"]["z"].get<double>() * u_);
    if (op == "ToRoad" || op == "ToRoadHint") {
      std::optional<api::RoadPosition> hint;
      if (op == "ToRoadHint") hint = api::RoadPosition(c["hint"] == "null" ? nullptr : LaneOf(c["hint"]), api::LanePosition(0, 0, 0));
      json r;
      for (auto& k : rgs_) r[k.first] = One([&] { return k.second ? k.second->ToRoadPosition(p, hint) : throw std::logic_error("x"); });
      return r;
    }
    if (op == "Find") {
      const int ri = c["radius"];
      const double rad = ri == -1 ? std::numeric_limits<double>::infinity() : ri < -1 ? -u_ : ri * u_;
      json r;
      auto many = [&](auto f) {
        json a = json::array();
        try {
          for (const auto& x : f()) a.push_back(Res(x));
        } catch (const std::exception&) {
          a = json::array({{{"lane", "throws"}}});
        }
        return a;
      };
      for (auto& k : rgs_) r[k.first] = many([&] {
        if (k.second) return k.second->FindRoadPositions(p, rad);
        if (rad < 0) throw std::logic_error("x");
        return std::vector<api::RoadPositionResult>{};
      });
      r["fn"] = many([&] { return geometry_base::BruteForceFindRoadPositionsStrategy(rgs_["brute"].get(), p, rad); });
      return r;
    }
    if (op == "Filter") {
      const auto all = rgs_["brute"]->FindRoadPositions(p, std::numeric_limits<double>::infinity());
      const double dmax = std::sqrt(c["d2"].get<double>()) * u_;
      const auto kept = geometry_base::FilterRoadPositionResults(all, [&](const api::RoadPositionResult& r) {
        if (r.distance > dmax) return false;
        for (const auto& k : c["keep"])
          if (k == r.road_position.lane->id().string()) return true;
        return false;
      });
      json a = json::array();
      size_t at = 0;
      bool ordered = true;
      for (const auto& k : kept) {
        a.push_back(Res(k));
        while (at < all.size() && all[at].road_position.lane != k.road_position.lane) ++at;
        ordered = ordered && at < all.size();
      }
      return {{"kept", a}, {"ordered", ordered}};
    }
    if (op == "Lane") {
      const auto* l = LaneOf(c["lane"]);
      return {{"lane", Res({{l, l->ToLanePosition(p).lane_position}, l->ToLanePosition(p).nearest_position, l->ToLanePosition(p).distance})},
              {"segment", Res({{l, l->ToSegmentPosition(p).lane_position}, l->ToSegmentPosition(p).nearest_position, l->ToSegmentPosition(p).distance})}};
    }
    throw std::logic_error("op");
  }
  json Obs() override { return {{"n", n_}}; }

 private:
  void Set(const json& c) {
    // Lanes by segment in the order they are given; segments spread over junctions.
    std::vector<St> order;
    std::map<St, json> segs;
    n_ = 0;
    for (json l : c["lanes"]) {
      ++n_;
      l["yaw"] = l["q"];
      for (const char* k : {"x", "y", "z", "len", "rmin", "rmax", "smin", "smax", "hmin", "hmax"}) l[k] = l[k].get<double>() * u_;
      const St s = l["seg"];
      if (!segs.count(s)) order.push_back(s), segs[s] = json::array();
      l["i"] = segs[s].size();
      segs[s].push_back(l);
    }
    json js = json::array();
    for (size_t k = 0; k < order.size(); ++k) {
      const json sj{{"id", order[k]}, {"i", k}, {"lanes", segs[order[k]]}};
      if (k % 2 == 0) js.push_back({{"id", "j" + std::to_string(k)}, {"i", k}, {"segments", json::array({sj})}});
      else js.back()["segments"].push_back(sj);
    }
    const json& f = c["frame"];
    const json g{{"lin", lin_ * u_}, {"junctions", js}, {"frame", {f["x"].get<double>() * u_, f["y"].get<double>() * u_, f["z"].get<double>() * u_}}};
    rgs_.clear();
    rgs_["brute"] = geo::Build(g);
    rgs_["brute"]->InitializeStrategy<geometry_base::BruteForceStrategy>();
    rgs_["tree"] = geo::Build(g);
    try {
      rgs_["tree"]->InitializeStrategy<geometry_base::KDTreeStrategy>(step_ * u_);
    } catch (const std::exception&) {
      rgs_["tree"].reset();  // a tree of no lanes need not exist
      if (n_ > 0) throw;
    }
  }
  template <class F>
  json One(F f) {
    try {
      return Res(f());
    } catch (const std::exception&) {
      return {{"lane", "throws"}};
    }
  }
  const api::Lane* LaneOf(const json& id) { return rgs_["brute"]->ById().GetLane(api::LaneId(id.get<St>())); }
  json Num(double d, double u = 0) const {
    d /= u > 0 ? u : u_;
    return std::abs(d - std::round(d)) < 1e-6 ? json(std::lround(d)) : json(d);
  }
  json Res(const api::RoadPositionResult& r) const {
    const auto& q = r.road_position.pos;
    const auto& n = r.nearest_position;
    return {{"lane", r.road_position.lane->id().string()}, {"s", Num(q.s())}, {"r", Num(q.r())}, {"h", Num(q.h())},
            {"x", Num(n.x())}, {"y", Num(n.y())}, {"z", Num(n.z())}, {"d2", Num(r.distance * r.distance, u_ * u_)}};
  }
  double u_, step_, lin_;
  int n_{0};
  std::map<St, std::unique_ptr<geo::RoadGeometry>> rgs_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Pos>(cfg); });
}
