// Conformance driver of spec/Waypoints.tla: sampling of lane routes; what lanes and networks contain.  A unit is u.
#include "drv.h"
#include "net.h"
#include "maliput/api/regions.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& c) : u_(c["u"].get<double>()) { Set(c); }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Set") {
      Set(c);
      return "ok";
    }
    if (op == "Sample") {
      std::vector<api::LaneSRange> rs;
      for (const auto& g : c["route"])
        rs.emplace_back(api::LaneId(g["lane"].get<St>()), api::SRange(g["s0"].get<double>() * u_, g["s1"].get<double>() * u_));
      json a = json::array();
      try {
        for (const auto& p : net_->road_geometry()->SampleAheadWaypoints(api::LaneSRoute(rs), c["rate"].get<double>() * u_))
          a.push_back({{"i", (int)a.size() + 1}, {"p", {{"x", Num(p.x())}, {"y", Num(p.y())}, {"z", Num(p.z())}}}});
      } catch (const std::exception&) {
        a = json::array({"throws"});
      }
      return a;
    }
    if (op == "Holds") {
      const auto* l = net_->road_geometry()->ById().GetLane(api::LaneId(c["lane"].get<St>()));
      const api::LanePosition p(c["s"].get<double>() * u_, c["r"].get<double>() * u_, c["h"].get<double>() * u_);
      return {{"lane", l->Contains(p) ? "yes" : "no"}, {"network", net_->Contains(api::RoadPosition(l, p)) ? "yes" : "no"}};
    }
    if (op == "HasLane") return net_->Contains(api::LaneId(c["lane"].get<St>())) ? "yes" : "no";
    if (op == "Network") {
      auto in = [&](const char* k) {
        for (const auto& g : c["gone"])
          if (g == k) return false;
        return true;
      };
      geo::Books b;
      auto rg = geo::Build(geo::Flat(c_, u_));
      auto ix = std::make_unique<IntersectionBook>(rg.get());
      auto dv = std::make_unique<ManualDiscreteValueRuleStateProvider>(b.rules.get());
      auto rv = std::make_unique<ManualRangeValueRuleStateProvider>(b.rules.get());
      auto rw = std::make_unique<ManualRightOfWayRuleStateProvider>();
      std::vector<const void*> want;
      // What is gone is taken out of the network only: the other parts still refer to it.
      std::vector<std::shared_ptr<void>> keep;
      auto give = [&](auto& p, const char* k) {
        if (!in(k)) keep.emplace_back(std::shared_ptr<std::remove_reference_t<decltype(*p)>>(std::move(p)));
        want.push_back(p.get());
      };
      give(rg, "geometry"), give(b.rules, "rulebook"), give(b.lights, "lights"), give(ix, "intersections"), give(b.rings, "rings");
      give(b.phases, "phases"), give(b.registry, "registry"), give(dv, "discrete"), give(rv, "range");
      const bool old = c["old"];
      if (old) give(rw, "rightofway");
      auto n = old ? std::make_unique<api::RoadNetwork>(std::move(rg), std::move(b.rules), std::move(b.lights), std::move(ix), std::move(b.rings),
                                                        std::move(rw), std::move(b.phases), std::move(b.registry), std::move(dv), std::move(rv))
                   : std::make_unique<api::RoadNetwork>(std::move(rg), std::move(b.rules), std::move(b.lights), std::move(ix), std::move(b.rings),
                                                        std::move(b.phases), std::move(b.registry), std::move(dv), std::move(rv));
      std::vector<const void*> got{dynamic_cast<const geo::RoadGeometry*>(n->road_geometry()),
                                   dynamic_cast<const ManualRulebook*>(n->rulebook()),
                                   dynamic_cast<const TrafficLightBook*>(n->traffic_light_book()),
                                   dynamic_cast<IntersectionBook*>(n->intersection_book()),
                                   dynamic_cast<const ManualPhaseRingBook*>(n->phase_ring_book()),
                                   dynamic_cast<ManualPhaseProvider*>(n->phase_provider()),
                                   n->rule_registry(),
                                   dynamic_cast<ManualDiscreteValueRuleStateProvider*>(n->discrete_value_rule_state_provider()),
                                   dynamic_cast<ManualRangeValueRuleStateProvider*>(n->range_value_rule_state_provider())};
      if (old) got.push_back(dynamic_cast<ManualRightOfWayRuleStateProvider*>(n->right_of_way_rule_state_provider()));
      return got == want ? "all" : "other parts";
    }
    throw std::logic_error("op");
  }
  json Obs() override { return {{"n", n_}}; }

 private:
  void Set(const json& c) {
    n_ = 0;
    c_ = c;
    c_["at"] = json::array();
    for (auto& l : c_["lanes"]) l["o"] = n_++;
    net_ = geo::Network(geo::Build(geo::Flat(c_, u_)));
  }
  json Num(double d) const {
    d /= u_;
    return std::abs(d - std::round(d)) < 1e-6 ? json(std::lround(d)) : json(d);
  }
  double u_;
  int n_{0};
  json c_;
  std::unique_ptr<api::RoadNetwork> net_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
