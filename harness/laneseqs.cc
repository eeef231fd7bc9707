// Conformance driver of spec/LaneSeqs.tla: lane sequences and the lane routes derived from them.
#include "drv.h"
#include "geo.h"
#include "maliput/routing/derive_lane_s_routes.h"
#include "maliput/routing/find_lane_sequences.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) {
    json junctions = json::array();
    std::map<St, json> bps;
    for (const auto& l : cfg["lanes"])
      junctions.push_back({{"id", "j" + l["id"].get<St>()}, {"segments", json::array({{{"id", "s" + l["id"].get<St>()}, {"lanes", json::array({l})}}})}});
    for (const auto& x : cfg["at"]) {
      json& b = bps[x["bp"]];
      if (b.is_null()) b = {{"id", x["bp"]}, {"a", json::array()}, {"b", json::array()}};
      b[x["side"] == "A" ? "a" : "b"].push_back({{"lane", x["lane"]}, {"end", x["end"]}});
    }
    json bs = json::array();
    for (const auto& kv : bps) bs.push_back(kv.second);
    rg_ = geo::Build({{"junctions", junctions}, {"bps", bs}});
  }
  json Do(const json& c) override {
    const api::Lane* a = L(c["a"]);
    const api::Lane* b = L(c["b"]);
    json r = json::array();
    if (c["op"] == "Find") {
      const auto nou = c["nou"].get<bool>();
      for (const auto& q : routing::FindLaneSequences(a, b, c["max"], nou)) r.push_back(Enc(q));
      if (!nou) {  // the overload without the option
        json r2 = json::array();
        for (const auto& q : routing::FindLaneSequences(a, b, c["max"].get<double>())) r2.push_back(Enc(q));
        if (r2 != r) return {{"overloads", r}, {"differ", r2}};
      }
    } else if (c["op"] == "Edge") {
      const auto s = routing::DetermineEdgeS(*a, *b);
      return s ? json(*s) : json("none");
    } else {
      for (const auto& q : routing::DeriveLaneSRoutes({a, {c["s"].get<double>(), 0, 0}}, {b, {c["t"].get<double>(), 0.5, 1}}, c["max"])) {
        json e = json::array();
        for (const auto& x : q.ranges())
          e.push_back({{"i", (int)e.size() + 1}, {"lane", x.lane_id().string()}, {"s0", x.s_range().s0()}, {"s1", x.s_range().s1()}});
        r.push_back(e);
      }
    }
    return r;
  }
  json Obs() override { return 0; }

 private:
  static json Enc(const std::vector<const api::Lane*>& q) {
    json e = json::array();
    for (const auto* l : q) e.push_back({{"i", (int)e.size() + 1}, {"x", l->id().string()}});
    return e;
  }
  const api::Lane* L(const json& n) const { return n == "null" ? nullptr : rg_->ById().GetLane(api::LaneId(n.get<St>())); }
  std::unique_ptr<geo::RoadGeometry> rg_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
