// Conformance driver of spec/RoadGraph.tla: the routing graph and its edge sequences.
#include "drv.h"
#include "geo.h"
#include "maliput/routing/graph/graph.h"
#include "maliput/routing/graph/graph_utils.h"
using namespace maliput;
using namespace maliput::routing::graph;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) {
    // cfg: lanes [id, seg, i], segs [id, jn, i], at [lane, end, bp, side]
    std::map<St, json> segs, jns, bps;
    for (const auto& l : geo::Ord(cfg["lanes"])) {
      json& s = segs[l["seg"]];
      if (s.is_null()) s = {{"id", l["seg"]}, {"lanes", json::array()}};
      s["lanes"].push_back(l);
    }
    json js = json::array(), bs = json::array();
    std::vector<St> order;
    for (const auto& s : geo::Ord(cfg["segs"])) {
      json& j = jns[s["jn"]];
      if (j.is_null()) {
        j = {{"id", s["jn"]}, {"segments", json::array()}};
        order.push_back(s["jn"]);
      }
      j["segments"].push_back(segs.at(s["id"]));
    }
    for (const auto& n : order) js.push_back(jns[n]);
    for (const auto& x : cfg["at"]) {
      json& b = bps[x["bp"]];
      if (b.is_null()) b = {{"id", x["bp"]}, {"a", json::array()}, {"b", json::array()}};
      b[x["side"] == "A" ? "a" : "b"].push_back({{"lane", x["lane"]}, {"end", x["end"]}});
    }
    for (const auto& kv : bps) bs.push_back(kv.second);
    rg_ = geo::Build({{"junctions", js}, {"bps", bs}});
    g_ = BuildGraph(rg_.get());
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "FindNode") {
      const auto n = Node_(c["lane"], c["end"]);
      return n ? json{{"bps", Bps(*n)}, {"edges", Edges(*n)}} : json("none");
    }
    if (op == "FindSeqs") {
      json r = json::array();
      for (const auto& w : FindAllEdgeSequences(g_, *Node_(c["a"], c["ae"]), *Node_(c["b"], c["be"]))) {
        json e = json::array();
        for (const auto& x : w) e.push_back({{"i", (int)e.size() + 1}, {"x", Seg(x)}});
        r.push_back(e);
      }
      return r;
    }
    if (op == "FindStray") {
      const auto n = *Node_(c["a"], c["ae"]);
      const Node stray{NodeId("no such node"), n.branch_points, n.edges};
      FindAllEdgeSequences(g_, c["which"] == "start" ? stray : n, c["which"] == "end" ? stray : n);
      return "ok";
    }
    const auto e = DetermineEdgeEnd(g_, Edge_(c["s"]), Edge_(c["t"]));
    return e ? json(geo::EndName(*e)) : json("none");
  }
  json Obs() override {
    json o{{"nodes", json::array()}, {"edges", json::array()}};
    if (seen_) return o;
    seen_ = true;
    for (const auto& kv : g_.nodes) {
      json n{{"bps", Bps(kv.second)}, {"edges", Edges(kv.second)}};
      if (kv.first != kv.second.id) n["key"] = kv.first.string();
      o["nodes"].push_back(n);
    }
    for (const auto& kv : g_.edges) {
      json e{{"seg", Seg(kv.second)}, {"a", Bps(g_.nodes.at(kv.second.node_a))}, {"b", Bps(g_.nodes.at(kv.second.node_b))}};
      if (kv.first != kv.second.id) e["key"] = kv.first.string();
      o["edges"].push_back(e);
    }
    return o;
  }

 private:
  std::optional<Node> Node_(const json& lane, const json& end) const {
    return FindNode(g_, *rg_->ById().GetLane(api::LaneId(lane.get<St>())), geo::End(end));
  }
  const Edge& Edge_(const json& s) const {
    for (const auto& kv : g_.edges)
      if (kv.second.segment->id().string() == s) return kv.second;
    throw std::out_of_range("no edge");
  }
  static json Bps(const Node& n) {
    json r = json::array();
    for (const auto* b : n.branch_points) r.push_back(b ? b->id().string() : "null");
    return r;
  }
  json Edges(const Node& n) const {
    json r = json::array();
    for (const auto& e : n.edges) r.push_back(Seg(g_.edges.at(e)));
    return r;
  }
  static json Seg(const Edge& e) {
    return e.segment && e.id.string() == e.segment->id().string() ? e.segment->id().string() : "edge " + e.id.string();
  }
  std::unique_ptr<geo::RoadGeometry> rg_;
  Graph g_;
  bool seen_{false};
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
