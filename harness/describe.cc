// Conformance driver of spec/Describe.tla: descriptions of networks, graphs and values.
#include "drv.h"
#include "net.h"
#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/traffic_lights.h"
#include "maliput/common/logger.h"
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/vector.h"
#include "maliput/routing/graph/graph.h"
#include "maliput/routing/lane_s_range_relation.h"
#include "maliput/routing/route.h"
#include "maliput/utility/generate_dot.h"
#include "maliput/utility/generate_string.h"
#include "maliput/utility/string_format.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace maliput;
using drv::json;
using St = std::string;

template <class T>
St Text(const T& t) {
  std::ostringstream os;
  os << t;
  return os.str();
}

class Describe : public drv::Sut {
 public:
  explicit Describe(const json& c) {
    json js = json::array();
    for (const auto& j : c["net"]) {
      json segments = json::array();
      for (const auto& s : j["segments"]) {
        json lanes = json::array();
        for (auto l : s["lanes"]) {
          l["yaw"] = l["q"];
          lanes.push_back(l);
        }
        segments.push_back({{"id", s["id"]}, {"lanes", lanes}});
      }
      js.push_back({{"id", j["id"]}, {"segments", segments}});
    }
    net_ = geo::Network(geo::Build({{"junctions", js}}));
  }
  json Obs() override { return {{"n", 0}}; }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Network") {
      const json& o = c["o"];
      utility::GenerateStringOptions opts;
      opts.include_type_labels = o["labels"];
      opts.include_road_geometry_id = o["geometry"];
      opts.include_junction_ids = o["junctions"];
      opts.include_segment_ids = o["segments"];
      opts.include_lane_ids = o["lanes"];
      opts.include_lane_details = o["details"];
      return utility::GenerateString(*net_->road_geometry(), opts);
    }
    if (op == "Dot") return Dot(c);
    if (op == "Fixed") return utility::to_str(std::ldexp(c["n"].get<double>(), -c["k"].get<int>()), c["p"].get<int>());
    if (op == "Say") return Say(c["kind"], c["v"]);
    if (op == "Matrix") {
      const int n = c["n"];
      return n == 2 ? Matrix<2>(c["v"]) : n == 3 ? Matrix<3>(c["v"]) : Matrix<4>(c["v"]);
    }
    if (op == "Names") return Names(c["type"]);
    throw std::runtime_error("driver: unknown op " + op);
  }

 private:
  json Dot(const json& c) const {
    std::map<St, const api::Segment*> segments;
    const auto* rg = net_->road_geometry();
    for (int j = 0; j < rg->num_junctions(); ++j)
      for (int s = 0; s < rg->junction(j)->num_segments(); ++s) segments[rg->junction(j)->segment(s)->id().string()] = rg->junction(j)->segment(s);
    routing::graph::Graph g;
    for (const auto& e : c["edges"]) {
      routing::graph::Edge edge{routing::graph::EdgeId(e["id"].get<St>()), segments.at(e["seg"]), routing::graph::NodeId(e["a"].get<St>()), routing::graph::NodeId(e["b"].get<St>())};
      g.edges.emplace(edge.id, edge);
      for (const auto& n : {edge.node_a, edge.node_b}) {
        g.nodes.emplace(n, routing::graph::Node{n, {}, {}}).first->second.edges.insert(edge.id);
      }
    }
    std::ostringstream os;
    if (c["route"].empty()) {
      utility::GenerateDotStream(g, &os);
    } else {
      std::vector<routing::Phase> ps;
      for (const auto& name : c["route"]) {
        const auto* s = segments.at(name);
        std::vector<api::LaneSRange> ranges;
        std::vector<api::RoadPosition> starts, ends;
        for (int i = 0; i < s->num_lanes(); ++i) {
          const auto* l = s->lane(i);
          ranges.push_back(api::LaneSRange(l->id(), {0, l->length()}));
          starts.push_back({l, {0, 0, 0}});
          ends.push_back({l, {l->length(), 0, 0}});
        }
        ps.push_back(routing::Phase(static_cast<int>(ps.size()), 1e-3, starts, ends, ranges, net_.get()));
      }
      utility::GenerateDotStream(g, routing::Route(ps, net_.get()), &os);
    }
    return Parse(os.str());
  }
  // The statements of a graph, whatever the space between its words.
  static json Parse(const St& t) {
    std::vector<St> w;
    for (size_t i = 0; i < t.size();) {
      const char ch = t[i];
      if (isspace(static_cast<unsigned char>(ch))) { ++i; continue; }
      if (ch == '"') {
        const size_t e = t.find('"', i + 1);
        if (e == St::npos) return t;
        w.push_back(t.substr(i, e - i + 1));
        i = e + 1;
      } else if (strchr("{}[]=;,", ch)) {
        w.push_back(St(1, ch));
        ++i;
      } else {
        size_t e = i;
        while (e < t.size() && !isspace(static_cast<unsigned char>(t[e])) && !strchr("{}[]=;,\"", t[e])) ++e;
        w.push_back(t.substr(i, e - i));
        i = e;
      }
    }
    if (w.size() < 3 || w[1] != "{" || w.back() != "}") return t;
    json edges = json::array();
    for (size_t i = 2; i + 1 < w.size();) {
      if (i + 4 >= w.size() || w[i + 1] != "--" || w[i + 3] != "[") return t;
      json e{{"a", w[i]}, {"b", w[i + 2]}, {"label", "none"}, {"red", "no"}};
      for (i += 4; i < w.size() && w[i] != "]";) {
        if (w[i] == ",") { ++i; continue; }
        if (i + 2 >= w.size() || w[i + 1] != "=" || w[i + 2].size() < 2 || w[i + 2][0] != '"') return t;
        const St v = w[i + 2].substr(1, w[i + 2].size() - 2);
        if (w[i] == "label") e["label"] = v;
        else if (w[i] == "color") e["red"] = v == "red" ? "yes" : v;
        else return t;
        i += 3;
      }
      if (i + 1 >= w.size() || w[i + 1] != ";") return t;
      i += 2;
      edges.push_back(e);
    }
    return {{"graph", w[0]}, {"edges", edges}};
  }
  static double D(const json& v) { return std::stod(v.get<St>()); }
  static json Say(const St& k, const json& v) {
    if (k == "inertial") return Text(api::InertialPosition(D(v[0]), D(v[1]), D(v[2])));
    if (k == "lane") return Text(api::LanePosition(D(v[0]), D(v[1]), D(v[2])));
    if (k == "rotation") return Rounded(Text(api::Rotation::FromRpy(D(v[0]), D(v[1]), D(v[2]))));
    if (k == "quaternion") return Text(math::Quaternion(D(v[0]), D(v[1]), D(v[2]), D(v[3])));
    if (k == "id") return Text(api::LaneId(v[0].get<St>()));
    const size_t n = v.size();
    return n == 2 ? Vector(math::Vector2(D(v[0]), D(v[1]))) : n == 3 ? Vector(math::Vector3(D(v[0]), D(v[1]), D(v[2]))) : Vector(math::Vector4(D(v[0]), D(v[1]), D(v[2]), D(v[3])));
  }
  // A text with its numbers rounded: angles come out of a computation.
  static St Rounded(const St& t) {
    St r;
    for (size_t i = 0; i < t.size();) {
      if (isdigit(static_cast<unsigned char>(t[i])) || (t[i] == '-' && i + 1 < t.size() && isdigit(static_cast<unsigned char>(t[i + 1])))) {
        size_t n = 0;
        const double x = std::round(std::stod(t.substr(i), &n) * 1e5) / 1e5;
        r += Text(x == 0 ? 0. : x);
        i += n;
      } else {
        r += t[i++];
      }
    }
    return r;
  }
  template <class V>
  static json Vector(const V& v) {
    const St s = Text(v);
    return v.to_str() == s ? json(s) : json({{"to_str", v.to_str()}, {"streamed", s}});
  }
  template <std::size_t N>
  static json Matrix(const json& v) {
    math::Matrix<N> m;
    for (std::size_t r = 0; r < N; ++r)
      for (std::size_t c = 0; c < N; ++c) m[r][c] = D(v[r * N + c]);
    return Vector(m);
  }
  static json Names(const St& t) {
    json r = json::array();
    const auto add = [&r](const char* is, const St& name) { r.push_back({{"is", is}, {"name", name}}); };
    if (t == "end") {
      add("kStart", Text(api::LaneEnd::kStart));
      add("kFinish", Text(api::LaneEnd::kFinish));
    }
#define REL(x) add(#x, Text(routing::LaneSRangeRelation::x));
    if (t == "relation") {
      REL(kAdjacentLeft) REL(kAdjacentRight) REL(kLeft) REL(kRight) REL(kSucceedingStraight) REL(kSucceedingLeft) REL(kSucceedingRight)
      REL(kPrecedingStraight) REL(kPrecedingLeft) REL(kPrecedingRight) REL(kCoincident) REL(kUnrelated) REL(kUnknown)
    }
#define MAPPED(m, e, x) add(#x, m.at(e::x));
    if (t == "color") {
      const auto m = api::rules::BulbColorMapper();
      MAPPED(m, api::rules::BulbColor, kRed) MAPPED(m, api::rules::BulbColor, kYellow) MAPPED(m, api::rules::BulbColor, kGreen)
    }
    if (t == "bulb") {
      const auto m = api::rules::BulbTypeMapper();
      MAPPED(m, api::rules::BulbType, kRound) MAPPED(m, api::rules::BulbType, kArrow)
    }
    if (t == "state") {
      const auto m = api::rules::BulbStateMapper();
      MAPPED(m, api::rules::BulbState, kOff) MAPPED(m, api::rules::BulbState, kOn) MAPPED(m, api::rules::BulbState, kBlinking)
    }
    if (t == "usage") {
      using T = api::rules::DirectionUsageRule::State::Type;
      const auto m = api::rules::DirectionUsageRule::StateTypeMapper();
      MAPPED(m, T, kWithS) MAPPED(m, T, kAgainstS) MAPPED(m, T, kBidirectional) MAPPED(m, T, kBidirectionalTurnOnly) MAPPED(m, T, kNoUse) MAPPED(m, T, kParking)
    }
#define LEVEL(x) add(#x, common::logger::kLevelToString.at(common::logger::kStringToLevel.at(common::logger::kLevelToString.at(common::logger::x))));
    if (t == "level") {
      LEVEL(trace) LEVEL(debug) LEVEL(info) LEVEL(warn) LEVEL(error) LEVEL(critical) LEVEL(off) LEVEL(unchanged)
    }
    return r;
  }
  std::unique_ptr<api::RoadNetwork> net_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Describe>(cfg); });
}
