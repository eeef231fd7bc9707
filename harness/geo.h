// A planar test road geometry on top of maliput::geometry_base: every lane is a straight line along one of the four
// axes, so that every position query has an exact answer.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>
#include <map>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"

namespace geo {
using json = nlohmann::json;
using namespace maliput;

struct LaneSpec {
  std::string id;
  double x{0}, y{0}, z{0};
  double yaw{0};           // 0, 1, 2, 3 quarter turns; fractions are radians/(pi/2)
  double len{10};
  double rmin{-1}, rmax{1};    // lane bounds
  double smin{-1}, smax{1};    // segment bounds
  double hmin{0}, hmax{5};
  double wide{0}, tall{0};     // the second half's segment bounds are wider, the right side's elevation bounds higher
  double gl{0}, gr{0};         // towards the finish the left and right bounds grow by this much
};

class Lane : public geometry_base::Lane {
 public:
  explicit Lane(const LaneSpec& sp) : geometry_base::Lane(api::LaneId(sp.id)), p(sp) {
    const int q = static_cast<int>(std::lround(p.yaw)) & 3;
    if (std::abs(p.yaw - std::lround(p.yaw)) < 1e-12) {
      c = (q == 0) - (q == 2);
      s = (q == 1) - (q == 3);
    } else {
      c = std::cos(p.yaw * M_PI / 2);
      s = std::sin(p.yaw * M_PI / 2);
    }
  }
  LaneSpec p;

 private:
  double c, s;
  double do_length() const override { return p.len; }
  double Grown(double s_, double g) const { return g == 0 ? 0 : g * std::clamp(s_ / p.len, 0., 1.); }
  api::RBounds do_lane_bounds(double s_) const override { return {p.rmin - Grown(s_, p.gr), p.rmax + Grown(s_, p.gl)}; }
  api::RBounds do_segment_bounds(double s_) const override {
    const double w = 2 * s_ > p.len ? p.wide : 0;
    return {p.smin - w - Grown(s_, p.gr), p.smax + w + Grown(s_, p.gl)};
  }
  api::HBounds do_elevation_bounds(double, double r) const override { return {p.hmin, p.hmax + (r < 0 ? p.tall : 0)}; }
  math::Vector3 DoToBackendPosition(const api::LanePosition& q) const override {
    return {p.x + c * q.s() - s * q.r(), p.y + s * q.s() + c * q.r(), p.z + q.h()};
  }
  void Query(const math::Vector3& b, double r0, double r1, api::LanePosition* lp, math::Vector3* near, double* d) const {
    const double dx = b.x() - p.x, dy = b.y() - p.y;
    const double ss = std::clamp(c * dx + s * dy, 0., p.len);
    const double rr = std::clamp(-s * dx + c * dy, r0, r1);
    const double hh = std::clamp(b.z() - p.z, p.hmin, p.hmax);
    *lp = api::LanePosition(ss, rr, hh);
    *near = DoToBackendPosition(*lp);
    *d = (b - *near).norm();
  }
  void DoToLanePositionBackend(const math::Vector3& b, api::LanePosition* lp, math::Vector3* near, double* d) const override {
    Query(b, p.rmin, p.rmax, lp, near, d);
  }
  void DoToSegmentPositionBackend(const math::Vector3& b, api::LanePosition* lp, math::Vector3* near,
                                  double* d) const override {
    Query(b, p.smin, p.smax, lp, near, d);
  }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override {
    double y = std::atan2(s, c);
    return api::Rotation::FromRpy(0, 0, y);
  }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity& v) const override {
    return api::LanePosition(v.sigma_v, v.rho_v, v.eta_v);
  }
};
class Segment : public geometry_base::Segment {
 public:
  using geometry_base::Segment::Segment;
};
class Junction : public geometry_base::Junction {
 public:
  using geometry_base::Junction::Junction;
};
class BranchPoint : public geometry_base::BranchPoint {
 public:
  using geometry_base::BranchPoint::BranchPoint;
};
class RoadGeometry : public geometry_base::RoadGeometry {
 public:
  using geometry_base::RoadGeometry::RoadGeometry;
};

inline LaneSpec ReadLane(const json& j) {
  LaneSpec l;
  l.id = j.at("id").get<std::string>();
  l.x = j.value("x", 0.);
  l.y = j.value("y", 0.);
  l.z = j.value("z", 0.);
  l.yaw = j.value("yaw", 0.);
  l.len = j.value("len", 10.);
  const double w = j.value("w", 1.);
  l.rmin = j.value("rmin", -w);
  l.rmax = j.value("rmax", w);
  l.smin = j.value("smin", l.rmin);
  l.smax = j.value("smax", l.rmax);
  l.hmin = j.value("hmin", 0.);
  l.hmax = j.value("hmax", 5.);
  l.wide = j.value("wide", 0.);
  l.tall = j.value("tall", 0.);
  l.gl = j.value("gl", 0.);
  l.gr = j.value("gr", 0.);
  return l;
}
inline api::LaneEnd::Which End(const json& e) {
  return e.get<std::string>() == "start" ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
}
inline const char* EndName(api::LaneEnd::Which w) { return w == api::LaneEnd::kStart ? "start" : "finish"; }

// {"lin":..,"ang":..,"junctions":[{"id","segments":[{"id","lanes":[...]}]}],
//  "bps":[{"id","a":[{"lane","end"}],"b":[...],"def":[{"lane","end","to","toend"}]}]}
// Arrays of records carrying "i" are taken in that order.
inline std::vector<json> Ord(const json& a) {
  std::vector<json> v(a.begin(), a.end());
  if (!v.empty() && v[0].is_object() && v[0].contains("i"))
    std::sort(v.begin(), v.end(), [](const json& x, const json& y) { return x["i"] < y["i"]; });
  return v;
}
inline std::unique_ptr<RoadGeometry> Build(const json& g) {
  auto t = g.contains("frame") ? math::Vector3(g["frame"][0].get<double>(), g["frame"][1].get<double>(), g["frame"][2].get<double>())
                               : math::Vector3(0, 0, 0);
  auto rg = std::make_unique<RoadGeometry>(api::RoadGeometryId("rg"), g.value("lin", 0.01), g.value("ang", 0.01),
                                           g.value("scale", 1.), t);
  std::map<std::string, geometry_base::Lane*> lanes;
  for (const auto& j : Ord(g.at("junctions"))) {
    auto* jn = rg->AddJunction(std::make_unique<Junction>(api::JunctionId(j.at("id").get<std::string>())));
    for (const auto& s : Ord(j.at("segments"))) {
      auto* sg = jn->AddSegment(std::make_unique<Segment>(api::SegmentId(s.at("id").get<std::string>())));
      for (const auto& l : Ord(s.at("lanes"))) {
        auto* ln = sg->AddLane(std::make_unique<Lane>(ReadLane(l)));
        lanes[l.at("id").get<std::string>()] = ln;
      }
    }
  }
  if (g.contains("bps"))
    for (const auto& b : Ord(g.at("bps"))) {
      auto* bp = rg->AddBranchPoint(std::make_unique<BranchPoint>(api::BranchPointId(b.at("id").get<std::string>())));
      for (const auto& e : Ord(b.at("a"))) bp->AddABranch(lanes.at(e.at("lane").get<std::string>()), End(e.at("end")));
      for (const auto& e : Ord(b.at("b"))) bp->AddBBranch(lanes.at(e.at("lane").get<std::string>()), End(e.at("end")));
      if (b.contains("def"))
        for (const auto& e : Ord(b.at("def")))
          bp->SetDefault({lanes.at(e.at("lane").get<std::string>()), End(e.at("end"))},
                         {lanes.at(e.at("to").get<std::string>()), End(e.at("toend"))});
    }
  return rg;
}
}  // namespace geo
