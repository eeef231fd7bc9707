// Conformance driver of spec/Boxes.tla: BoundingBox.  A unit is u.
#include <cmath>
#include <set>

#include "drv.h"
#include "maliput/math/bounding_box.h"
using namespace maliput::math;
using drv::json;
using St = std::string;

static double Angle(int k) {
  static const int c[] = {5, 0, -5, 0, 4, 3, 4, -3}, s[] = {0, 5, 0, -5, 3, 4, -3, 4};
  return std::atan2(s[k - 1], c[k - 1]);
}

class Bxs : public drv::Sut {
 public:
  explicit Bxs(const json& c) : u_(c["u"].get<double>()), a_(Make(c["a"])), b_(Make(c["b"])) {}
  json Do(const json& c) override {
    auto& x = c["which"] == "a" ? a_ : b_;
    if (c["op"] == "Make") {
      x = Make(c["box"]);
      return "ok";
    }
    const BoundingRegion<Vector3>& r = x.box;
    return r.Contains(Vec(c["p"])) ? "yes" : "no";
  }
  json Obs() override { return {{"a", Describe(a_)}, {"b", Describe(b_)}, {"ab", Pair(a_.box, b_.box)}, {"ba", Pair(b_.box, a_.box)}}; }

 private:
  struct X {
    BoundingBox box;
    json o;
  };
  Vector3 Vec(const json& v) const { return {v[0].get<double>() * u_, v[1].get<double>() * u_, v[2].get<double>() * u_}; }
  X Make(const json& j) const {
    const json& o = j["o"];
    const double t = j["tol"].get<double>();
    return {BoundingBox(Vec(j["c"]), 2 * Vec(j["h"]), RollPitchYaw(Angle(o[0]), Angle(o[1]), Angle(o[2])), (t < 0 ? t : t + 1e-6) * u_), o};
  }
  json Num(double d, double per = 1) const {
    d = d / u_ * per;
    return std::abs(d - std::round(d)) < 1e-6 ? json(std::lround(d)) : json(d);
  }
  json V3(const Vector3& v, double f = 1) const {
    json r = json::array();
    for (int k = 0; k < 3; ++k) r.push_back({{"k", k + 1}, {"v", Num(v[k] * f)}});
    return r;
  }
  json Describe(const X& x) const {
    json d{{"c", V3(x.box.position())}, {"h", V3(x.box.box_size(), .5)}};
    const auto rpy = x.box.get_orientation().vector();
    json o = json::array(), cs = json::array();
    for (int k = 0; k < 3; ++k)
      o.push_back({{"k", k + 1}, {"v", std::abs(rpy[k] - Angle(x.o[k])) < 1e-12 ? x.o[k] : json(rpy[k])}});
    d["o"] = o;
    std::set<St> seen;
    if (x.box.get_vertices().size() != 8) cs.push_back("not 8 vertices");
    for (const auto& v : x.box.get_vertices()) {
      json c{{"x", Num(v.x(), 125)}, {"y", Num(v.y(), 125)}, {"z", Num(v.z(), 125)}};
      if (seen.insert(c.dump()).second) cs.push_back(c);
    }
    d["corners"] = cs;
    return d;
  }
  static json Pair(const BoundingBox& x, const BoundingBox& y) {
    const BoundingRegion<Vector3>& r = x;
    const auto k = r.Overlaps(y);
    return {{"overlaps", k == OverlappingType::kContained ? "contained" : k == OverlappingType::kIntersected ? "intersected" : "disjointed"},
            {"holds", x.IsBoxContained(y) ? "yes" : "no"},
            {"meets", x.IsBoxIntersected(y) ? "yes" : "no"}};
  }
  double u_;
  X a_, b_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Bxs>(cfg); });
}
