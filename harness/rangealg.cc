// Conformance driver of spec/RangeAlg.tla: SRange, LaneSRange, LaneSRoute, IsIncluded.
// A unit of the specification is 1/den here.
#include "drv.h"
#include "geo.h"
#include "maliput/api/regions.h"
using namespace maliput::api;
using drv::json;
using St = std::string;

class Alg : public drv::Sut {
 public:
  explicit Alg(const json& cfg) : cfg_(cfg), u_(1. / cfg["den"].get<double>()) {
    json segs = json::array();
    for (json l : cfg["lanes"]) {
      for (const char* k : {"x", "y", "len", "w"}) l[k] = l[k].get<double>() * u_;
      segs.push_back({{"id", "s" + l["id"].get<St>()}, {"lanes", json::array({l})}});
    }
    rg_ = geo::Build({{"lin", u_}, {"junctions", json::array({{{"id", "j"}, {"segments", segs}}})}});
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "SetS0" || op == "SetS1") {
      SRange& r = r_[c["i"].get<int>() - 1];
      if (op == "SetS0") r.set_s0(c["v"].get<double>() * u_);
      else r.set_s1(c["v"].get<double>() * u_);
    } else if (op == "SetLane") {
      lane_[c["i"].get<int>() - 1] = c["lane"];
    } else if (op == "Make") {
      r_[c["i"].get<int>() - 1] = SRange(c["u"].get<double>() * u_, c["v"].get<double>() * u_);
    } else if (op == "Routes") {
      const LaneSRoute a(Rngs(c["a"])), b(Rngs(c["b"]));
      const double t = c["tol"].get<double>() * u_;
      return {{"ab", YesNo([&] { return a.Intersects(b, t); })}, {"ba", YesNo([&] { return b.Intersects(a, t); })},
              {"len", Num(a.length())}};
    } else if (op == "Included") {
      const auto z = Rngs(c["z"]);
      return YesNo([&] {
        return IsIncluded(InertialPosition(c["x"].get<double>() * u_, c["y"].get<double>() * u_, 0), z, rg_.get());
      });
    }
    return "ok";
  }
  json Obs() override {
    json r = json::array();
    for (int i : {0, 1})
      r.push_back({{"i", i + 1}, {"s0", Num(r_[i].s0())}, {"s1", Num(r_[i].s1())}, {"size", Num(r_[i].size())}, {"withs", r_[i].WithS()}});
    const LaneSRange l[2] = {{LaneId(lane_[0]), r_[0]}, {LaneId(lane_[1]), r_[1]}};
    json o{{"r", r}};
    o["ab"] = Ans(r_[0], r_[1]);
    o["ba"] = Ans(r_[1], r_[0]);
    o["lab"] = Ans(l[0], l[1]);
    o["lba"] = Ans(l[1], l[0]);
    return o;
  }

 private:
  template <class F>
  static json YesNo(F f) {
    try {
      return f() ? "yes" : "no";
    } catch (const std::exception&) {
      return "throws";
    }
  }
  json Num(double d) const {
    d /= u_;
    return d == (long)d ? json((long)d) : json(d);
  }
  std::vector<LaneSRange> Rngs(const json& z) const {
    std::vector<LaneSRange> r;
    for (const auto& x : geo::Ord(z))
      r.emplace_back(LaneId(x["lane"].get<St>()), SRange(x["s0"].get<double>() * u_, x["s1"].get<double>() * u_));
    return r;
  }
  static SRange S(const SRange& r) { return r; }
  static SRange S(const LaneSRange& r) { return r.s_range(); }
  template <class T>
  json Ans(const T& a, const T& b) const {
    json out = json::array();
    for (const auto& tj : cfg_["tols"]) {
      const double t = tj.get<double>() * u_;
      json cap;
      try {
        const auto c = a.GetIntersection(b, t);
        if (c) cap = {{"none", false}, {"s0", Num(S(*c).s0())}, {"s1", Num(S(*c).s1())}};
        else cap = {{"none", true}};
      } catch (const std::exception&) {
        cap = {{"throws", true}};
      }
      out.push_back({{"tol", tj}, {"int", YesNo([&] { return a.Intersects(b, t); })}, {"con", YesNo([&] { return a.Contains(b, t); })}, {"cap", cap}});
    }
    return out;
  }
  json cfg_;
  double u_;
  SRange r_[2];
  St lane_[2]{"p", "p"};
  std::unique_ptr<geo::RoadGeometry> rg_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Alg>(cfg); });
}
