// Conformance driver of spec/KdTree.tla: KDTree, KDTree3D and AxisAlignedBox.  A unit is u.
#include <array>
#include <limits>

#include "drv.h"
#include "maliput/math/axis_aligned_box.h"
#include "maliput/math/kd_tree.h"
using namespace maliput::math;
using drv::json;
using St = std::string;

template <std::size_t N>
struct Pt {
  std::array<double, N> v{};
  int id{0};
  double operator[](std::size_t k) const { return v[k]; }
};

struct Tree {
  virtual ~Tree() = default;
  virtual int Near(const std::vector<double>& q, const double* tol) const = 0;
  virtual json Range(const AxisAlignedBox&) const { throw std::logic_error("no range search"); }
};
template <std::size_t N, class T>
struct TreeN : Tree {
  template <class... A>
  explicit TreeN(A&&... a) : t(std::forward<A>(a)...) {}
  int Near(const std::vector<double>& q, const double* tol) const override {
    Pt<N> p;
    std::copy(q.begin(), q.end(), p.v.begin());
    return (tol ? t.nearest_point(p, *tol) : t.nearest_point(p)).id;
  }
  json Range(const AxisAlignedBox& b) const override {
    json r = json::array();
    if constexpr (N == 3 && !std::is_same_v<T, KDTree<Pt<3>, 3>>)
      for (const auto* p : t.RangeSearch(b)) r.push_back(p->id);
    return r;
  }
  T t;
};

class Kd : public drv::Sut {
 public:
  explicit Kd(const json& c) : u_(c["u"].get<double>()) {
    const size_t d = c["pts"].empty() ? 3 : c["pts"][0].size();
    const bool it = c.value("iter", false), plain = c.value("plain", false);
    if (d == 1) Make<1, KDTree<Pt<1>, 1>>(c["pts"], it);
    if (d == 2) Make<2, KDTree<Pt<2>, 2>>(c["pts"], it);
    if (d == 3 && plain) Make<3, KDTree<Pt<3>, 3>>(c["pts"], it);
    if (d == 3 && !plain) Make<3, KDTree3D<Pt<3>>>(c["pts"], it);
    if (d == 4) Make<4, KDTree<Pt<4>, 4>>(c["pts"], it);
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "BuildEmpty") {
      std::vector<Pt<3>> none;
      KDTree3D<Pt<3>> t(none);
      return "ok";
    }
    if (op == "Nearest") {
      std::vector<double> q;
      for (const auto& x : c["q"]) q.push_back(x.get<double>() * u_);
      const double tol = c["tol"].get<double>() * u_;
      try {
        return {{"id", tree_->Near(q, c["tol"].get<int>() == -1000 ? nullptr : &tol)}};
      } catch (const std::exception&) {
        return {{"id", 0}};
      }
    }
    if (op == "Range") return tree_->Range(Box(c["b"]));
    if (op == "Boxes") {
      const AxisAlignedBox a = Box(c["a"]), b = Box(c["b"]);
      const BoundingRegion<Vector3>& ra = a;
      const auto k = ra.Overlaps(b);
      json vs = json::array();
      std::vector<St> seen;
      for (const auto& v : a.get_vertices()) {
        json x{{"x", Num(v.x())}, {"y", Num(v.y())}, {"z", Num(v.z())}};
        if (std::find(seen.begin(), seen.end(), x.dump()) == seen.end()) {
          seen.push_back(x.dump());
          vs.push_back(x);
        }
      }
      const auto cap = a.GetIntersection(b);
      json jc{{"some", cap.has_value()}};
      if (cap) {
        jc["lo"] = Corner(cap->min_corner());
        jc["hi"] = Corner(cap->max_corner());
      }
      return {{"contains", ra.Contains(Vec(c["p"])) ? "yes" : "no"},
              {"overlaps", k == OverlappingType::kContained ? "contained" : k == OverlappingType::kIntersected ? "intersected" : "disjointed"},
              {"holds", a.IsBoxContained(b) ? "yes" : "no"},
              {"meets", a.IsBoxIntersected(b) ? "yes" : "no"},
              {"cap", jc},
              {"vertices", vs}};
    }
    throw std::logic_error("op");
  }
  json Obs() override { return {{"n", n_}}; }

 private:
  template <std::size_t N, class T>
  void Make(const json& ps, bool it) {
    std::vector<Pt<N>> v;
    for (const auto& p : ps) {
      Pt<N> x;
      for (size_t k = 0; k < N; ++k) x.v[k] = p[k].get<double>() * u_;
      x.id = static_cast<int>(v.size()) + 1;
      v.push_back(x);
    }
    n_ = static_cast<int>(v.size());
    if (it) tree_ = std::make_unique<TreeN<N, T>>(v.begin(), v.end());
    else tree_ = std::make_unique<TreeN<N, T>>(v);
  }
  json Corner(const Vector3& v) {
    return json::array({{{"k", 1}, {"v", Num(v.x())}}, {{"k", 2}, {"v", Num(v.y())}}, {{"k", 3}, {"v", Num(v.z())}}});
  }
  double Co(const json& x) const {
    const int i = x.get<int>();
    return i == 1000 ? std::numeric_limits<double>::infinity() : i == -1000 ? -std::numeric_limits<double>::infinity() : i * u_;
  }
  Vector3 Vec(const json& v) const { return {Co(v[0]), Co(v[1]), Co(v[2])}; }
  json Num(double d) const {
    if (std::isinf(d)) return d > 0 ? 1000 : -1000;
    d /= u_;
    return d == static_cast<long>(d) ? json(static_cast<long>(d)) : json(d);
  }
  AxisAlignedBox Box(const json& b) const {
    const double t = b["tol"].get<double>() * u_;
    if (t == 0 && !b.value("zero", false)) return AxisAlignedBox(Vec(b["lo"]), Vec(b["hi"]));
    return AxisAlignedBox(Vec(b["lo"]), Vec(b["hi"]), t);
  }
  double u_;
  int n_{0};
  std::unique_ptr<Tree> tree_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Kd>(cfg); });
}
