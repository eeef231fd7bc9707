// Conformance driver of spec/Rotations.tla: rotations in all their forms, matrices, vectors and bounded numbers.
#include <cmath>
#include <sstream>

#include "drv.h"
#include "maliput/api/lane_data.h"
#include "maliput/common/range_validator.h"
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
#include "maliput/math/saturate.h"
#include "maliput/math/vector.h"
using namespace maliput::math;
using maliput::api::InertialPosition;
using maliput::api::Rotation;
using drv::json;
using St = std::string;

static double Angle(int k) {
  static const int c[] = {5, 0, -5, 0, 4, 3, 4, -3}, s[] = {0, 5, 0, -5, 3, 4, -3, 4};
  return std::atan2(s[k - 1], c[k - 1]);
}
static json Num(double d) { return std::abs(d - std::round(d)) < 1e-2 ? json(std::lround(d)) : json(d); }
static json YesNo(bool b) { return b ? "yes" : "no"; }
template <class V>
static json Vec(const V& v, int n, double f = 1) {
  json r = json::array();
  for (int k = 0; k < n; ++k) r.push_back({{"k", k + 1}, {"v", Num(v[k] * f)}});
  return r;
}
template <class M>
static json Mat(const M& m, int n, double f = 1) {
  json r = json::array();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) r.push_back({{"r", i + 1}, {"c", j + 1}, {"v", Num(m[i][j] * f)}});
  return r;
}
template <class F>
static json Try(F f) {
  try {
    return f();
  } catch (const std::exception&) {
    return json::array({"throws"});
  }
}
template <class F>
static json TryV(F f) {
  try {
    return {{"v", f()}};
  } catch (const std::exception&) {
    return {{"v", "throws"}};
  }
}
static Vector3 V3(const json& j) { return {j[0].get<double>(), j[1].get<double>(), j[2].get<double>()}; }
static Quaternion Q(const json& j) { return {j[0].get<double>(), j[1].get<double>(), j[2].get<double>(), j[3].get<double>()}; }
static bool Close(const Matrix3& a, const Matrix3& b) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      if (!(std::abs(a[i][j] - b[i][j]) < 1e-7)) return false;
  return true;
}

template <std::size_t N>
struct VecType { using type = Vector<N>; };
template <>
struct VecType<2> { using type = Vector2; };
template <>
struct VecType<3> { using type = Vector3; };
template <>
struct VecType<4> { using type = Vector4; };
template <std::size_t N>
using Ve = typename VecType<N>::type;

template <std::size_t N>
static std::array<double, N> Arr(const json& j) {
  std::array<double, N> a{};
  for (std::size_t k = 0; k < N; ++k) a[k] = j[k].get<double>();
  return a;
}
template <std::size_t N>
static Matrix<N> MatOf(const json& j) {
  std::array<Vector<N>, N> rows;
  for (std::size_t k = 0; k < N; ++k) rows[k] = Vector<N>(Arr<N>(j[k]));
  return Matrix<N>(rows);
}
template <std::size_t N>
static json Mats(const json& c) {
  const Matrix<N> m = MatOf<N>(c["m"]), n = MatOf<N>(c["n"]);
  const Ve<N> v(Arr<N>(c["v"]));
  if (!(Matrix<N>::Identity() * m == m) || (m != n) == (m == n)) return "identity or inequality";
  json mv = json::array();
  const auto w = m * v;
  const double det = m.determinant();
  if (!((3. * m) == (m * 3.)) || !(((3. * m) / 3.) == m)) return "scaling";
  return {{"det", Num(det)}, {"sum", Mat(m + n, N)}, {"diff", Mat(m - n, N)}, {"prod", Mat(m * n, N)}, {"t", Mat(m.transpose(), N)},
          {"mv", Vec(w, N)}, {"cof", Mat(m.cofactor(), N)}, {"adj", Mat(m.adjoint(), N)}, {"sing", YesNo(m.is_singular())},
          {"scaled", Mat(3. * m, N)}, {"eq", YesNo(m == n)}, {"inv", Try([&]() { return Mat(m.inverse(), N, std::round(det)); })}};
}
template <std::size_t N>
static json Cell(const json& c) {
  Matrix<N> m = MatOf<N>(c["m"]);
  const Matrix<N>& k = m;
  const std::size_t i = c["i"], j = c["j"];
  const json at = TryV([&]() { return Num(k[i][j]); });
  if (at != TryV([&]() { return Num(m[i][j]); })) return "cell differs between constant and mutable access";
  return {{"row", Try([&]() { return Vec(m.row(i), N); })}, {"col", Try([&]() { return Vec(m.col(j), N); })},
          {"minor", Try([&]() {
             if constexpr (N == 2) {  // Matrix<1> is not instantiated in the library
               return json::array({{{"r", 1}, {"c", 1}, {"v", Num(((i + j) % 2 ? -1 : 1) * m.cofactor(i, j))}}});
             } else {
               return Mat(m.reduce(i, j), N - 1);
             }
           })}, {"cof", TryV([&]() { return Num(m.cofactor(i, j)); })}, {"at", at}};
}
template <std::size_t N>
static json Vecs(const json& c) {
  const Ve<N> u(Arr<N>(c["u"])), v(Arr<N>(c["v"]));
  Ve<N> s = u;
  s += v;
  json r{{"dot", Num(u.dot(v))}, {"n2", Num(u.norm() * u.norm())}, {"sum", Vec(u + v, N)}, {"diff", Vec(u - v, N)}, {"neg", Vec(-2. * u, N)},
         {"eq", YesNo(u == v)}, {"cross", json::array()}, {"dist2", Num((u - v).norm() * (v - u).norm())}, {"unit", json::array()}};
  if (!(s == u + v) || !(u * -2. == -2. * u) || (u == v) == (u != v) || !((u * 4.) / 4. == u)) return "operators disagree";
  if (u.norm() > 0) {
    Ve<N> w = u;
    w.normalize();
    if (!((w - u.normalized()).norm() < 1e-12)) return "normalizations disagree";
    r["unit"] = Vec(w, N, u.norm());
  }
  r["str"] = Vec(Ve<N>::FromStr(u.to_str()), N);
  std::ostringstream os;
  os << u;
  if (os.str() != u.to_str()) return "streams differ";
  if constexpr (N == 3) {
    r["cross"] = Vec(u.cross(v), 3);
    const InertialPosition p = InertialPosition::FromXyz(u), q(v.x(), v.y(), v.z());
    if (!((p + q).xyz() == u + v) || !((p - q).xyz() == u - v) || !((p * -2.).xyz() == u * -2.) || !((-2. * p).xyz() == u * -2.) ||
        (p == q) != (u == v) || (p != q) != (u != v) || std::abs(p.length() - u.norm()) > 1e-12 || std::abs(p.Distance(q) - (u - v).norm()) > 1e-12 ||
        std::abs(q.Distance(p) - (u - v).norm()) > 1e-12)
      return "positions differ from vectors";
  }
  return r;
}
#define BY_SIZE(n, F, c) ((n) == 2 ? F<2>(c) : (n) == 3 ? F<3>(c) : F<4>(c))
template <std::size_t N>
static json Parse(const json& c) { return Try([&]() { return Vec(Ve<N>::FromStr(c["text"].get<St>()), N); }); }

class Rots : public drv::Sut {
 public:
  explicit Rots(const json& c) {}
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "SetQuat") { odd_ = !odd_; odd_ ? r_.set_quat(Q(c["q"])) : void(r_ = Rotation::FromQuat(Q(c["q"]))); d_ = c["d"]; return "ok"; }
    if (op == "SetRpy") {
      const json& o = c["o"];
      odd_ = !odd_;
      const double t = odd_ ? 2 * M_PI : 0;
      const RollPitchYaw rpy(Angle(o[0]) + t, Angle(o[1]) - t, Angle(o[2]) + t);
      r_ = odd_ ? Rotation::FromRpy(rpy.vector()) : Rotation::FromRpy(rpy.roll_angle(), rpy.pitch_angle(), rpy.yaw_angle());
      d_ = c["d"];
      return Close(rpy.ToMatrix(), r_.matrix()) ? "ok" : "the matrix of the angles differs";
    }
    if (op == "SetAxis") { r_ = Rotation::FromQuat(Quaternion(Angle(c["k"]), V3(c["a"]))); d_ = c["d"]; return "ok"; }
    if (op == "SetTwo") { r_ = Rotation::FromQuat(Quaternion::FromTwoVectors(V3(c["a"]), V3(c["b"]))); d_ = c["d"]; return "ok"; }
    if (op == "After") { r_ = Rotation::FromQuat(r_.quat() * Q(c["q"])); d_ = c["d"]; return "ok"; }
    if (op == "Before") { Quaternion q = Q(c["q"]); q *= r_.quat(); r_.set_quat(q); d_ = c["d"]; return "ok"; }
    if (op == "Reverse") { r_ = r_.Reverse(); return "ok"; }
    if (op == "Invert") { r_ = Rotation::FromQuat(r_.quat().Inverse()); return "ok"; }
    if (op == "Apply") {
      const Vector3 v = V3(c["v"]);
      const InertialPosition p = r_.Apply(InertialPosition::FromXyz(v));
      if (!((r_.quat() * v - p.xyz()).norm() < 1e-9) || !((r_.quat().TransformVector(v) - p.xyz()).norm() < 1e-9) || !((r_.matrix() * v - p.xyz()).norm() < 1e-9))
        return "forms disagree";
      return Vec(p.xyz(), 3, c["d"].get<double>());
    }
    if (op == "Compare") {
      const Rotation x = Rotation::FromQuat(Q(c["q"]));
      const double den = c["den"];
      double sum = 0;
      const auto arc = [](double v) { return std::acos(std::max(-1., std::min(1., v))); };
      for (const auto& k : c["cos"]) sum += std::pow(arc(k.get<double>() / den), 2);
      const double angle = arc((c["trace"].get<double>() / den - 1) / 2);
      const double a = r_.Distance(x), b = x.Distance(r_), e = r_.quat().AngularDistance(x.quat()), f = x.quat().AngularDistance(r_.quat());
      const auto close = [](double p, double q) { return std::abs(p - q) < 1e-6; };
      if (!close(a, std::sqrt(sum)) || !close(b, a)) return {{"distance", {a, b, std::sqrt(sum)}}};
      if (!close(e, angle) || !close(f, angle)) return {{"angular distance", {e, f, angle}}};
      return "ok";
    }
    if (op == "Slerp") {
      const Quaternion q = r_.quat();
      Quaternion to = q * Quaternion(c["n"].get<int>() * Angle(c["a"]), V3(c["ax"]));
      if (c["neg"].get<bool>()) to = Quaternion(-1. * to.coeffs());
      const Quaternion res = q.Slerp(c["k"].get<double>() / c["n"].get<double>(), to);
      if (!(std::abs(res.norm() - 1) < 1e-9)) return {{"norm", res.norm()}};
      return Mat(res.ToRotationMatrix(), 3, c["d"].get<double>());
    }
    if (op == "Two") {
      const Vector3 a = V3(c["a"]), b = V3(c["b"]);
      const Quaternion q = Quaternion::FromTwoVectors(a, b);
      Quaternion q2(1, 2, 3, 4);
      q2.SetFromTwoVectors(a, b);
      if (!(q == q2) && q.norm() == q.norm()) return "forms disagree";
      const Vector3 x = q * a;
      const double ab = a.norm() * b.norm(), w = q.w();
      return {{"unit", YesNo(std::abs(q.norm() - 1) < 1e-9)}, {"aligned", YesNo(x.cross(b).norm() < 1e-6 * ab && x.dot(b) > 0)},
              {"least", YesNo(std::abs(2 * w * w - 1 - a.dot(b) / ab) < 1e-9)}};
    }
    if (op == "Dt") {
      const json& o = c["o"];
      return Mat(RollPitchYaw(Vector3(Angle(o[0]), Angle(o[1]), Angle(o[2]))).CalcRotationMatrixDt(V3(c["v"])), 3, 125);
    }
    if (op == "Quats") {
      const Quaternion p = Q(c["p"]), q = Q(c["q"]);
      const double n2 = p.squared_norm();
      if (std::abs(p.norm() * p.norm() - n2) > 1e-9 || (p == q) == (p != q)) return "norms or inequality";
      if (!(Quaternion::Identity() * p == p) || !(p * Quaternion() == p) || !(Quaternion(p.coeffs()) == p)) return "identity";
      return {{"prod", Vec((p * q).coeffs(), 4)}, {"dot", Num(p.dot(q))}, {"n2", Num(n2)}, {"conj", Vec(p.conjugate().coeffs(), 4)}, {"eq", YesNo(p == q)},
              {"inv", Vec(p.Inverse().coeffs(), 4, n2 ? n2 : 1)}, {"approx", YesNo(p.IsApprox(q, c["k"].get<double>() / 10))}};
    }
    if (op == "Mats") return BY_SIZE(c["v"].size(), Mats, c);
    if (op == "Cell") return BY_SIZE(c["m"].size(), Cell, c);
    if (op == "Vecs") return c["u"].size() == 1 ? Vecs<1>(c) : BY_SIZE(c["u"].size(), Vecs, c);
    if (op == "Parse") return c["n"] == 1 ? Parse<1>(c) : BY_SIZE(c["n"].get<int>(), Parse, c);
    const double lo = c["lo"], hi = c["hi"];
    if (op == "Saturate") return TryV([&]() { return Num(saturate(c["x"].get<double>(), lo, hi)); });
    if (op == "Validate") {
      return TryV([&]() {
        using maliput::common::RangeValidator;
        const double tol = c["tol"], eps = c["eps"];
        return Num((c["rel"].get<bool>() ? RangeValidator::GetRelativeEpsilonValidator(lo, hi, tol, eps / 8)
                                      : RangeValidator::GetAbsoluteEpsilonValidator(lo, hi, tol, eps))(c["x"].get<double>()));
      });
    }
    if (op == "Bounds") {
      const json a = Bounds<maliput::api::RBounds>(lo, hi), b = Bounds<maliput::api::HBounds>(lo, hi);
      return a == b ? a : json{{"r", a}, {"h", b}};
    }
    return "unknown operation";
  }
  json Obs() override {
    const Matrix3 m = r_.matrix();
    const Quaternion q = r_.quat();
    json f = json::array();
    const auto form = [&](const char* name, const Matrix3& x) {
      if (Close(x, m)) f.push_back(name);
    };
    form("matrix", q.ToRotationMatrix());
    const Vector3 e[3] = {r_.Apply({1, 0, 0}).xyz(), r_.Apply({0, 1, 0}).xyz(), r_.Apply({0, 0, 1}).xyz()};
    form("apply", Matrix3(std::array<Vector<3>, 3>{Vector<3>(e[0].to_array()), Vector<3>(e[1].to_array()), Vector<3>(e[2].to_array())}).transpose());
    const RollPitchYaw rpy = r_.rpy();
    form("rpy", rpy.ToMatrix());
    form("quat of matrix", Quaternion(m).ToRotationMatrix());
    form("rpy of quat", Rotation::FromRpy(r_.roll(), r_.pitch(), r_.yaw()).matrix());
    form("inverse", q.Inverse().ToRotationMatrix().transpose());
    form("conjugate", q.conjugate().ToRotationMatrix().transpose());
    form("negated", Rotation::FromQuat(Quaternion(-1. * q.coeffs())).matrix());
    Rotation scaled;
    scaled.set_quat(Quaternion(3. * q.coeffs()));
    form("scaled", scaled.matrix());
    const double t = 1e-12;
    return {{"rot", {{"d", d_}, {"m", Mat(m, 3, d_)}}}, {"forms", f}, {"unit", YesNo(std::abs(q.norm() - 1) < 1e-9)},
            {"ranges", YesNo(std::abs(rpy.roll_angle()) <= M_PI + t && std::abs(rpy.pitch_angle()) <= M_PI / 2 + t && std::abs(rpy.yaw_angle()) <= M_PI + t)}};
  }

 private:
  template <class B>
  static json Bounds(double lo, double hi) {
    const auto both = [](const B& b) { return json::array({{{"k", 1}, {"v", Num(b.min())}}, {{"k", 2}, {"v", Num(b.max())}}}); };
    B s;
    try { s.set_min(lo); } catch (const std::exception&) {}
    try { s.set_max(hi); } catch (const std::exception&) {}
    return {{"make", Try([&]() { return both(B(lo, hi)); })}, {"set", both(s)}};
  }
  Rotation r_;
  int d_{1};
  bool odd_{};
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Rots>(cfg); });
}
