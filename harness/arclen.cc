// Conformance driver of spec/ArcLen.tla: arc length integrators and their inverses.
#include <cmath>
#include "drv.h"
#include "maliput/drake/arc_length_integrator.h"
#include "maliput/drake/inverse_arc_length_integrator.h"
using namespace maliput;
using drv::json;
using St = std::string;
using drake::ArcLengthIntegrator;
using drake::InverseArcLengthIntegrator;
using math::Vector2;

// Initial and maximum step sizes, accuracy.
static const double kHow[6][3] = {{0.1, 0.1, 1e-5}, {0.01, 0.5, 1e-4}, {0.1, 5., 1e-4}, {1., 1., 1e-6}, {0.05, 0.05, 1e-3}, {0.001, 2., 1e-3}};

class ArcLen : public drv::Sut {
 public:
  json Obs() override { return {{"alive", arc_ != nullptr || inv_ != nullptr}}; }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Open") return Open(c);
    if (op == "Drop") {
      arc_.reset();
      inv_.reset();
      return "ok";
    }
    if (op == "Call") {
      const auto& f = fns_.at(c["slot"]);
      const double t = c["tol"].get<double>() / 1000.;
      const St side = c["side"];
      return Answer(f(c["x"].get<double>() + (side == "nearbelow" ? -t / 2 : side == "nearabove" ? t / 2 : side == "farbelow" ? -2 * t : side == "farabove" ? 2 * t : 0.)));
    }
    const Vector2 k = K(c["k"]);
    Breaking b(this, c);
    if (op == "Evaluate" || op == "EvaluateBroken") {
      const double x = c["x"];
      return Answer(arc_ ? arc_->Evaluate(x, k) : inv_->Evaluate(x, k));
    }
    const double x0 = c["x0"], x1 = c["x1"], tol = c["tol"].get<double>() / 1000.;
    std::function<double(double)> f = arc_ ? arc_->IntegralFunction(x0, x1, k, tol) : inv_->InverseFunction(x0, x1, k, tol);
    fns_[c["slot"]] = f;
    return "ok";
  }

 private:
  struct Breaking {
    Breaking(ArcLen* s, const json& c) : self(s) {
      if (c.contains("fail")) *s->fail_ = c["fail"].get<double>();
    }
    ~Breaking() { *self->fail_ = std::nullopt; }
    ArcLen* self;
  };
  static Vector2 K(const json& k) {
    double v[2] = {0., 0.};
    for (int i = 0; i < 2; ++i) v[i] = k[i];
    return {v[0], v[1]};
  }
  // The whole number the answer stands for.
  json Answer(double v) const {
    const double r = std::round(v);
    if (std::abs(v - r) <= tol_) return static_cast<long>(r);
    return v;
  }
  json Open(const json& c) {
    arc_.reset();
    inv_.reset();
    fns_.clear();
    const St kind = c["kind"];
    const double* how = kHow[c["how"].get<int>() - 1];
    fail_ = std::make_shared<std::optional<double>>();
    const drake::IntegratorConfiguration config{c["lo"].get<double>(), c["im"].get<double>(), {1., 0.}, how[0], how[1], how[2]};
    auto at = [fail = fail_](double x) {
      if (*fail && x >= **fail) throw std::runtime_error("the integrand fails here");
    };
    auto f = [](double x, const Vector2& k) { return k[0] + 2 * k[1] * x + 3 * x * x; };
    tol_ = kind == "inv" ? 4e-3 : 1e-6;
    if (kind == "arc") {
      arc_ = std::make_unique<ArcLengthIntegrator>([=](double p, const Vector2& k) { at(p); return f(p, k); }, config);
    } else if (kind == "inv") {
      // (the parameter nears its end from below: it is there when the rest is a matter of accuracy)
      inv_ = std::make_unique<InverseArcLengthIntegrator>([=](double, double p, const Vector2& k) { at(p + tol_); return 1. / f(p, k); }, config);
    } else {
      inv_ = std::make_unique<InverseArcLengthIntegrator>([=](double s, double, const Vector2& k) { at(s); return f(s, k); }, config);
    }
    return "ok";
  }
  std::unique_ptr<ArcLengthIntegrator> arc_;
  std::unique_ptr<InverseArcLengthIntegrator> inv_;
  std::map<St, std::function<double(double)>> fns_;
  std::shared_ptr<std::optional<double>> fail_ = std::make_shared<std::optional<double>>();
  double tol_{};
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json&) { return std::make_unique<ArcLen>(); });
}
