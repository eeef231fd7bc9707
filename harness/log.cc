// Conformance driver of spec/Log.tla: loggers.
#include <iostream>
#include <functional>
#include <map>
#include <set>
#include "drv.h"
#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/common/logger.h"
#include "maliput/common/assertion_error.h"
using namespace maliput;
using drv::json;
using St = std::string;
namespace L = maliput::common::logger;

struct Book {
  std::vector<std::pair<St, St>> got;
  std::vector<St> gone;
} g_book;
class Sink : public common::SinkBase {
 public:
  explicit Sink(const St& name) : name_(name) {}
  ~Sink() override { g_book.gone.push_back(name_); }
  void log(const St& m) override { g_book.got.emplace_back(name_, m); }
  void flush() override {}
  const St& name() const { return name_; }

 private:
  St name_;
};

class Log : public drv::Sut {
 public:
  Log() {
    // The global logger starts every behaviour as it came.
    log()->set_sink(std::make_unique<common::Sink>());
    log()->set_level(L::info);
  }
  json Obs() override {
    json sinks = json::array(), levels = json::array();
    for (const St g : {"global", "own"}) {
      const auto* s = dynamic_cast<const Sink*>(On(g)->get_sink());
      sinks.push_back({{"on", g}, {"sink", s ? s->name() : dynamic_cast<common::Sink*>(On(g)->get_sink()) ? "std" : "?"}});
      levels.push_back({{"on", g}, {"level", On(g)->set_level(L::unchanged)}});
    }
    return {{"sinks", sinks}, {"levels", levels}, {"one", log() != nullptr && log() == log() ? "yes" : "no"}};
  }
  json Do(const json& c) override {
    const St op = c["op"];
    g_book = {};
    if (op == "Set") return On(c["on"])->set_level(Level(c["level"]));
    if (op == "SetByName") {
      try {
        return common::set_log_level(c["level"]);
      } catch (const std::out_of_range&) {
        return "throws";
      }
    }
    if (op == "SetSink") {
      const St s = c["sink"];
      std::unique_ptr<common::SinkBase> to;
      if (s == "std") to = std::make_unique<common::Sink>();
      else if (s != "none") to = std::make_unique<Sink>(s);
      try {
        On(c["on"])->set_sink(std::move(to));
      } catch (const maliput::common::assertion_error&) {
        return "throws";
      }
      return {{"gone", g_book.gone}};
    }
    if (op == "Log") {
      std::vector<json> as(c["args"].size());
      for (const auto& a : c["args"]) as.at(a["i"].get<size_t>() - 1) = a["a"];
      std::ostringstream os;
      std::streambuf* const was = std::cout.rdbuf(os.rdbuf());
      common::Logger* const l = On(c["on"]);
      const St lev = c["level"];
      Call([&](const auto&... xs) {
        if (lev == "trace") l->trace(xs...);
        else if (lev == "debug") l->debug(xs...);
        else if (lev == "info") l->info(xs...);
        else if (lev == "warn") l->warn(xs...);
        else if (lev == "error") l->error(xs...);
        else l->critical(xs...);
      }, as);
      std::cout.rdbuf(was);
      json got = json::array();
      for (const auto& g : g_book.got) got.push_back({{"sink", g.first}, {"text", g.second}});
      St out = os.str();
      // (the standard sink ends lines of its own)
      if (out.size() > 1 && out.substr(out.size() - 2) == "\n\n") out.pop_back();
      if (!out.empty()) got.push_back({{"sink", "std"}, {"text", out}});
      return {{"got", got}};
    }
    throw std::runtime_error("driver: unknown op " + op);
  }

 private:
  common::Logger* On(const St& g) { return g == "global" ? log() : &own_; }
  static L::level Level(const St& n) {
    const std::map<St, L::level> m{{"trace", L::trace}, {"debug", L::debug}, {"info", L::info}, {"warn", L::warn}, {"error", L::error}, {"critical", L::critical}, {"off", L::off}, {"unchanged", L::unchanged}};
    return m.at(n);
  }
  template <class G>
  static void With(const json& a, const G& g) {
    const St k = a["kind"];
    if (k == "text") return g(a["text"].get<St>());
    if (k == "int") return g(a["n"].get<int>());
    if (k == "bool") return g(a["n"].get<int>() != 0);
    if (k == "id") return g(api::LaneId(a["text"].get<St>()));
    return g(a["text"] == "start" ? api::LaneEnd::kStart : api::LaneEnd::kFinish);
  }
  // An argument of any of the types (every combination of types for all the arguments would take minutes to compile).
  struct Any {
    std::function<void(std::ostream&)> to;
    friend std::ostream& operator<<(std::ostream& os, const Any& a) { return a.to(os), os; }
  };
  // Calls f with the arguments, the first two each of its own type.
  template <class F, class... Xs>
  static void Call(const F& f, const std::vector<json>& as, const Xs&... xs) {
    if constexpr (sizeof...(Xs) <= 5) {
      if (as.size() == sizeof...(Xs)) return f(xs...);
      if constexpr (sizeof...(Xs) < 5) {
        const json& a = as[sizeof...(Xs)];
        return With(a, [&](const auto& x) {
          if constexpr (sizeof...(Xs) < 2) Call(f, as, xs..., x);
          else Call(f, as, xs..., Any{[x](std::ostream& os) { os << x; }});
        });
      }
    }
    throw std::runtime_error("driver: too many arguments");
  }
  common::Logger own_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json&) { return std::make_unique<Log>(); });
}
