// Replays behaviours of a specification in the real code.
// Input: line 1 {"obs":[...]}; then {"new":{...},"o":i} starts a behaviour on a fresh object, and
// {"cmd":{...},"res":r,"o":i} is a step: the driver performs cmd and must get result r and observation obs[i].
// Arrays are compared as multisets (specifications encode order explicitly).
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>

#include <nlohmann/json.hpp>

#include "maliput/common/logger.h"

namespace drv {

using json = nlohmann::json;

inline void Canon(const json& x, std::string* out) {
  if (x.is_object()) {
    *out += '{';
    bool first = true;
    for (auto it = x.begin(); it != x.end(); ++it) {
      if (!first) *out += ',';
      first = false;
      *out += json(it.key()).dump();
      *out += ':';
      Canon(it.value(), out);
    }
    *out += '}';
  } else if (x.is_array()) {
    std::vector<std::string> v;
    for (const auto& y : x) {
      v.emplace_back();
      Canon(y, &v.back());
    }
    std::sort(v.begin(), v.end());
    *out += '[';
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) *out += ',';
      *out += v[i];
    }
    *out += ']';
  } else {
    *out += x.dump();
  }
}
inline std::string Canon(const json& x) {
  std::string s;
  Canon(x, &s);
  return s;
}

class Sut {
 public:
  virtual ~Sut() = default;
  virtual json Do(const json& cmd) = 0;  // returns the result; an exception is the result "throws"
  virtual json Obs() = 0;
};

static volatile int g_line = 0;
static std::string g_scratch = "/tmp";  // the directory of the behaviours, which the check removes

inline void OnSignal(int sig) {
  char buf[128];
  const char* k = sig == SIGALRM ? "HANG" : "CRASH";
  int n = snprintf(buf, sizeof buf, "%s {\"line\":%d,\"signal\":%d}\n", k, g_line, sig);
  if (write(1, buf, n) < 0) {
  }
  _exit(0);
}

// What was observed is what the specification wants: equal, or allowed by {"any_of":[...]}, {"in":[lo,hi]}
// or {"between":[[must...],[may...]]}.
inline bool Match(const json& want, const json& got) {
  if (want.is_object()) {
    if (want.size() == 1 && want.contains("any_of")) {
      for (const auto& w : want["any_of"])
        if (Match(w, got)) return true;
      return false;
    }
    if (want.size() == 1 && want.contains("in"))  {
      if (!got.is_number()) return false;
      double a = want["in"][0].get<double>(), b = want["in"][1].get<double>();
      if (a > b) std::swap(a, b);
      return got.get<double>() >= a && got.get<double>() <= b;
    }
    if (want.size() == 1 && want.contains("between")) {
      // every element of the first array, and otherwise only elements of the second
      if (!got.is_array()) return false;
      std::vector<bool> used(got.size());
      for (int part : {0, 1})
        for (const auto& w : want["between"][part]) {
          bool ok = false;
          for (size_t i = 0; i < got.size() && !ok; ++i)
            if (!used[i] && Match(w, got[i])) ok = used[i] = true;
          if (!ok && part == 0) return false;
        }
      return std::all_of(used.begin(), used.end(), [](bool b) { return b; });
    }
    if (!got.is_object() || got.size() != want.size()) return false;
    for (auto it = want.begin(); it != want.end(); ++it)
      if (!got.contains(it.key()) || !Match(it.value(), got[it.key()])) return false;
    return true;
  }
  if (want.is_array()) {
    if (!got.is_array() || got.size() != want.size()) return false;
    std::vector<bool> used(got.size());
    for (const auto& w : want) {
      bool ok = false;
      for (size_t i = 0; i < got.size() && !ok; ++i)
        if (!used[i] && Match(w, got[i])) ok = used[i] = true;
      if (!ok) return false;
    }
    return true;
  }
  return want == got;
}

// Differences are reported up to this length.
static const size_t kCut = std::getenv("DIFF_CUT") ? std::atoi(std::getenv("DIFF_CUT")) : 800;
inline std::string Diff(const json& want, const json& got, const std::string& path = "") {
  if (Canon(want) == Canon(got) || Match(want, got)) return "";
  if (want.is_array() && got.is_array()) {
    json w = json::array(), g = got;
    for (const auto& x : want) {
      bool ok = false;
      for (size_t i = 0; i < g.size(); ++i)
        if (Match(x, g[i])) {
          g.erase(i);
          ok = true;
          break;
        }
      if (!ok) w.push_back(x);
    }
    auto cut = [](std::string s) { return s.size() > kCut ? s.substr(0, kCut) + "..." : s; };
    return path + ": expected (of it) " + cut(Canon(w)) + " got " + cut(Canon(g)) + "; ";
  }
  if (want.is_object() && got.is_object() && !want.contains("any_of")) {
    std::string r;
    for (auto it = want.begin(); it != want.end(); ++it) {
      if (!got.contains(it.key()))
        r += path + "/" + it.key() + ": missing; ";
      else
        r += Diff(it.value(), got[it.key()], path + "/" + it.key());
      if (r.size() > 2 * kCut) return r;
    }
    for (auto it = got.begin(); it != got.end(); ++it)
      if (!want.contains(it.key())) r += path + "/" + it.key() + ": unexpected; ";
    return r;
  }
  auto cut = [](std::string s) { return s.size() > kCut ? s.substr(0, kCut) + "..." : s; };
  return path + ": expected " + cut(Canon(want)) + " got " + cut(Canon(got)) + "; ";
}

inline int Main(int argc, char** argv, std::function<std::unique_ptr<Sut>(const json&)> make) {
  // Endless recursion leaves no stack to report it from: handlers run on one of their own.
  static char handler_stack[1 << 16];
  stack_t alt{};
  alt.ss_sp = handler_stack;
  alt.ss_size = sizeof handler_stack;
  sigaltstack(&alt, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
    struct sigaction act {};
    act.sa_handler = OnSignal;
    act.sa_flags = SA_ONSTACK | SA_RESETHAND;
    sigaction(s, &act, nullptr);
  }
  const rlimit lim{rlim_t{2} << 30, rlim_t{2} << 30};  // code that allocates without end fails instead of taking the machine down
  setrlimit(RLIMIT_AS, &lim);
  maliput::common::set_log_level("off");
  if (const char* p = strrchr(argv[1], '/')) g_scratch = std::string(argv[1], p - argv[1]);
  std::ifstream in(argv[1]);
  std::string line;
  std::getline(in, line);
  g_line = 1;
  json head = json::parse(line);
  std::vector<json> obs(head["obs"].begin(), head["obs"].end());
  std::vector<std::string> canon;
  for (const auto& o : obs) canon.push_back(Canon(o));
  std::unique_ptr<Sut> sut;
  bool skip = false;
  int bad = 0, steps = 0;
  const bool verbose = argc > 2 && std::string(argv[2]) == "-v";
  while (std::getline(in, line)) {
    ++g_line;
    json l = json::parse(line);
    alarm(60);
    const int o = l.value("o", -1);
    json res, want_res;
    if (l.contains("new")) {
      skip = false;
      sut.reset();
      sut = make(l["new"]);
    } else {
      if (skip) continue;
      ++steps;
      try {
        res = sut->Do(l["cmd"]);
      } catch (const std::exception& e) {
        res = "throws";
        if (verbose) std::cout << "  exception: " << e.what() << "\n";
      }
      want_res = l.contains("res") ? l["res"] : json();
    }
    std::string diff;
    if (!want_res.is_null() && Canon(res) != Canon(want_res) && !Match(want_res, res)) {
      diff += "result: " + Diff(want_res, res);
    }
    if (o >= 0) {
      json got = sut->Obs();
      if (Canon(got) != canon[o] && !Match(obs[o], got)) diff += "state: " + Diff(obs[o], got);
      if (verbose) std::cout << g_line << " " << line << "\n  res " << res.dump() << "\n  obs " << got.dump() << "\n";
    }
    if (!diff.empty()) {
      json m{{"line", g_line}, {"diff", diff}};
      std::cout << "MISMATCH " << m.dump() << std::endl;
      skip = true;
      if (++bad >= 3) break;
    }
  }
  alarm(0);
  sut.reset();
  std::cout << "DONE " << steps << std::endl;
  return 0;
}

}  // namespace drv
