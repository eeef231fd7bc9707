// Runs client programs of maliput::utility::ThreadPool under many schedules and records what happens.
// Input: one JSON program per line: {"n":workers,"main":[op...],"tasks":{"1":[op...],...},"destroy":bool}
//   op: "S" start, "F" finish, "C" cancel, "R" is_running, "Q<t>" queue t, "W<t>" wait for t's future, "X" throw,
//       "B<k>" rendezvous of k tasks, "Y" yield.
// Output: one JSON line per distinct trace: {"p":program,"n":workers,"seed":s,"verdict":"","ev":[...]}.
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include "maliput/common/logger.h"
#include "maliput/utility/thread_pool.h"
#include "detsched.h"
using json = nlohmann::json;
using maliput::utility::ThreadPool;

namespace {
int g_prog = 0;
uint64_t g_seed = 0;
void OnSignal(int sig) {
  char b[128];
  int n = snprintf(b, sizeof b, "{\"p\":%d,\"seed\":%lu,\"verdict\":\"%s\",\"n\":1,\"ev\":[]}\n", g_prog, (unsigned long)g_seed,
                   sig == SIGALRM ? "HANG" : "CRASH");
  if (write(1, b, n) < 0) {
  }
  _exit(0);
}
struct Program {
  int n;
  std::vector<std::string> main;
  std::map<int, std::vector<std::string>> tasks;
};
struct World {
  const Program* p;
  ThreadPool* pool{nullptr};
  std::future<int> fut[16];
  std::mutex m;
  std::condition_variable cv;
  int arrived{0};
};
void Call(int by, const char* op, int t) {
  sched::Logf("{\"e\":\"call\",\"by\":%d,\"op\":\"%s\",\"t\":%d}", by, op, t);
}
void Ret(int by, const char* op, int t, const char* r) {
  sched::Logf("{\"e\":\"ret\",\"by\":%d,\"op\":\"%s\",\"t\":%d,\"res\":\"%s\"}", by, op, t, r);
}
void Exec(World* w, int by, const std::vector<std::string>& ops);
struct Task {
  World* w;
  int id;
  int operator()() {
    sched::Logf("{\"e\":\"begin\",\"t\":%d,\"worker\":%s}", id, sched::Self() != 0 ? "true" : "false");
    struct End {
      int id;
      ~End() { sched::Logf("{\"e\":\"end\",\"t\":%d}", id); }
    } end{id};
    Exec(w, id, w->p->tasks.at(id));
    return 1000 + id;
  }
};
void Exec(World* w, int by, const std::vector<std::string>& ops) {
  for (const auto& op : ops) {
    const int a = op.size() > 1 ? std::stoi(op.substr(1)) : 0;
    switch (op.at(0)) {
      case 'Q': {
        Call(by, "Queue", a);
        try {
          w->fut[a] = w->pool->Queue(Task{w, a});
          Ret(by, "Queue", a, "ok");
        } catch (const std::exception&) {
          Ret(by, "Queue", a, "throws");
        }
        break;
      }
      case 'S':
        Call(by, "Start", 0);
        try {
          w->pool->Start();
          Ret(by, "Start", 0, "ok");
        } catch (const std::exception&) {
          Ret(by, "Start", 0, "throws");
        }
        break;
      case 'R':
        Call(by, "Running", 0);
        Ret(by, "Running", 0, w->pool->is_running() ? "yes" : "no");
        break;
      case 'F':
        Call(by, "Finish", 0);
        w->pool->Finish();
        Ret(by, "Finish", 0, "ok");
        break;
      case 'C':
        Call(by, "Cancel", 0);
        w->pool->cancel_pending();
        Ret(by, "Cancel", 0, "ok");
        break;
      case 'W':
        if (w->fut[a].valid()) w->fut[a].wait();
        break;
      case 'B': {
        std::unique_lock<std::mutex> l(w->m);
        ++w->arrived;
        w->cv.notify_all();
        w->cv.wait(l, [&] { return w->arrived >= a; });
        break;
      }
      case 'Y':
        sched::Point();
        break;
      case 'X':
        throw std::runtime_error("task");
    }
  }
}
void RunMain(const Program& p) {
  World w;
  w.p = &p;
  w.pool = new ThreadPool(p.n);
  Exec(&w, 0, p.main);
  Call(0, "Finish", 0);
  delete w.pool;
  Ret(0, "Finish", 0, "ok");
  for (const auto& kv : p.tasks) {
    const int t = kv.first;
    bool thrower = false;
    for (const auto& op : kv.second) thrower |= op == "X";
    const char* r = "none";
    if (w.fut[t].valid()) {
      try {
        r = w.fut[t].get() == 1000 + t ? "value" : "wrong";
      } catch (const std::future_error& e) {
        r = e.code() == std::future_errc::broken_promise ? "broken" : "wrong";
      } catch (const std::runtime_error& e) {
        r = std::string(e.what()) == "task" ? "exception" : "wrong";
      }
    }
    sched::Logf("{\"e\":\"future\",\"t\":%d,\"kind\":\"%s\",\"res\":\"%s\"}", t, thrower ? "exception" : "value", r);
  }
  sched::Logf("{\"e\":\"exit\"}");
}
}  // namespace

int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, OnSignal);
  maliput::common::set_log_level("off");
  std::ifstream in(argv[1]);
  const uint64_t s0 = std::stoull(argv[2]), ns = std::stoull(argv[3]);
  const bool all = argc > 4;
  std::string line;
  long runs = 0, steps = 0;
  std::set<uint64_t> schedules;
  while (std::getline(in, line)) {
    const json j = json::parse(line);
    Program p;
    g_prog = j["p"];
    p.n = j["n"];
    p.main = j["main"].get<std::vector<std::string>>();
    for (auto it = j["tasks"].begin(); it != j["tasks"].end(); ++it)
      p.tasks[std::stoi(it.key())] = it.value().get<std::vector<std::string>>();
    std::set<std::string> seen;
    auto emit = [&](const sched::Result& r) {
      std::string ev;
      for (const auto& e : r.events) ev += (ev.empty() ? "" : ",") + e;
      if (!all && r.verdict.empty() && !seen.insert(ev).second) return;
      std::cout << "{\"p\":" << g_prog << ",\"n\":" << p.n << ",\"seed\":" << g_seed << ",\"verdict\":\"" << r.verdict
                << "\",\"steps\":" << r.steps << ",\"ev\":[" << ev << "]}" << std::endl;
    };
    for (uint64_t s = s0; s < s0 + ns; ++s) {
      g_seed = s;
      alarm(60);
      sched::Options o;
      o.seed = s;
      o.strategy = s % 3;
      o.memory = s % 5 == 0 ? 7 : (s % 5 == 1 ? 60 : 0);
      o.spurious = s % 2;
      const auto r = sched::Run(o, [&] { RunMain(p); }, emit);
      ++runs;
      steps += r.steps;
      schedules.insert(r.hash * 31 + g_prog);
      emit(r);
    }
  }
  std::cout << "{\"done\":" << runs << ",\"steps\":" << steps << ",\"schedules\":" << schedules.size() << "}" << std::endl;
  return 0;
}
