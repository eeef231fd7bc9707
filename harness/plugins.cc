// Plugins.tla in the real code, in a scratch directory.
#include <cstdlib>
#include <experimental/filesystem>
#include <sys/wait.h>
#include "drv.h"
#include "net.h"
#include "plugin_out.h"
#include "maliput/plugin/create_road_network.h"
#include "maliput/plugin/maliput_plugin_manager.h"
#include "maliput/utility/file_utils.h"
using namespace maliput;
using drv::json;
using St = std::string;
namespace fs = std::experimental::filesystem;
static St g_templates;
constexpr const char* kEnv = "MALIPUT_PLUGIN_PATH";

St Join(const json& a, const char* by) {
  St s;
  for (size_t i = 0; i < a.size(); ++i) s += (i ? by : "") + a[i].get<St>();
  return s;
}
St Read(const St& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  if (!f) throw std::logic_error("no " + p);
  return s.str();
}
St TypeName(plugin::MaliputPluginType t) { return t == plugin::MaliputPluginType::kRoadNetworkLoader ? "loader" : static_cast<int>(t) == 1 ? "other" : "?"; }

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) {
    unsetenv(kEnv);
    St t = drv::g_scratch + "/pluginsXXXXXX";
    if (!mkdtemp(&t[0])) throw std::logic_error("mkdtemp");
    dir_ = t;
    for (const auto& d : cfg["dirs"]) fs::create_directories(dir_ + "/" + Join(d, "/"));
    for (const auto& f : cfg["files"]) Put(f);
  }
  ~Sut() override {
    man_.reset();
    fs::remove_all(dir_);
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Put") {
      Put(c["file"]);
    } else if (op == "Start") {
      SetPath(c["path"]);
      auto m = std::make_unique<plugin::MaliputPluginManager>();
      man_ = std::move(m);
    } else if (op == "Add") {
      man_->AddPlugin(At(c["at"]));
    } else if (op == "AddNothing") {
      man_->AddPlugin("");
    } else if (op == "Get") {
      auto* p = man_->GetPlugin(Id(c));
      if (!p) return "none";
      return {{"id", p->GetId()}, {"tag", p->ExecuteSymbol<int>("PluginTag")}, {"type", TypeName(p->GetType())}};
    } else if (op == "Call") {
      auto* p = man_->GetPlugin(Id(c));
      if (!p) return "none";
      return p->ExecuteSymbol<int>(c["what"].get<St>(), c["a"].get<int>(), c["b"].get<int>());
    } else if (op == "Session") {
      return Session(c);
    } else if (op == "FilesIn") {
      const St s = c["suffix"];
      json r = json::array();
      ++n_;
      for (const auto& p : utility::GetAllFilePathsFromDirectory(dir_ + "/" + Join(c["d"], "/"), s.empty() && n_ % 2 ? std::nullopt : std::optional<St>(s)))
        r.push_back(p.compare(0, dir_.size() + 1, dir_ + "/") == 0 ? p.substr(dir_.size() + 1) : p);
      return r;
    } else if (op == "Words") {
      const St var = "VERIF_WORDS";
      unsetenv(var.c_str());
      if (!c["parts"].empty()) setenv(var.c_str(), Join(c["parts"], ":").c_str(), 1);
      json r = json::array();
      int i = 0;
      for (const auto& w : utility::GetAllPathsFromEnvironment(var)) r.push_back({{"i", ++i}, {"w", w}});
      unsetenv(var.c_str());
      return r;
    } else {
      throw std::logic_error(op);
    }
    return "ok";
  }
  json Obs() override {
    json a = json::array();
    if (man_)
      for (const auto& kv : man_->ListPlugins()) a.push_back({{"id", kv.first.string()}, {"type", TypeName(kv.second)}});
    return {{"list", a}};
  }

 private:
  static plugin::MaliputPlugin::Id Id(const json& c) { return plugin::MaliputPlugin::Id(c["id"].get<St>()); }
  St At(const json& f) { return dir_ + "/" + (f["dir"].empty() ? "" : Join(f["dir"], "/") + "/") + Join(f["name"], "."); }
  void SetPath(const json& path) {
    St s;
    for (const auto& e : path) {
      if (&e != &path[0]) s += ":";
      s += e["t"] == "dir" ? dir_ + "/" + Join(e["d"], "/") : e["t"] == "file" ? At(e) : e["s"].get<St>();
    }
    if (path.empty()) {
      unsetenv(kEnv);
    } else {
      setenv(kEnv, s.c_str(), 1);
    }
  }
  void Put(const json& f) {
    const St kind = f["kind"], p = At(f), to = f["to"];
    if (!to.empty()) {
      fs::create_symlink(dir_ + "/" + to, p);
    } else if (kind == "dangling") {
      fs::create_symlink(dir_ + "/nothing", p);
    } else if (kind == "text") {
      std::ofstream(p) << "no library\n";
    } else {
      St b = Read(g_templates + "/libplugin_" + kind + ".so");
      const size_t at = b.find("@@VERIF-PLUGIN@@|");
      if (at == St::npos) throw std::logic_error("template");
      auto put = [&](size_t o, const St& s) { memcpy(&b[at + o], s.c_str(), s.size() + 1); };
      put(24, f["id"]);
      put(64, f["tag"].dump());
      put(96, f["type"] == "loader" ? "0" : "1");
      std::ofstream(p, std::ios::binary) << b;
    }
  }
  // In a process of its own: road networks are made by one manager per process.
  json Session(const json& c) {
    SetPath(c["path"]);
    int fd[2];
    if (pipe(fd)) throw std::logic_error("pipe");
    const pid_t pid = fork();
    if (pid == 0) {
      alarm(30);
      json r = json::array();
      int i = 0;
      for (const auto& k : c["calls"]) r.push_back({{"i", ++i}, {"r", Call(k)}});
      const St s = r.dump();
      if (write(fd[1], s.data(), s.size()) < 0) _exit(1);
      _exit(0);
    }
    close(fd[1]);
    St s;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return json::accept(s) ? json::parse(s) : json("the session crashed");
  }
  static json Call(const json& k) {
    const json refused{{"tag", 0}, {"props", json::array()}, {"same", false}};
    try {
      if (k["what"] == "loader") {
        auto l = plugin::MakeRoadNetworkLoader(k["id"]);
        if (!l) return "no loader";
        return {{"tag", std::stoi(l->GetDefaultParameters().at("tag"))}, {"props", json::array()}, {"same", false}};
      }
      json lane{{"id", "l"}, {"y", 0}, {"len", 10}, {"w", 1}, {"hmin", 0}, {"hmax", 5}};
      json js = json::array({{{"id", "j"}, {"segments", json::array({{{"id", "s"}, {"lanes", json::array({lane})}}})}}});
      auto network = geo::Network(geo::Build({{"junctions", js}}));
      PluginOut out;
      auto* was = network.get();
      out.network = was;
      std::map<St, St> props;
      for (const auto& p : k["props"]) props[p["k"]] = p["v"];
      props["out"] = std::to_string(reinterpret_cast<unsigned long long>(&out));
      auto got = plugin::CreateRoadNetwork(k["id"], props);
      network.release();
      json seen = json::array();
      for (const auto& kv : out.seen)
        if (kv.first != "out") seen.push_back({{"k", kv.first}, {"v", kv.second}});
      return {{"tag", out.tag}, {"props", seen}, {"same", got.get() == was && out.seen == props}};
    } catch (const std::exception&) {
      return refused;
    }
  }
  int n_{0};
  St dir_;
  std::unique_ptr<plugin::MaliputPluginManager> man_;
};
int main(int argc, char** argv) {
  g_templates = fs::canonical("/proc/self/exe").parent_path().parent_path().string() + "/lib";
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Sut>(c); });
}
