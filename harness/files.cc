// Conformance driver of spec/Files.tla: common::Path and common::Filesystem, in a scratch directory and as nobody.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include "drv.h"
#include "maliput/common/filesystem.h"
using namespace maliput::common;
using drv::json;
using St = std::string;

const std::vector<St>& Contents() {
  static const std::vector<St> cs = [] {
    std::vector<St> v{"", "", "abc\n", St("\0\xff\r\n\x1a tail", 11)};
    St big;
    for (int i = 0; i < 100000; ++i) big.push_back(static_cast<char>((i * 131 + i / 256) & 0xff));
    v.push_back(big);
    return v;
  }();
  return cs;
}
int ContentId(const St& s) {
  for (size_t i = 1; i < Contents().size(); ++i)
    if (Contents()[i] == s) return static_cast<int>(i);
  return -1;
}
St ReadAll(const St& p) {
  std::ifstream is(p, std::ios::binary);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}
// Everything happens below a directory that belongs to nobody, as nobody.
St& Home() {
  static St home;
  if (home.empty()) {
    St t = drv::g_scratch + "/filesXXXXXX";
    if (!mkdtemp(&t[0])) throw std::runtime_error("driver: mkdtemp");
    char* real = realpath(t.c_str(), nullptr);
    home = real;
    free(real);
    // (where there is no such user, in a user namespace, only the directory is left)
    if (getuid() == 0 && chown(home.c_str(), 65534, 65534) == 0 && (setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)))
      throw std::runtime_error("driver: cannot become nobody");
    umask(022);
  }
  return home;
}
void Clear(const St& d) {
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* e = readdir(h)) {
      const St n = e->d_name;
      if (n == "." || n == "..") continue;
      const St p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
        Clear(p);
        rmdir(p.c_str());
      } else {
        unlink(p.c_str());
      }
    }
    closedir(h);
  }
}

class Files : public drv::Sut {
 public:
  Files() {
    Home();
    // A directory of its own for every behaviour; what was there before is gone.
    static int n = 0;
    root_ = Home() + "/r" + std::to_string(n++);
    if (mkdir(root_.c_str(), 0755) || chdir(root_.c_str())) throw std::runtime_error("driver: no root");
  }
  ~Files() override {
    if (chdir("/")) return;
    Clear(root_);
    rmdir(root_.c_str());
  }
  json Obs() override {
    json dirs = json::array(), files = json::array();
    List(root_, &dirs, &files);
    return {{"dirs", dirs}, {"files", files}, {"cwd", Short(Filesystem::get_cwd().get_path())}};
  }
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Skip") return "ok";
    if (op == "Create") return Tell(Filesystem::create_directory(ToPath(c["sp"])));
    if (op == "CreateAll") return Tell(Filesystem::create_directory_recursive(ToPath(c["sp"])));
    if (op == "RemoveFile") return Tell(Filesystem::remove_file(ToPath(c["sp"])));
    if (op == "RemoveDir") {
      // What the specification leaves out is not done here either.
      const Path p = ToPath(c["sp"]);
      char* r = realpath(p.get_path().c_str(), nullptr);
      const St real = r ? r : "";
      free(r);
      if (real == root_) return "ok";
      return Tell(Filesystem::remove_directory(p));
    }
    if (op == "Read") {
      St to = "before";
      const bool ok = Filesystem::read_as_string(ToPath(c["sp"]), to);
      return {{"ok", Tell(ok)}, {"content", ok ? ContentId(to) : 0}};
    }
    if (op == "Ask") {
      const Path p = ToPath(c["sp"]);
      return {{"file", Tell(p.is_file())}, {"dir", Tell(p.is_directory())}, {"there", Tell(p.exists())}, {"absolute", Tell(p.is_absolute())}};
    }
    if (op == "Spell") return Short(ToPath(c["sp"]).get_path());
    if (op == "Append") {
      Path p = ToPath(c["sp"]);
      p.append(Text(c["tail"]));
      return Short(p.get_path());
    }
    if (op == "Temp") {
      const char* vars[] = {"TMPDIR", "TEMPDIR", "TMP", "TEMP"};
      for (const char* v : vars) unsetenv(v);
      for (const auto& v : c["set"]) setenv(v.get<St>().c_str(), (root_ + "/" + v.get<St>()).c_str(), 1);
      Path p;
      p.set_as_temp();
      json get = json::array();
      for (const char* v : vars) get.push_back({{"v", v}, {"is", Short(Filesystem::get_env_path(v))}});
      for (const char* v : vars) unsetenv(v);
      return {{"path", Short(p.get_path())}, {"get", get}};
    }
    if (op == "Write") {
      std::ofstream os(At(c["at"]), std::ios::binary);
      os << Contents().at(c["content"].get<int>());
      return os.good() ? "ok" : "failed";
    }
    if (op == "Enter") return chdir(At(c["at"]).c_str()) == 0 ? "ok" : "failed";
    throw std::runtime_error("driver: unknown op " + op);
  }

 private:
  static json Tell(bool b) { return b ? "yes" : "no"; }
  St At(const json& names) const {
    if (names.is_string()) return root_ + names.get<St>().substr(1);
    St t = root_;
    for (const auto& n : names) t += "/" + n.get<St>();
    return t;
  }
  St Text(const json& sp) const {
    if (sp.contains("text")) {
      const St t = sp["text"];
      return !t.empty() && t[0] == '@' ? root_ + t.substr(1) : t;
    }
    St t = sp["abs"].get<bool>() ? root_ + (sp["parts"].empty() ? "" : "/") : "";
    bool first = true;
    for (const auto& p : sp["parts"]) {
      if (!first) t += sp["gap"].get<St>();
      first = false;
      t += p.get<St>();
    }
    return t + (sp["slash"].get<bool>() ? "/" : "");
  }
  Path ToPath(const json& sp) const {
    if (!sp["set"].get<bool>()) return Path(Text(sp));
    Path p;
    p.set_path(Text(sp));
    return p;
  }
  St Short(const St& t) const { return t.compare(0, root_.size(), root_) == 0 && (t.size() == root_.size() || t[root_.size()] == '/') ? "@" + t.substr(root_.size()) : t; }
  void List(const St& d, json* dirs, json* files) const {
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h)) {
      const St n = e->d_name;
      if (n == "." || n == "..") continue;
      const St p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) {
        dirs->push_back({{"p", Short(p)}});
        List(p, dirs, files);
      } else {
        files->push_back({{"p", Short(p)}, {"content", ContentId(ReadAll(p))}});
      }
    }
    closedir(h);
  }
  St root_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json&) { return std::make_unique<Files>(); });
}
