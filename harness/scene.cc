// Conformance driver of spec/Scene.tla: meshes of a road geometry and the files written of them.  A unit is u.
#include <filesystem>
#include <map>
#include <set>

#include "drv.h"
#include "net.h"
#include "maliput/utility/generate_obj.h"
#include "maliput/utility/generate_urdf.h"
#include "maliput/utility/mesh.h"
using namespace maliput;
using drv::json;
using St = std::string;
using V3 = math::Vector3;
namespace fs = std::filesystem;
using Face = std::vector<V3>;
using Faces = std::vector<Face>;
using utility::mesh::GeoMesh;

static const std::map<St, utility::MaterialType> kTypes{
    {"asphalt", utility::MaterialType::Asphalt}, {"lane", utility::MaterialType::Lane}, {"marker", utility::MaterialType::Marker},
    {"h_bounds", utility::MaterialType::HBounds}, {"glow", utility::MaterialType::BranchPointGlow},
    {"grayed_asphalt", utility::MaterialType::GrayedAsphalt}, {"grayed_lane", utility::MaterialType::GrayedLane},
    {"grayed_marker", utility::MaterialType::GrayedMarker}, {"sidewalk", utility::MaterialType::Sidewalk}};
static const std::map<St, St> kNames{{"bland_asphalt", "asphalt"}, {"lane_haze", "lane"}, {"marker_paint", "marker"},
    {"h_bounds_haze", "h_bounds"}, {"branch_point_glow", "glow"}, {"grayed_bland_asphalt", "grayed_asphalt"},
    {"grayed_lane_haze", "grayed_lane"}, {"grayed_marker_paint", "grayed_marker"}, {"sidewalk", "sidewalk"}};

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& c) : u_(c["u"].get<double>()), c_(c) {
    c_["lin"] = 0;
    n_ = c_["lanes"].size();
    json g = geo::Flat(c_, u_);
    lin_ = c["lin512"].get<double>() / 512;
    g["lin"] = u_ * lin_;
    net_ = geo::Network(geo::Build(g));
    rg_ = net_->road_geometry();
    dir_ = drv::g_scratch + "/sceneXXXXXX";
    if (!mkdtemp(dir_.data())) throw std::runtime_error("mkdtemp");
  }
  ~Sut() override { fs::remove_all(Dir()); }
  json Do(const json& c) override {
    const St op = c["op"];
    const auto f = Features(c["f"]);
    if (op == "Draw") {
      json r;
      const auto ms = c["f"]["net"] ? utility::BuildMeshes(net_.get(), f) : utility::BuildMeshes(rg_, f);
      for (const auto& m : ms) {
        if (m.first == "branch_point") continue;
        r["cells"][m.first] = Cells(Get(m.second.first), m.first == "marker" || m.first == "grayed_marker" ? c["f"]["stripeh"].get<int>() : kAll);
        if (Name(m.second.second) != m.first) r["cells"][m.first] = "of " + m.second.second.name;
      }
      r["glow"] = Glow(Get(ms.at("branch_point").first), c["f"]);
      return r;
    }
    if (op == "Write") return Write(c, f);
    if (op == "Parts") {
      json a = json::array();
      const auto m = utility::BuildRoadGeometryMesh(rg_, f);
      auto all = [&](const std::map<St, std::pair<GeoMesh, utility::Material>>& ms, const St& what) {
        for (const auto& x : ms) {
          json cells = what == "glow" ? Glow(Get(x.second.first), c["f"]) : Cells(Get(x.second.first), what == "marker" || what == "grayed_marker" ? c["f"]["stripeh"].get<int>() : kAll);
          if (Name(x.second.second) != what) cells = "of " + x.second.second.name;
          a.push_back({{"id", x.first}, {"cells", cells}});
        }
      };
      all(m.asphalt_mesh, "asphalt"), all(m.grayed_asphalt_mesh, "grayed_asphalt"), all(m.hbounds_mesh, "h_bounds"), all(m.sidewalk_mesh, "sidewalk");
      all(m.lane_lane_mesh, "lane"), all(m.lane_grayed_lane_mesh, "grayed_lane"), all(m.lane_marker_mesh, "marker");
      all(m.lane_grayed_marker_mesh, "grayed_marker"), all(m.branch_point_mesh, "glow");
      return a;
    }
    if (op == "One") {
      const St kind = c["kind"], id = c["id"], what = c["what"];
      try {
        const auto m = kind == "lane"      ? utility::BuildMesh(rg_, f, api::LaneId(id), kTypes.at(what))
                       : kind == "segment" ? utility::BuildMesh(rg_, f, api::SegmentId(id), kTypes.at(what))
                                           : utility::BuildMesh(rg_, f, api::BranchPointId(id), kTypes.at(what));
        const bool marker = what == "marker" || what == "grayed_marker";
        return {{"material", Name(m.second)}, {"cells", what == "glow" ? Glow(Get(m.first), c["f"]) : Cells(Get(m.first), marker ? c["f"]["stripeh"].get<int>() : kAll)}};
      } catch (const std::exception&) {
        return {{"material", "throws"}, {"cells", json::array()}};
      }
    }
    if (op == "Arrows") {
      auto g = f;
      g.draw_stripes = false;
      g.draw_arrows = true;
      const auto* l = rg_->ById().GetLane(api::LaneId(c["lane"].get<St>()));
      const auto fcs = Get(utility::BuildMesh(rg_, g, l->id(), utility::MaterialType::Marker).first);
      bool inside = true;
      Faces end[2];
      for (const auto& x : fcs) {
        Face y;
        double s = 0;
        for (const auto& v : x) {
          const auto q = Local(c["lane"], v);
          y.push_back(q);
          s += q.x() / x.size();
          const auto b = l->lane_bounds(q.x() * u_);
          inside = inside && q.x() * u_ > -1e-9 && q.x() * u_ < l->length() + 1e-9 && q.y() * u_ > b.min() - 1e-9 && q.y() * u_ < b.max() + 1e-9 &&
                   std::abs(q.z() - c["f"]["arrowh"].get<double>()) < 1e-6;
        }
        end[s * u_ * 2 > l->length()].push_back(y);
      }
      return {{"inside", inside ? "yes" : "no"}, {"start", Narrows(end[0], 0)}, {"finish", Narrows(end[1], l->length() / u_)}};
    }
    throw std::logic_error("op");
  }
  json Obs() override { return {{"n", n_}}; }

 private:
  static constexpr int kAll = 1 << 30;
  St Dir() const { return dir_; }
  static St Name(const utility::Material& m) { return kNames.count(m.name) ? kNames.at(m.name) : m.name; }
  utility::ObjFeatures Features(const json& j) const {
    utility::ObjFeatures f;
    f.max_grid_unit = j["grid"].get<double>() * u_;
    f.min_grid_resolution = j["res"];
    f.draw_stripes = j["stripes"];
    f.draw_arrows = j["arrows"];
    f.draw_lane_haze = j["haze"];
    f.draw_branch_points = j["branches"];
    f.draw_elevation_bounds = j["bounds"];
    f.off_grid_mesh_generation = j["off"];
    f.simplify_mesh_threshold = j["simplify"].get<double>() * u_ / 512;
    f.stripe_width = j["width"].get<double>() * u_;
    f.stripe_elevation = j["stripeh"].get<double>() * u_;
    f.arrow_elevation = j["arrowh"].get<double>() * u_;
    f.lane_haze_elevation = j["hazeh"].get<double>() * u_;
    f.branch_point_elevation = j["glowh"].get<double>() * u_;
    f.branch_point_height = j["glow"].get<double>() * u_;
    for (const auto& s : j["marked"]) f.highlighted_segments.push_back(api::SegmentId(s.get<St>()));
    return f;
  }
  // The faces of a mesh, in units.  A face whose normals do not go with its vertices is turned over.
  Faces Get(const GeoMesh& m) const {
    Faces r;
    for (const auto& f : m.faces()) {
      Face v;
      bool up = true;
      for (const auto& x : f.vertices()) {
        v.push_back(m.get_vertex(x.vertex_index).v().xyz() * (1 / u_));
        up = up && m.get_normal(x.normal_index).n().z() > -1e-9;
      }
      if (!up) std::reverse(v.begin(), v.end());
      r.push_back(v);
    }
    return r;
  }
  // How often each unit cell is covered at each height (h only), counterclockwise.
  json Cells(const Faces& fs, int h) const {
    std::map<std::array<long, 3>, std::array<int, 5>> at;
    static const double dx[5] = {.5031731, .1122917, .9178313, .1308177, .8891379}, dy[5] = {.4981277, .0741379, .1232117, .9217733, .9391913};
    for (const auto& f : fs) {
      double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
      for (const auto& v : f) {
        const double p[3] = {v.x(), v.y(), v.z()};
        for (int k = 0; k < 3; ++k) lo[k] = std::min(lo[k], p[k]), hi[k] = std::max(hi[k], p[k]);
      }
      if (hi[2] - lo[2] > 1e-6 || std::abs(lo[2] - std::round(lo[2])) > 5e-3) return "not level";
      const long z = std::lround(lo[2]);
      if (h != kAll && !Level(z, h)) continue;
      for (long x = std::floor(lo[0]) - 1; x <= hi[0]; ++x)
        for (long y = std::floor(lo[1]) - 1; y <= hi[1]; ++y)
          for (int k = 0; k < 5; ++k) {
            const int w = Winding(f, x + dx[k], y + dy[k]);
            if (w) at[{x, y, z}][k] += w;
          }
    }
    json a = json::array();
    for (const auto& e : at) {
      json n = e.second[0];
      for (int k = 1; k < 5; ++k)
        if (e.second[k] != e.second[0]) n = -1;
      if (n != 0) a.push_back({{"c", {{"x", e.first[0]}, {"y", e.first[1]}, {"z", e.first[2]}}}, {"n", n}});
    }
    return a;
  }
  // Is z at elevation h over some lane?
  bool Level(long z, int h) const {
    for (const auto& l : c_["lanes"])
      if (l["z"].get<int>() + c_["frame"]["z"].get<int>() + h - oz_ == z) return true;
    return false;
  }
  static int Winding(const Face& v, double x, double y) {
    int t = 0;
    for (size_t k = 0; k < v.size(); ++k) {
      const V3 &a = v[k], &b = v[(k + 1) % v.size()];
      const double side = (b.x() - a.x()) * (y - a.y()) - (x - a.x()) * (b.y() - a.y());
      if (a.y() <= y && b.y() > y && side > 0) ++t;
      if (a.y() > y && b.y() <= y && side < 0) --t;
    }
    return t;
  }
  V3 Local(const json& id, const V3& v) const {
    for (const auto& l : c_["lanes"])
      if (l["id"] == id) {
        const double dx = v.x() - l["x"].get<double>() - c_["frame"]["x"].get<double>(), dy = v.y() - l["y"].get<double>() - c_["frame"]["y"].get<double>();
        const int q = l["q"], c = (q == 0) - (q == 2), s = (q == 1) - (q == 3);
        return {c * dx + s * dy, c * dy - s * dx, v.z() - l["z"].get<double>() - c_["frame"]["z"].get<double>()};
      }
    throw std::logic_error("lane");
  }
  // The faces' width near their lowest and highest s.
  St Narrows(const Faces& fs, double end) const {
    if (fs.empty()) return "nothing";
    double lo = 1e9, hi = -1e9, last = 1e9;
    for (const auto& f : fs)
      for (const auto& v : f) lo = std::min(lo, v.x()), hi = std::max(hi, v.x());
    if (std::min(std::abs(end - lo), std::abs(end - hi)) > .05 + lin_) return "elsewhere";
    for (double t : {.07, .33, .59, .83}) {
      const double s = lo + t * (hi - lo);
      double w = 0;
      for (const auto& f : fs) {
        double a = 1e9, b = -1e9;
        for (size_t k = 0; k < f.size(); ++k) {
          const V3 &p = f[k], &q = f[(k + 1) % f.size()];
          if ((p.x() <= s) == (q.x() <= s)) continue;
          const double r = p.y() + (s - p.x()) / (q.x() - p.x()) * (q.y() - p.y());
          a = std::min(a, r), b = std::max(b, r);
        }
        if (b > a) w += b - a;
      }
      if (!(w > 0 && w < last)) return "does not narrow";
      last = w;
    }
    return "narrows";
  }
  // Upright diamonds, and arrows: trapezoids ten times as wide at their base as at their tip.
  json Glow(const Faces& fs, const json& f) const {
    json a = json::array();
    const double high = f["glow"];
    for (const auto& v : fs) {
      if (v.size() != 4) {
        a.push_back("no quadrangle");
        continue;
      }
      const double zs[4] = {v[0].z(), v[1].z(), v[2].z(), v[3].z()};
      const double lo = *std::min_element(zs, zs + 4), hi = *std::max_element(zs, zs + 4);
      const bool upright = hi - lo > 1e-6;
      if (upright && std::abs(hi - lo - high) > 1e-6) {
        a.push_back("of another height");
        continue;
      }
      int middle = 0;
      for (double z : zs) middle += std::abs(2 * z - hi - lo) < 1e-6;
      if (upright && middle == 2) {
        size_t l = std::min_element(zs, zs + 4) - zs, h = std::max_element(zs, zs + 4) - zs;
        const V3 m = (v[l] + v[h]) * .5, n = (v[(l + 1) % 4] + v[(l + 3) % 4]) * .5;
        if ((m - n).norm() > 1e-6 || std::hypot(v[l].x() - v[h].x(), v[l].y() - v[h].y()) > 1e-6 || (v[(l + 1) % 4] - v[(l + 3) % 4]).norm() < .05)
          a.push_back("no diamond");
        else
          a.push_back({{"kind", "diamond"}, {"x", Num(m.x())}, {"y", Num(m.y())}, {"z", Num(m.z())}, {"dx", 0}, {"dy", 0}});
        continue;
      }
      // A base is across the arrow.
      bool found = false;
      for (size_t k = 0; k < 4 && !found; ++k) {
        const V3 e = v[(k + 1) % 4] - v[k], t = v[(k + 3) % 4] - v[(k + 2) % 4], p = (v[k] + v[(k + 1) % 4]) * .5, q = (v[(k + 2) % 4] + v[(k + 3) % 4]) * .5;
        if (std::abs(e.norm() - 10 * t.norm()) > 1e-6 || std::abs(e.dot(q - p)) > 1e-6) continue;
        found = true;
        a.push_back({{"kind", upright ? "upright" : "level"}, {"x", Num(p.x())}, {"y", Num(p.y())}, {"z", Num(p.z())}, {"dx", Num((q.x() - p.x()) * 10)}, {"dy", Num((q.y() - p.y()) * 10)}});
      }
      if (!found) a.push_back("no arrow");
    }
    return a;
  }
  json Write(const json& c, utility::ObjFeatures f) {
    const auto& o = c["o"];
    f.origin = api::InertialPosition(o["x"].get<double>() * u_, o["y"].get<double>() * u_, o["z"].get<double>() * u_);
    const bool urdf = c["f"]["urdf"];
    St bad = "consistent";
    if (urdf) utility::GenerateUrdfFile(rg_, Dir(), "out", f);
    else if (c["f"]["net"]) utility::GenerateObjFile(net_.get(), Dir(), "out", f);
    else utility::GenerateObjFile(rg_, Dir(), "out", f);
    std::set<St> files;
    for (const auto& e : fs::directory_iterator(Dir())) files.insert(e.path().filename());
    if (files != (urdf ? std::set<St>{"out.mtl", "out.obj", "out.urdf"} : std::set<St>{"out.mtl", "out.obj"})) bad = "other files";
    if (urdf) {
      std::ifstream in(Dir() + "/out.urdf");
      const St text((std::istreambuf_iterator<char>(in)), {});
      if (text.find("filename=\"out.obj\"") == St::npos || text.find("name=\"rg\"") == St::npos) bad = "urdf of something else";
    }
    std::set<St> materials;
    {
      std::ifstream in(Dir() + "/out.mtl");
      St line, w, x;
      while (std::getline(in, line)) {
        std::istringstream is(line);
        if (is >> w && w == "newmtl" && is >> x && !materials.insert(x).second) bad = "a material twice";
      }
    }
    std::map<St, Faces> parts;
    std::vector<V3> vs, ns;
    {
      std::ifstream in(Dir() + "/out.obj");
      St line, group;
      bool lib = false;
      while (std::getline(in, line)) {
        std::istringstream is(line);
        St w, x;
        if (!(is >> w) || w[0] == '#') continue;
        if (w == "mtllib") lib = (is >> x) && x == "out.mtl";
        else if (w == "usemtl") {
          is >> group;
          if (!materials.count(group)) bad = "an unknown material";
        } else if (w == "v" || w == "vn") {
          double a, b, d;
          if (!(is >> a >> b >> d)) bad = "not a vertex";
          (w == "v" ? vs : ns).push_back(w == "v" ? V3(a, b, d) * (1 / u_) : V3(a, b, d));
        } else if (w == "f") {
          Face f2;
          bool up = true;
          while (is >> x) {
            int a = 0, b = 0;
            if (std::sscanf(x.c_str(), "%d//%d", &a, &b) != 2 || a < 1 || a > (int)vs.size() || b < 1 || b > (int)ns.size()) {
              bad = "a face without vertices";
              continue;
            }
            f2.push_back(vs[a - 1]);
            up = up && ns[b - 1].z() > -1e-9;
          }
          if (!up) std::reverse(f2.begin(), f2.end());
          parts[kNames.count(group) ? kNames.at(group) : group].push_back(f2);
        } else bad = "an unknown statement";
      }
      if (!lib) bad = "no materials";
    }
    for (const auto& e : fs::directory_iterator(Dir())) fs::remove(e.path());
    json r{{"files", bad}, {"glow", parts["glow"].size()}};
    oz_ = o["z"];
    for (const char* k : {"asphalt", "lane", "marker", "h_bounds", "grayed_asphalt", "grayed_lane", "grayed_marker", "sidewalk"}) {
      for (auto& x : parts[k])
        for (auto& v : x) v = V3(v.x(), v.y(), std::abs(v.z() - std::round(v.z())) < 5e-3 ? std::round(v.z()) : v.z());
      r["cells"][k] = Cells(parts[k], St(k) == "marker" || St(k) == "grayed_marker" ? c["f"]["stripeh"].get<int>() : kAll);
    }
    oz_ = 0;
    return r;
  }
  json Num(double d) const { return std::abs(d - std::round(d)) < 1e-6 ? json(std::lround(d)) : json(d); }
  double u_;
  json c_;
  int n_, oz_{0};
  double lin_;
  St dir_;
  std::unique_ptr<api::RoadNetwork> net_;
  const api::RoadGeometry* rg_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
