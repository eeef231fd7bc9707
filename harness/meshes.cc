// Conformance driver of spec/Mesh.tla: simplification of meshes.  A unit is u; axis turns the terrain onto its side.
#include <map>
#include <set>

#include "drv.h"
#include "maliput/utility/mesh.h"
#include "maliput/utility/mesh_simplification.h"
using namespace maliput;
using drv::json;
using St = std::string;
using V3 = math::Vector3;
using utility::mesh::GeoFace;
using utility::mesh::GeoMesh;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& c) : u_(c["u"].get<double>()), axis_(c["axis"]) {}
  json Do(const json& c) override {
    const St op = c["op"];
    if (op == "Idle") return "ok";
    if (op != "Simplify") throw std::logic_error("op");
    const auto z = [&](int i, int j) { return c["h"][j][i].get<int>(); };
    GeoMesh first, second;
    const size_t rot = c["rot"].get<size_t>();
    size_t n = 0;
    std::set<std::vector<long>> known;
    for (const auto& cell : c["cells"]) {
      const int i = cell["i"], j = cell["j"], k = cell["k"];
      const std::vector<std::pair<int, int>> p{{i, j}, {i + 1, j}, {i + 1, j + 1}, {i, j + 1}};
      std::vector<std::vector<int>> fs;
      if (k == 0) fs = {{0, 1, 2, 3}};
      if (k == 1) fs = {{0, 1, 2}, {2, 3, 0}};
      if (k == 2) fs = {{3, 0, 1}, {1, 2, 3}};
      for (const auto& f : fs) {
        std::vector<V3> v;
        for (size_t x = 0; x < f.size(); ++x) {
          const auto q = p[f[(x + rot) % f.size()]];
          v.push_back(V3(q.first, q.second, z(q.first, q.second)));
          known.insert(Key(v.back()));
        }
        const V3 nrm = (v[1] - v[0]).cross(v[2] - v[1]);
        GeoFace g;
        for (const auto& w : v)
          g.push_vn(utility::mesh::GeoVertex(api::InertialPosition::FromXyz(To(w) * u_)),
                    utility::mesh::GeoNormal(api::InertialPosition::FromXyz(To(nrm.normalized()))));
        (3 * n++ < c["cells"].size() ? first : second).PushFace(g);
      }
    }
    GeoMesh in;
    in.AddFacesFrom(first);
    in.AddFacesFrom(second);
    const GeoMesh out = utility::mesh::SimplifyMeshFaces(in, 1e-3 * u_);
    St cover = "once";
    std::map<std::vector<int>, int> seen;
    json faces = json::array();
    for (const auto& f : out.faces()) {
      std::vector<V3> v;
      for (const auto& x : f.vertices()) {
        v.push_back(From(out.get_vertex(x.vertex_index).v().xyz() * (1 / u_)));
        if (!known.count(Key(v.back()))) cover = "at other points";
        const V3 m = From(out.get_normal(x.normal_index).n().xyz());
        if (!(m.z() > 0)) cover = "with other normals";
      }
      json ws = json::array();
      for (const auto& cell : c["cells"])
        for (const char* w : {"s", "e", "n", "w"}) {
          const double x = cell["i"].get<int>() + (*w == 'e' ? .8 : *w == 'w' ? .2 : .5), y = cell["j"].get<int>() + (*w == 'n' ? .8 : *w == 's' ? .2 : .5);
          const int t = Winding(v, x, y);
          if (t == 0) continue;
          if (t != 1) cover = "in other directions";
          ++seen[{cell["i"].get<int>(), cell["j"].get<int>(), *w}];
          ws.push_back({{"i", cell["i"]}, {"j", cell["j"]}, {"w", w}});
        }
      // beyond the mesh
      for (int i = -1; i <= (int)c["h"][0].size(); ++i)
        for (int j = -1; j <= (int)c["h"].size(); ++j) {
          bool mine = false;
          for (const auto& cell : c["cells"]) mine = mine || (cell["i"] == i && cell["j"] == j);
          for (auto d : {std::make_pair(.5, .2), std::make_pair(.2, .5), std::make_pair(.8, .5), std::make_pair(.5, .8)})
            if (!mine && Winding(v, i + d.first, j + d.second) != 0) cover = "beyond the mesh";
        }
      faces.push_back({{"w", ws}, {"nv", v.size()}});
    }
    for (const auto& s : seen)
      if (s.second != 1) cover = "twice";
    if (seen.size() != 4 * c["cells"].size()) cover = "in part";
    return {{"cover", cover}, {"faces", faces}};
  }
  json Obs() override { return 0; }

 private:
  static std::vector<long> Key(const V3& v) { return {std::lround(v.x() * 1e6), std::lround(v.y() * 1e6), std::lround(v.z() * 1e6)}; }
  static int Winding(const std::vector<V3>& v, double x, double y) {
    int t = 0;
    for (size_t k = 0; k < v.size(); ++k) {
      const V3 &a = v[k], &b = v[(k + 1) % v.size()];
      const double side = (b.x() - a.x()) * (y - a.y()) - (x - a.x()) * (b.y() - a.y());
      if (a.y() <= y && b.y() > y && side > 0) ++t;
      if (a.y() > y && b.y() <= y && side < 0) --t;
    }
    return t;
  }
  V3 To(const V3& v) const { return axis_ == 0 ? v : axis_ == 1 ? V3(v.z(), v.x(), v.y()) : V3(v.y(), v.z(), v.x()); }
  V3 From(const V3& v) const { return axis_ == 0 ? v : axis_ == 1 ? V3(v.y(), v.z(), v.x()) : V3(v.z(), v.x(), v.y()); }
  double u_;
  int axis_;
};

int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& cfg) { return std::make_unique<Sut>(cfg); });
}
