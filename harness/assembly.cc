// Conformance driver of spec/Assembly.tla: road geometry assembly and id indices.
#include "drv.h"
#include "geo.h"
#include "maliput/api/basic_id_index.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) : cfg_(cfg), rg_(std::make_unique<geo::RoadGeometry>(api::RoadGeometryId("rg"), .1, .1, 1., math::Vector3(0, 0, 0))) {
    for (const auto& e : cfg["elems"]) {
      const St h = e["h"], k = e["kind"], id = e["id"];
      kind_[h] = k;
      if (k == "J") j_[h] = (lj_[h] = std::make_unique<geo::Junction>(api::JunctionId(id))).get();
      if (k == "S") s_[h] = (ls_[h] = std::make_unique<geo::Segment>(api::SegmentId(id))).get();
      if (k == "L") l_[h] = (ll_[h] = std::make_unique<geo::Lane>(geo::LaneSpec{id})).get();
      if (k == "B") b_[h] = (lb_[h] = std::make_unique<geo::BranchPoint>(api::BranchPointId(id))).get();
    }
  }
  json Do(const json& c) override {
    if (dead_) return "skip";
    const St p = c["p"];
    if (c["op"] == "AttachNull") {
      const St k = c["kind"];
      if (k == "J") rg_->AddJunction(std::unique_ptr<geo::Junction>());
      if (k == "B") rg_->AddBranchPoint(std::unique_ptr<geo::BranchPoint>());
      if (k == "S") j_.at(p)->AddSegment(std::unique_ptr<geo::Segment>());
      if (k == "L") s_.at(p)->AddLane(std::unique_ptr<geo::Lane>());
      return "ok";
    }
    const St h = c["h"], k = kind_.at(h);
    try {
      const void* got = nullptr;
      const void* want = nullptr;
      if (k == "J") want = j_.at(h), got = rg_->AddJunction(std::move(lj_.at(h)));
      if (k == "B") want = b_.at(h), got = rg_->AddBranchPoint(std::move(lb_.at(h)));
      if (k == "S") want = s_.at(h), got = j_.at(p)->AddSegment(std::move(ls_.at(h)));
      if (k == "L") want = l_.at(h), got = s_.at(p)->AddLane(std::move(ll_.at(h)));
      up_[h] = p;
      if (got != want) return "another object";
    } catch (...) {
      dead_ = true;
      throw;
    }
    return "ok";
  }
  json Obs() override {
    json o{{"dead", dead_}};
    for (const char* k : {"kids", "up", "lanes", "byid", "walk", "all", "n"}) o[k] = json::array();
    // children as each parent has them
    Kids(&o, "rg", "J", rg_->num_junctions(), [&](int i) { return Name(j_, rg_->junction(i)); });
    Kids(&o, "rg", "B", rg_->num_branch_points(), [&](int i) { return Name(b_, rg_->branch_point(i)); });
    for (const auto& [h, j] : j_)
      if (Known(h)) Kids(&o, h, "S", j->num_segments(), [&, j = j](int i) { return Name(s_, j->segment(i)); });
    for (const auto& [h, s] : s_)
      if (Known(h)) Kids(&o, h, "L", s->num_lanes(), [&, s = s](int i) { return Name(l_, s->lane(i)); });
    for (const auto& [h, p] : up_) {
      if (!Known(h)) continue;
      const St k = kind_[h];
      St q;
      if (k == "J") q = j_[h]->road_geometry() == rg_.get() ? "rg" : "none";
      if (k == "B") q = b_[h]->road_geometry() == rg_.get() ? "rg" : "none";
      if (k == "S") q = Name(j_, s_[h]->junction());
      if (k == "L") q = Name(s_, l_[h]->segment());
      o["up"].push_back({{"h", h}, {"p", q}});
      if (k == "L")
        o["lanes"].push_back({{"h", h}, {"index", l_[h]->index()}, {"left", Seen(l_, l_[h]->to_left())}, {"right", Seen(l_, l_[h]->to_right())}});
    }
    api::BasicIdIndex idx;
    if (!dead_) idx.WalkAndAddAll(rg_.get());
    std::set<std::pair<St, St>> done;
    for (const auto& e : cfg_["elems"]) {
      const St k = e["kind"], id = e["id"];
      if ((dead_ && !Rooted(e["h"])) || !done.insert({k, id}).second) continue;
      const St h = Find(rg_->ById(), k, id);
      o["byid"].push_back({{"kind", k}, {"id", id}, {"h", h}});
      if (!dead_) o["walk"].push_back({{"kind", k}, {"id", id}, {"h", Find(idx, k, id)}});
    }
    if (!dead_)
      for (const auto& kv : rg_->ById().GetLanes()) o["all"].push_back({{"id", kv.first.string()}, {"h", Name(l_, kv.second)}});
    return o;
  }

 private:
  template <class F>
  void Kids(json* o, const St& p, const St& k, int n, F f) {
    for (int i = 0; i < n; ++i) {
      const St h = f(i);
      if (!dead_ || Rooted(h)) (*o)["kids"].push_back({{"p", p}, {"i", i}, {"h", h}});
    }
    if (!dead_) (*o)["n"].push_back({{"p", p}, {"k", k}, {"n", n}});
  }
  // is the object sure to be alive (a refused object, and what was attached to it, may be gone)
  bool Known(const St& h) const { return !dead_ || Rooted(h); }
  bool Rooted(const St& h) const {
    if (h == "rg") return true;
    const auto it = up_.find(h);
    return it != up_.end() && Rooted(it->second);
  }
  template <class T, class U>
  St Name(const std::map<St, T*>& m, const U* p) const {
    if (!p) return "none";
    for (const auto& kv : m)
      if (kv.second == p) return kv.first;
    return "stray";
  }
  template <class T, class U>
  St Seen(const std::map<St, T*>& m, const U* p) const {
    const St h = Name(m, p);
    return dead_ && !Rooted(h) ? "none" : h;
  }
  St Find(const api::RoadGeometry::IdIndex& x, const St& k, const St& id) const {
    if (k == "J") return Name(j_, x.GetJunction(api::JunctionId(id)));
    if (k == "S") return Name(s_, x.GetSegment(api::SegmentId(id)));
    if (k == "L") return Name(l_, x.GetLane(api::LaneId(id)));
    return Name(b_, x.GetBranchPoint(api::BranchPointId(id)));
  }
  json cfg_;
  bool dead_{false};
  std::map<St, St> kind_, up_;
  std::map<St, std::unique_ptr<geo::Lane>> ll_;
  std::map<St, std::unique_ptr<geo::Segment>> ls_;
  std::map<St, std::unique_ptr<geo::Junction>> lj_;
  std::map<St, std::unique_ptr<geo::BranchPoint>> lb_;
  std::map<St, geo::Lane*> l_;
  std::map<St, geo::Segment*> s_;
  std::map<St, geo::Junction*> j_;
  std::map<St, geo::BranchPoint*> b_;
  std::unique_ptr<geo::RoadGeometry> rg_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Sut>(c); });
}
