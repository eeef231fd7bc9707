// Conformance driver of spec/Lights.tla: traffic lights and their book.
#include <set>
#include <unordered_set>
#include "drv.h"
#include "geo.h"
#include "maliput/api/rules/traffic_lights.h"
#include "maliput/base/traffic_light_book.h"
using namespace maliput::api;
using namespace maliput::api::rules;
using maliput::math::Vector3;
using drv::json;
using St = std::string;

InertialPosition Pos(int k) { return InertialPosition(k, -k, 2 * k + .5); }
Rotation Rot(int k) { return Rotation::FromRpy(0, 0, .1 * k); }
json DecPos(const InertialPosition& p, const Rotation& r) {
  const int k = std::lround(p.x());
  const auto e = Pos(k);
  const bool ok = p.x() == e.x() && p.y() == e.y() && p.z() == e.z() && std::abs(r.yaw() - .1 * k) < 1e-12 && r.roll() == 0 && r.pitch() == 0;
  return ok ? json(k) : json("position");
}
Bulb::BoundingBox Bb(int k) {
  Bulb::BoundingBox b;
  if (k) {
    b.p_BMin = Vector3(-k, -2 * k, -3 * k);
    b.p_BMax = Vector3(k, 2 * k, 4 * k);
  }
  return b;
}
json DecBb(const Bulb::BoundingBox& b) {
  for (int k = 0; k < 9; ++k) {
    const auto e = Bb(k);
    if (e.p_BMin == b.p_BMin && e.p_BMax == b.p_BMax) return k;
  }
  return "box";
}
template <class E, class M>
E FromName(const M& mapper, const St& s) {
  for (const auto& kv : mapper)
    if (s == kv.second) return kv.first;
  throw std::runtime_error("driver: no such name " + s);
}

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) : cfg_(cfg) {}
  json Do(const json& c) override {
    const St op = c["op"], h = c.value("h", "");
    const int pos = c.value("pos", 0);
    if (op == "MakeBulb") {
      std::optional<double> arrow;
      if (c["arrow"].get<int>()) arrow = c["arrow"].get<double>();
      std::optional<std::vector<BulbState>> st;
      for (const auto& s : c["states"]) {
        if (!st) st.emplace();
        st->push_back(FromName<BulbState>(BulbStateMapper(), s));
      }
      if (!st && pos % 2) st.emplace();  // an empty list means the same as none
      const auto color = FromName<BulbColor>(BulbColorMapper(), c["color"]);
      const auto type = FromName<BulbType>(BulbTypeMapper(), c["type"]);
      auto b = c["bb"] == 0 ? std::make_unique<Bulb>(Bulb::Id(c["id"].get<St>()), Pos(pos), Rot(pos), color, type, arrow, st)
                            : std::make_unique<Bulb>(Bulb::Id(c["id"].get<St>()), Pos(pos), Rot(pos), color, type, arrow, st, Bb(c["bb"]));
      pb_[h] = b.get();
      loose_b_[h] = std::move(b);
    } else if (op == "MakeGroup") {
      std::vector<std::unique_ptr<Bulb>> kids;
      std::vector<St> names;
      for (const auto& k : geo::Ord(c["kids"])) {
        const St n = k["h"];
        names.push_back(n);
        kids.push_back(n == "null" ? nullptr : std::move(loose_b_.at(n)));
        loose_b_.erase(n);
      }
      std::unique_ptr<BulbGroup> g;
      try {
        g = std::make_unique<BulbGroup>(BulbGroup::Id(c["id"].get<St>()), Pos(pos), Rot(pos), std::move(kids));
      } catch (...) {
        for (const auto& n : names) pb_.erase(n);
        throw;
      }
      pg_[h] = g.get();
      kids_[h] = names;
      loose_g_[h] = std::move(g);
    } else if (op == "MakeLight") {
      std::vector<std::unique_ptr<BulbGroup>> kids;
      std::vector<St> names;
      for (const auto& k : geo::Ord(c["kids"])) {
        const St n = k["h"];
        names.push_back(n);
        kids.push_back(n == "null" ? nullptr : std::move(loose_g_.at(n)));
        loose_g_.erase(n);
      }
      std::unique_ptr<TrafficLight> t;
      try {
        t = std::make_unique<TrafficLight>(TrafficLight::Id(c["id"].get<St>()), Pos(pos), Rot(pos), std::move(kids));
      } catch (...) {
        for (const auto& n : names) DropGroup(n);
        throw;
      }
      pt_[h] = t.get();
      kids_[h] = names;
      loose_t_[h] = std::move(t);
    } else if (op == "AddLight") {
      auto t = std::move(loose_t_.at(h));
      loose_t_.erase(h);
      try {
        book_.AddTrafficLight(std::move(t));
      } catch (...) {
        pt_.erase(h);
        for (const auto& n : kids_[h]) DropGroup(n);
        throw;
      }
    } else if (op == "AddNull") {
      book_.AddTrafficLight(nullptr);
    }
    return "ok";
  }
  json Obs() override {
    json o{{"bulbs", json::array()}, {"groups", json::array()}, {"lights", json::array()}};
    std::vector<std::pair<St, UniqueBulbId>> ub;
    std::vector<std::pair<St, UniqueBulbGroupId>> ug;
    for (const auto& [h, b] : pb_) {
      json r{{"h", h}, {"id", b->id().string()}, {"color", BulbColorMapper().at(b->color())}, {"type", BulbTypeMapper().at(b->type())},
             {"arrow", b->arrow_orientation_rad() ? (int)*b->arrow_orientation_rad() : 0}, {"pos", DecPos(b->position_bulb_group(), b->orientation_bulb_group())},
             {"bb", DecBb(b->bounding_box())}, {"def", BulbStateMapper().at(b->GetDefaultState())}};
      r["states"] = r["valid"] = json::array();
      for (const auto& s : b->states()) r["states"].push_back(BulbStateMapper().at(s));
      for (const auto& kv : BulbStateMapper())
        if (b->IsValidState(kv.first)) r["valid"].push_back(kv.second);
      r["owner"] = Name(pg_, b->bulb_group(), "");
      try {
        const auto u = b->unique_id();
        r["uid"] = u.string();
        r["parts"] = Parts({u.traffic_light_id().string(), u.bulb_group_id().string(), u.bulb_id().string()});
        ub.emplace_back(h, u);
      } catch (const std::exception&) {
        r["uid"] = "throws";
        r["parts"] = Parts({"throws"});
      }
      o["bulbs"].push_back(r);
    }
    for (const auto& [h, g] : pg_) {
      json r{{"h", h}, {"id", g->id().string()}, {"pos", DecPos(g->position_traffic_light(), g->orientation_traffic_light())},
             {"owner", Name(pt_, g->traffic_light(), "")}, {"byid", json::array()}, {"kids", json::array()}};
      int i = 0;
      for (const Bulb* b : g->bulbs()) r["kids"].push_back({{"i", ++i}, {"h", Name(pb_, b, "none")}});
      for (const auto& n : cfg_["bids"]) r["byid"].push_back({{"id", n}, {"h", Name(pb_, g->GetBulb(Bulb::Id(n.get<St>())), "none")}});
      try {
        const auto u = g->unique_id();
        r["uid"] = u.string();
        r["parts"] = Parts({u.traffic_light_id().string(), u.bulb_group_id().string()});
        ug.emplace_back(h, u);
      } catch (const std::exception&) {
        r["uid"] = "throws";
        r["parts"] = Parts({"throws"});
      }
      o["groups"].push_back(r);
    }
    for (const auto& [h, t] : pt_) {
      json r{{"h", h}, {"id", t->id().string()}, {"pos", DecPos(t->position_road_network(), t->orientation_road_network())},
             {"byid", json::array()}, {"kids", json::array()}};
      int i = 0;
      for (const BulbGroup* g : t->bulb_groups()) r["kids"].push_back({{"i", ++i}, {"h", Name(pg_, g, "none")}});
      for (const auto& n : cfg_["gids"]) r["byid"].push_back({{"id", n}, {"h", Name(pg_, t->GetBulbGroup(BulbGroup::Id(n.get<St>())), "none")}});
      o["lights"].push_back(r);
    }
    o["book"] = json::array();
    for (const TrafficLight* t : book_.TrafficLights()) o["book"].push_back(Name(pt_, t, "none"));
    o["bookid"] = json::array();
    for (const auto& n : cfg_["lids"])
      o["bookid"].push_back({{"id", n}, {"h", Name(pt_, book_.GetTrafficLight(TrafficLight::Id(n.get<St>())), "none")}});
    o["samebulb"] = Same(ub);
    o["samegroup"] = Same(ug);
    o["nbulbs"] = Count(ub);
    o["ngroups"] = Count(ug);
    return o;
  }

 private:
  template <class T>
  static St Name(const std::map<St, T*>& m, const T* p, const St& none) {
    if (!p) return none;
    for (const auto& kv : m)
      if (kv.second == p) return kv.first;
    return "stray";
  }
  static json Parts(std::vector<St> p) {
    json a = json::array();
    for (size_t i = 0; i < p.size(); ++i) a.push_back({{"i", i + 1}, {"id", p[i]}});
    return a;
  }
  template <class U>
  static json Same(const std::vector<std::pair<St, U>>& v) {
    json a = json::array();
    const std::less<U> less{};
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = i; j < v.size(); ++j) {
        const bool eq = v[i].second == v[j].second;
        const int n = less(v[i].second, v[j].second) + less(v[j].second, v[i].second);
        const bool hash = std::hash<U>{}(v[i].second) == std::hash<U>{}(v[j].second);
        const bool sane = (v[i].second != v[j].second) == !eq && n == (eq ? 0 : 1) && (!eq || hash);
        if (!sane) a.push_back("inconsistent comparison of " + v[i].first + " and " + v[j].first);
        if (eq && i != j) a.push_back(json::array({v[i].first, v[j].first}));
      }
    return a;
  }
  template <class U>
  static json Count(const std::vector<std::pair<St, U>>& v) {
    std::set<U> s;
    std::unordered_set<U> u;
    for (const auto& x : v) {
      s.insert(x.second);
      u.insert(x.second);
    }
    return s.size() == u.size() ? json(s.size()) : json("sets differ");
  }
  void DropGroup(const St& n) {
    for (const auto& k : kids_[n]) pb_.erase(k);
    pg_.erase(n);
  }
  json cfg_;
  maliput::TrafficLightBook book_;
  std::map<St, std::unique_ptr<Bulb>> loose_b_;
  std::map<St, std::unique_ptr<BulbGroup>> loose_g_;
  std::map<St, std::unique_ptr<TrafficLight>> loose_t_;
  std::map<St, Bulb*> pb_;
  std::map<St, BulbGroup*> pg_;
  std::map<St, TrafficLight*> pt_;
  std::map<St, std::vector<St>> kids_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Sut>(c); });
}
