// Conformance driver of spec/Branches.tla: branch points and segment connectivity.
#include "drv.h"
#include "geo.h"
#include "maliput/utility/segment_analysis.h"
using namespace maliput;
using drv::json;
using St = std::string;

class Sut : public drv::Sut {
 public:
  explicit Sut(const json& cfg) : cfg_(cfg) {
    json segs = json::array();
    for (const auto& l : cfg["lanes"]) {
      json* s = nullptr;
      for (auto& x : segs)
        if (x["id"] == l["seg"]) s = &x;
      if (!s) {
        segs.push_back({{"id", l["seg"]}, {"lanes", json::array()}});
        s = &segs.back();
      }
      (*s)["lanes"].push_back({{"id", l["id"]}});
    }
    json j = json::array(), b = json::array();
    int n = 0;
    for (const auto& s : segs) j.push_back({{"id", "j" + std::to_string(n++)}, {"segments", json::array({s})}});
    rg_ = geo::Build({{"junctions", j}});
    for (const auto& x : cfg["bps"]) b_[x] = rg_->AddBranchPoint(std::make_unique<geo::BranchPoint>(api::BranchPointId(x.get<St>())));
    for (const auto& l : cfg["lanes"])
      l_[l["id"]] = const_cast<geo::Lane*>(dynamic_cast<const geo::Lane*>(rg_->ById().GetLane(api::LaneId(l["id"].get<St>()))));
  }
  json Do(const json& c) override {
    auto* b = b_.at(c["bp"]);
    if (c["op"] == "Add") {
      auto* l = c["lane"] == "null" ? nullptr : l_.at(c["lane"]);
      if (c["side"] == "A") b->AddABranch(l, geo::End(c["end"]));
      else b->AddBBranch(l, geo::End(c["end"]));
    } else {
      b->SetDefault({l_.at(c["lane"]), geo::End(c["end"])}, {l_.at(c["to"]), geo::End(c["toend"])});
    }
    return "ok";
  }
  json Obs() override {
    json o;
    for (const char* k : {"sides", "at", "loose", "comp"}) o[k] = json::array();
    for (const auto& [n, b] : b_) {
      o["sides"].push_back({{"bp", n}, {"side", "A"}, {"ends", Ends(b->GetASide())}});
      o["sides"].push_back({{"bp", n}, {"side", "B"}, {"ends", Ends(b->GetBSide())}});
    }
    bool all = true;
    for (const auto& [n, l] : l_)
      for (const auto e : {api::LaneEnd::kStart, api::LaneEnd::kFinish}) {
        const auto* b = l->GetBranchPoint(e);
        if (!b) {
          all = false;
          o["loose"].push_back({{"lane", n}, {"end", geo::EndName(e)}});
          continue;
        }
        St bn = "stray";
        for (const auto& kv : b_)
          if (kv.second == b) bn = kv.first;
        const api::LaneEnd le(l, e);
        json r{{"lane", n}, {"end", geo::EndName(e)}, {"bp", bn}};
        // the same answers from the branch point and from the lane
        r["conf"] = Both(Ends(b->GetConfluentBranches(le)), Ends(l->GetConfluentBranches(e)));
        r["ong"] = Both(Ends(b->GetOngoingBranches(le)), Ends(l->GetOngoingBranches(e)));
        r["def"] = Both(Def(b->GetDefaultBranch(le)), Def(l->GetDefaultBranch(e)));
        o["at"].push_back(r);
      }
    if (all) {
      for (const auto& s : utility::AnalyzeConfluentSegments(rg_.get())) {
        json c = json::array();
        for (const auto* x : s) c.push_back(x->id().string());
        o["comp"].push_back(c);
        for (const auto* x : s)
          if (utility::FindConfluentSegments(x) != s) o["comp"].push_back("FindConfluentSegments differs from " + x->id().string());
      }
    }
    return o;
  }

 private:
  static json Both(const json& a, const json& b) { return drv::Canon(a) == drv::Canon(b) ? a : json({{"bp", a}, {"lane", b}}); }
  json End(const api::LaneEnd& e) const { return {{"lane", e.lane->id().string()}, {"end", geo::EndName(e.end)}}; }
  json Ends(const api::LaneEndSet* s) const {
    json a = json::array();
    if (!s) return "null";
    for (int i = 0; i < s->size(); ++i) a.push_back(End(s->get(i)));
    return a;
  }
  json Def(const std::optional<api::LaneEnd>& d) const { return d ? json::array({End(*d)}) : json::array(); }
  json cfg_;
  std::unique_ptr<geo::RoadGeometry> rg_;
  std::map<St, geo::BranchPoint*> b_;
  std::map<St, geo::Lane*> l_;
};
int main(int argc, char** argv) {
  return drv::Main(argc, argv, [](const json& c) { return std::make_unique<Sut>(c); });
}
