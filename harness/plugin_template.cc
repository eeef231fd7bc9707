// A plugin whose id, tag and type are written over the text below in copies of the library.
#include <cstdlib>
#include <stdexcept>
#include "maliput/plugin/road_network_loader.h"
#include "plugin_out.h"
extern "C" {
volatile char kPluginData[128] = "@@VERIF-PLUGIN@@|";  // 24: id, 64: tag, 96: type
int PluginTag() { return atoi(const_cast<char*>(kPluginData) + 64); }
int Sum(int a, int b) { return PluginTag() * 1000 + 10 * a + b; }
#ifndef NO_ID
char* GetMaliputPluginId() { return const_cast<char*>(kPluginData) + 24; }
#endif
#ifndef NO_TYPE
maliput::plugin::MaliputPluginType GetMaliputPluginType() { return static_cast<maliput::plugin::MaliputPluginType>(atoi(const_cast<char*>(kPluginData) + 96)); }
#endif
}
namespace {
class Loader : public maliput::plugin::RoadNetworkLoader {
 public:
  std::unique_ptr<maliput::api::RoadNetwork> operator()(const std::map<std::string, std::string>& p) const override {
    if (p.count("fail")) throw std::runtime_error("fail");
    auto* out = reinterpret_cast<PluginOut*>(std::stoull(p.at("out")));
    out->tag = PluginTag();
    out->seen = p;
    return std::unique_ptr<maliput::api::RoadNetwork>(static_cast<maliput::api::RoadNetwork*>(out->network));
  }
  std::map<std::string, std::string> GetDefaultParameters() const override { return {{"tag", std::to_string(PluginTag())}}; }
};
}  // namespace
#ifndef NO_ENTRY
extern "C" maliput::plugin::RoadNetworkLoaderPtr MakeRoadNetworkLoader() { return new Loader(); }
#endif
