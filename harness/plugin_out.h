// What a plugin tells the driver about the call that it got.
#pragma once
#include <map>
#include <string>
struct PluginOut {
  void* network;                           // what to return
  int tag{0};                              // of the plugin
  std::map<std::string, std::string> seen;  // the properties
};
