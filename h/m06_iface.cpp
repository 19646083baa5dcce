// what one program really subscribes to, publishes and declares; which program is chosen by PROGRAM
#include <cxxabi.h>
#include <cstdio>
#include <string>
#include "scratch.hpp"
#define main program_main
#include PROGRAM
#undef main
#ifdef LIDAR_FEATURE_LOCALIZATION__SUBSCRIBER_HPP_
#include <pcl/io/pcd_io.h>
#endif
static std::string Type(const std::type_index & t)
{
  int st; char * n = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st); std::string s(n ? n : t.name()); free(n);
  const auto k = s.find("_<"); if (k != std::string::npos) {s = s.substr(0, k);}
  return s;
}
static std::string out;
static void Dump()
{
  if (!out.empty()) {return;}
  auto & w = shim::world();
  out = "{\"subs\":[";
  bool first = true;
  for (auto & p : w.subs) {
    auto s = p.lock(); if (!s) {continue;}
    out += std::string(first ? "" : ",") + "{\"topic\":\"" + s->raw + "\",\"type\":\"" + Type(s->type) + "\",\"reliable\":" + (s->reliable ? "true" : "false") + ",\"transient_local\":" + (s->transient_local ? "true" : "false") + "}"; first = false;
  }
  out += "],\"pubs\":["; first = true;
  for (auto & p : w.pubs) {
    out += std::string(first ? "" : ",") + "{\"topic\":\"" + p.raw + "\",\"type\":\"" + Type(p.type) + "\",\"reliable\":" + (p.reliable ? "true" : "false") + ",\"transient_local\":" + (p.transient_local ? "true" : "false") + "}"; first = false;
  }
  out += "],\"params\":{"; first = true;
  static const char * kinds[] = {"bool", "int", "float", "str"};
  for (auto & [k, v] : w.declared) {out += std::string(first ? "" : ",") + "\"" + k + "\":\"" + kinds[v.index()] + "\""; first = false;}
  out += "}}";
}
int main(int argc, char ** argv)
{
  {
    Scratch s;
    shim::reset();
#ifdef LIDAR_FEATURE_LOCALIZATION__SUBSCRIBER_HPP_
    mkdir("maps", 0755);
    pcl::PointCloud<pcl::PointXYZ> c; for (int i = 0; i < 30; i++) {c.push_back(pcl::PointXYZ(i, i * i % 7, i % 3));}
    pcl::io::savePCDFileBinary("maps/edge.pcd", c); pcl::io::savePCDFileBinary("maps/surface.pcd", c);
#endif
    shim::world().params["pcd_filename"] = std::string("maps/none.pcd");
    shim::world().on_spin = Dump;
#ifdef COMPONENT                                            // argv[2] is the class the build registers
    std::shared_ptr<rclcpp::Node> node;
    if (shim::components().count(argv[2])) {node = shim::components()[argv[2]](); Dump();} else {out = "{\"subs\":[],\"pubs\":[],\"params\":{},\"missing\":true}";}
#else
    char name[] = "program"; char * a[] = {name, nullptr};
    program_main(1, a);
#endif
  }
  if (out.empty()) {return 3;}
  FILE * f = fopen(argv[1], "w"); fputs(out.c_str(), f); fclose(f);
  return 0;
}
