#pragma once
#include <sys/stat.h>
#include <string>
namespace rcpputils::fs
{
class path
{
public:
  path(const std::string & s) : s_(s) {}
  path(const char * s) : s_(s) {}
  bool exists() const {struct stat st; return stat(s_.c_str(), &st) == 0;}
  std::string string() const {return s_;}
private:
  std::string s_;
};
inline bool exists(const path & p) {return p.exists();}
}
