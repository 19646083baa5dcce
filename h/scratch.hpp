#ifndef SCRATCH_HPP_
#define SCRATCH_HPP_
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
// an own directory, current while it exists; with its files in it and in maps/ removed at the end
struct Scratch
{
  std::string dir; char old[4096];
  Scratch()
  {
    const char * t = getenv("TMPDIR");
    dir = std::string(t ? t : "/tmp") + "/runXXXXXX";
    if (!mkdtemp(dir.data()) || !getcwd(old, sizeof old) || chdir(dir.c_str())) {abort();}
  }
  static std::vector<std::string> Files(const std::string & d)
  {
    std::vector<std::string> r; DIR * p = opendir(d.c_str());
    if (!p) {return r;}
    while (auto * e = readdir(p)) {const std::string n = e->d_name; if (n != "." && n != "..") {r.push_back(n);}}
    closedir(p); return r;
  }
  static std::string Bytes(const std::string & f) {std::ifstream s(f, std::ios::binary); std::stringstream b; b << s.rdbuf(); return b.str();}
  static bool Exists(const std::string & f) {struct stat s; return stat(f.c_str(), &s) == 0;}
  ~Scratch()
  {
    for (auto & f : Files(dir + "/maps")) {unlink((dir + "/maps/" + f).c_str());}
    rmdir((dir + "/maps").c_str());
    for (auto & f : Files(dir)) {unlink((dir + "/" + f).c_str());}
    if (chdir(old)) {abort();}
    rmdir(dir.c_str());
  }
};
#endif
