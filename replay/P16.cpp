// Cases: paths (and pairs for CombinePaths), all strings up to length 6 over {a,/,.}, dictionary words,
// counterexample values and random strings; non-trivial when distinct.
#include "lpv.h"
#include <lamppost/Filesystem.h>
using lp::Filesystem;

static void one(const std::string& p) {
  lpv::count(p);
  size_t s = p.rfind('/');
  std::string f = s == std::string::npos ? "" : p.substr(s + 1), d = s == std::string::npos ? "" : p.substr(0, s);
  size_t t = f.rfind('.');
  std::string e = t == std::string::npos ? "" : f.substr(t + 1);
  try {
    std::string g = Filesystem::GetFilename(p);
    lpv::check(g == f, [&] { return "GetFilename(" + lpv::show(p) + ") = " + lpv::show(g); });
    g = Filesystem::GetBaseDirectory(p);
    lpv::check(g == d, [&] { return "GetBaseDirectory(" + lpv::show(p) + ") = " + lpv::show(g); });
    g = Filesystem::GetFileExtension(p);
    lpv::check(g == e, [&] { return "GetFileExtension(" + lpv::show(p) + ") = " + lpv::show(g); });
  } catch(std::exception& x) { lpv::fail("path helper throws for " + lpv::show(p) + ": " + x.what()); }
}
static void two(const std::string& a, const std::string& b) {
  lpv::count(a + "\1" + b);
  std::string g = Filesystem::CombinePaths(a, b);
  lpv::check(g == a + "/" + b, [&] { return "CombinePaths(" + lpv::show(a) + ", " + lpv::show(b) + ") = " + lpv::show(g); });
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::vector<std::string> words{""};
  const char al[] = "a/.";
  for(size_t i = 0; i < words.size(); ++i) if(words[i].size() < 6) for(int c = 0; c < 3; ++c) words.push_back(words[i] + al[c]);
  for(auto& w : words) one(w);
  for(auto& a : words) if(a.size() <= 3) for(auto& b : words) if(b.size() <= 3) two(a, b);
  std::vector<std::string> w = lpv::cex;
  for(auto& d : lpv::dict) w.push_back(d);
  for(auto& a : w) { one(a); one("/x/" + a); one(a + "/x.y"); two(a, "x"); two("x", a); two(a, a); }
  for(auto& a : lpv::cex) for(auto& b : lpv::cex) two(a, b);
  for(long i = 0; i < lpv::scale(40000); ++i) { one(lpv::str("ab/.")); two(lpv::str("ab/."), lpv::str("ab/.")); }
  return lpv::done();
}
