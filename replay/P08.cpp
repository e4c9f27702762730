// Cases: (pattern, topic) pairs; non-trivial when distinct. All pairs of strings up to length 3 over
// {a,*,/}, pairs of dictionary words and counterexample values, mutations of the catch-all, random pairs.
#include "lpv.h"
#include <lamppost/utilities/AntMatcher.h>

static void one(const std::string& p, const std::string& t) {
  lpv::count(p + "\1" + t);
  bool want = p == t || p == "/**/*", got = false;
  try { got = lp::utilities::AntMatcher::Matches(p, t); } catch(std::exception& e) { lpv::fail("Matches throws for pattern " + lpv::show(p) + " topic " + lpv::show(t)); }
  lpv::check(got == want, [&] { return "Matches(" + lpv::show(p) + ", " + lpv::show(t) + ") returned " + (got ? "true" : "false"); });
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::vector<std::string> words{""};
  const char al[] = "a*/";
  for(size_t i = 0; i < words.size(); ++i) if(words[i].size() < 3) for(int c = 0; c < 3; ++c) words.push_back(words[i] + al[c]);
  std::vector<std::string> w = lpv::cex;
  for(auto& d : lpv::dict) w.push_back(d);
  const std::string all = "/**/*";
  for(size_t i = 0; i <= all.size(); ++i) {
    for(char c : std::string("a*/ ?\0", 6)) { std::string m = all; m.insert(i, 1, c); w.push_back(m); if(i < all.size()) { m = all; m[i] = c; w.push_back(m); } }
    w.push_back(all.substr(0, i)); w.push_back(all.substr(i));
  }
  w.push_back("/a/b"); w.push_back("/a/*"); w.push_back("/a/**"); w.push_back("/A/B"); w.push_back("/a/b/"); w.push_back("//a/b"); w.push_back("*"); w.push_back("?");
  for(auto& a : words) { for(auto& b : words) one(a, b); for(auto& b : w) { one(a, b); one(b, a); } }
  if(w.size() > 400) w.resize(400);
  for(auto& a : w) for(auto& b : w) one(a, b);
  for(long i = 0; i < lpv::scale(60000); ++i) {
    std::string p = lpv::str("ab*/"), t = lpv::rnd(3) ? lpv::str("ab*/") : p;
    if(lpv::rnd(4) == 0 && !t.empty()) t[lpv::rnd(t.size())] = (char)lpv::rnd(256);
    if(lpv::rnd(4) == 0) t = p + lpv::str("a*/");
    one(p, t);
  }
  return lpv::done();
}
