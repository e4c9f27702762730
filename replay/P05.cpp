// Cases: random payloads; paths made from existing keys, truncated and extended paths, doubled, leading and trailing
// slashes and random text; every value type; the oracle descends the reference model one key per segment.
#include "tree.h"
using namespace lpvtree;
static const M* walk(const M& m, const std::string& path) {
  const M* p = &m;
  std::string rest = path;
  while(!rest.empty()) {
    size_t at = rest.find('/');
    std::string seg = rest.substr(0, at);
    rest = at == std::string::npos ? "" : rest.substr(at + 1);
    if(p->k != D) return nullptr;
    auto it = p->d.find(seg);
    if(it == p->d.end()) return nullptr;
    p = &it->second;
  }
  return p;
}
static M bushy(int depth) {
  M m; m.k = D; size_t n = 1 + lpv::rnd(4);
  for(size_t i = 0; i < n; ++i) m.d[lpv::rnd(6) ? std::string(1, 'a' + lpv::rnd(4)) : lpv::rnd(2) ? key() : std::string()] = depth > 0 && lpv::rnd(3) ? bushy(depth - 1) : tree(1);
  return m;
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(3000); ++r) {
    M m = lpv::rnd(5) ? bushy(3) : tree(3);
    RP n = build(m);
    DG d(n);
    for(int q = 0; q < 12; ++q) {
      std::string path; const M* p = &m; bool first = true;
      if(lpv::rnd(8)) while(p->k == D && !p->d.empty() && lpv::rnd(6)) { auto it = p->d.begin(); std::advance(it, lpv::rnd(p->d.size())); path += (first ? "" : "/") + it->first; first = false; p = &it->second; }
      switch(lpv::rnd(9)) { case 0: path += "/"; break; case 1: path = "/" + path; break; case 2: path += "/" + key(); break; case 3: path += "x"; break; case 4: { size_t at = path.find('/'); if(at != std::string::npos) path.insert(at, "/"); break; } case 5: if(lpv::rnd(2)) path = lpv::str("ab/"); break; default: break; }
      const M* w = walk(m, path);
      std::string ctx = "looking up " + lpv::show(path) + " in " + show(m);
      std::string ds = lpv::str(); int di = (int)lpv::integer(); double dd = real(); bool db = lpv::rnd(2);
      std::string es = w && w->k == VS ? w->s : ds; int ei = w && w->k == VI ? w->i : di; double ed = w && w->k == VD ? w->x : dd; bool eb = w && w->k == VB ? w->b : db;
      try {
        lpv::check(n->Get<std::string>(path, ds) == es && d.Get<std::string>(path, ds) == es, [&] { return ctx + ": string " + lpv::show(n->Get<std::string>(path, ds)) + " instead of " + lpv::show(es); });
        lpv::check(n->Get<int>(path, di) == ei && d.Get<int>(path, di) == ei, [&] { return ctx + ": int " + std::to_string(n->Get<int>(path, di)) + " instead of " + std::to_string(ei); });
        lpv::check(dsame(n->Get<double>(path, dd), ed) && dsame(d.Get<double>(path, dd), ed), [&] { return ctx + ": wrong double"; });
        lpv::check(n->Get<bool>(path, db) == eb && d.Get<bool>(path, db) == eb, [&] { return ctx + ": wrong bool"; });
      } catch(std::exception& e) { lpv::fail(ctx + ": throws " + e.what()); }
      lpv::count(ctx);
    }
    expect(*n, m, "lookup changed the tree");
  }
  return lpv::done();
}
