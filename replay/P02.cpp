// Cases: random payloads copied through every copying operation (node copy, datagram copy and assignment, message
// construction, copy, assignment and payload reading); the result is compared with a reference model and has no node
// in common with the source; then either side is edited at random depth and the other one compared again.
#include "tree.h"
using namespace lpvtree;
static RP node_of(const DG& d) { static_assert(sizeof(DG) == sizeof(RP), "a datagram is one node pointer"); return *reinterpret_cast<const RP*>(&d); }
static void apart(const RP& a, const M& ma, const RP& b, const M& mb, const std::string& ctx) {
  std::vector<RawDatagram*> x, y;
  nodes(a, ma, x); nodes(b, mb, y);
  std::set<RawDatagram*> s(x.begin(), x.end());
  for(RawDatagram* n : y) lpv::check(!s.count(n), [&] { return ctx + ": a node is shared"; });
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(2200); ++r) {
    M m = tree(3), c = m;
    RP n = build(m);
    std::string ctx = "copying " + show(m);
    RP k;
    DG d(n), e, *ep = &e;
    std::vector<MSG> keep; std::shared_ptr<MSG> again; const M orig = m;
    switch(lpv::rnd(9)) {
      case 0: k = n->Copy(); ctx += " by node copy"; break;
      case 1: { const DG& cd = d; DG f(cd); k = node_of(f); ctx += " by datagram copy"; break; }
      case 2: { DG f(d); k = node_of(f); ctx += " by datagram copy"; break; }
      case 3: { M t = tree(2); DG f(build(t)); const DG& cd = d; DG& res = (f = cd); ctx += " by assignment over " + show(t); lpv::check(&res == &f, [&] { return ctx + ": yields another datagram"; }); k = node_of(f); break; }
      case 4: { MSG g("s", "t", d); keep.push_back(g); k = node_of(g.GetDatagram()); again = std::make_shared<MSG>("s", "t", d); ctx += " into a message"; lpv::check(g.GetSender() == "s" && g.GetTopic() == "t", [&] { return ctx + ": sender or topic wrong"; }); break; }
      case 5: { MSG g("s", "t", d); again = std::make_shared<MSG>(g); DG f = again->GetDatagram(), f2 = again->GetDatagram(); apart(node_of(f2), m, node_of(f), m, ctx); k = node_of(f); ctx += " out of a message"; break; }
      case 6: { MSG g("s", "t", d); MSG h(g); lpv::check(h.GetSender() == "s" && h.GetTopic() == "t", [&] { return ctx + ": sender or topic wrong"; }); k = node_of(h.GetDatagram()); again = std::make_shared<MSG>(h); if(lpv::rnd(2)) { *again = MSG("u", "v", DG(build(tree(1)))); *again = g; } ctx += " by message copy"; break; }
      case 7: { MSG g("s", "t", d), h("x", "y", DG(build(tree(2)))); h = g; lpv::check(h.GetSender() == "s" && h.GetTopic() == "t", [&] { return ctx + ": sender or topic wrong"; }); k = node_of(h.GetDatagram()); again = std::make_shared<MSG>(h); if(lpv::rnd(2)) { *again = MSG("u", "v", DG(build(tree(1)))); *again = g; } ctx += " by message assignment"; break; }
      default: { // assignment of a part over the whole, and of the whole over a part
        if(m.k == D && !m.d.empty()) {
          auto it = m.d.begin(); std::advance(it, lpv::rnd(m.d.size()));
          std::string key = it->first; M part = it->second;
          DG whole(n->Copy());
          if(lpv::rnd(2)) { DG p = whole[key]; whole = p; ctx += " part over whole"; expect(*node_of(whole), part, ctx); }
          else { DG p(node_of(whole)->Get(key)); p = whole; M w = m; w.d[key] = m; ctx += " whole over part"; expect(*node_of(whole), w, ctx); }
        }
        k = n->Copy();
      }
    }
    lpv::check((bool)k, [&] { return ctx + ": no copy"; });
    expect(*n, m, ctx + ": the source changed");
    expect(*k, c, ctx);
    apart(n, m, k, c, ctx);
    int steps = lpv::rnd(8);
    for(int i = 0; i < steps; ++i) {
      if(lpv::rnd(2)) ctx += "; edit source " + edit(n, &m); else ctx += "; edit copy " + edit(k, &c);
      expect(*n, m, ctx + ": the source differs"); expect(*k, c, ctx + ": the copy differs");
    }
    if(again) { DG f = again->GetDatagram(); expect(*node_of(f), orig, ctx + ": the message differs after edits elsewhere"); apart(n, m, node_of(f), orig, ctx); apart(k, c, node_of(f), orig, ctx); }
    lpv::count(ctx);
  }
  return lpv::done();
}
