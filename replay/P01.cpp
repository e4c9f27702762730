// Cases: random messages over all payload shapes (empty containers, NUL bytes, long lists, deep nesting); each is
// serialised, read back and compared with the reference model; the original is compared afterwards and serialised again.
#include "tree.h"
using namespace lpvtree;
static_assert(sizeof(DG) == sizeof(RP), "handle");
static void plain(M& m) { if(m.k == VD && m.x == 0.0) m.x = 0.0; for(auto& c : m.l) plain(c); for(auto& p : m.d) plain(p.second); }
static std::string text() {
  switch(lpv::rnd(6)) { case 0: return ""; case 1: return std::string("a\0b", 3); case 2: return std::string(1 + lpv::rnd(400), 'y'); case 3: return "/s/\xc3\xa9"; default: return lpv::str("ab/1 "); }
}
static M big(int depth) {
  M m = tree(depth);
  switch(lpv::rnd(12)) {
    case 0: m = M(); m.k = L; break;
    case 1: m = M(); m.k = D; break;
    case 2: m = M(); m.k = L; for(size_t i = 0, n = lpv::rnd(700); i < n; ++i) m.l.push_back(M::integer((int)i)); break;
    case 3: m = M(); m.k = D; for(size_t i = 0, n = lpv::rnd(300); i < n; ++i) m.d["k" + std::to_string(lpv::rnd(100000))] = tree(1); m.d[""] = M::str(std::string("\0", 1)); m.d[std::string("x\0y", 3)] = M::boolean(true); m.d["x"] = M::real(lpv::rnd() * 1e-9); break;
    case 4: for(int i = 0, n = lpv::rnd(60); i < n; ++i) { M o; if(lpv::rnd(2)) { o.k = L; if(lpv::rnd(3) == 0) o.l.push_back(M()); o.l.push_back(m); } else { o.k = D; o.d[text()] = m; } m = o; } break;
    case 5: m = M::str(text()); break;
    default: break;
  }
  return m;
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(1000); ++r) {
    M m = r == 0 ? M() : big(3);
    plain(m);
    std::string s = text(), t = text();
    std::string ctx = "message from " + lpv::show(s) + " on " + lpv::show(t) + " with " + show(m);
    try {
      RP n = build(m);
      MSG msg(s, t, DG(n));
      auto bytes = msg.SerializeToBytes();
      lpv::check(bytes != nullptr && bytes->GetContent() != nullptr && bytes->GetSize() > 0, [&] { return ctx + ": no bytes"; });
      // the bytes as they arrive elsewhere: an exact copy, the first buffer gone
      void* c = malloc(bytes->GetSize()); memcpy(c, bytes->GetContent(), bytes->GetSize());
      auto moved = std::make_shared<lp::data::RawBytes>(c, bytes->GetSize());
      free(c);
      MSG back = MSG::Deserialize(lpv::rnd(2) ? moved : bytes);
      bytes.reset(); moved.reset();
      lpv::check(back.GetSender() == s, [&] { return ctx + ": sender " + lpv::show(back.GetSender()) + " came back"; });
      lpv::check(back.GetTopic() == t, [&] { return ctx + ": topic " + lpv::show(back.GetTopic()) + " came back"; });
      DG d = back.GetDatagram();
      expect(*reinterpret_cast<RP&>(d), m, ctx + ": came back");
      lpv::check(msg.GetSender() == s && msg.GetTopic() == t, [&] { return ctx + ": the original changed"; });
      DG o = msg.GetDatagram();
      expect(*reinterpret_cast<RP&>(o), m, ctx + ": the original payload changed");
      if(lpv::rnd(4) == 0) {
        MSG again = MSG::Deserialize(back.SerializeToBytes());
        DG e = again.GetDatagram();
        expect(*reinterpret_cast<RP&>(e), m, ctx + ": came back the second time");
      }
    } catch(std::exception& e) { lpv::fail(ctx + ": throws " + e.what()); }
    lpv::count(ctx);
  }
  M deep = M::str("bottom");
  for(int i = 0; i < 900; ++i) { M o; if(i % 3 == 2) { o.k = D; o.d["k"] = deep; } else { o.k = L; o.l.push_back(deep); } deep = o; }
  MSG msg("s", "t", DG(build(deep)));
  DG d = MSG::Deserialize(msg.SerializeToBytes()).GetDatagram();
  expect(*reinterpret_cast<RP&>(d), deep, "900 levels");
  return lpv::done();
}
