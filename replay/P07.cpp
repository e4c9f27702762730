// Cases: (sender, name) pairs; non-trivial when distinct. All strings up to length 4 over {a,b,/}
// as sender and up to length 2 as name, counterexample values and dictionary words in both roles,
// then random pairs in which the sender is often built from the name.
#include "lpv.h"
#include <lamppost/messages/Message.h>
using lp::messages::Message;
using lp::messages::Datagram;

static void one(const std::string& s, const std::string& n) {
  using lpv::show;
  lpv::count(s + "\1" + n);
  std::string p = n + "/";
  bool st = s.size() >= p.size() && s.compare(0, p.size(), p) == 0;
  auto ctx = [&](const char* w) { return std::string(w) + " sender=" + show(s) + " name=" + show(n); };
  Datagram d;
  d["k"] = std::string("v");
  try {
    Message m(s, "topic", d);
    lpv::check(m.WasSentBySender(n) == st, [&] { return ctx("WasSentBySender"); });
    lpv::check(m.GetSender() == s, [&] { return ctx("WasSentBySender changed the sender"); });
    m.RemoveSender(n);
    lpv::check(m.GetSender() == (st ? s.substr(p.size()) : s), [&] { return ctx("RemoveSender") + " got " + show(m.GetSender()); });
    Message q(s, "topic", d);
    q.PrependSender(n);
    lpv::check(q.GetSender() == n + "/" + s, [&] { return ctx("PrependSender") + " got " + show(q.GetSender()); });
    lpv::check(q.WasSentBySender(n), [&] { return ctx("WasSentBySender after PrependSender"); });
    q.RemoveSender(n);
    lpv::check(q.GetSender() == s, [&] { return ctx("RemoveSender after PrependSender") + " got " + show(q.GetSender()); });
    for(Message* x : {&m, &q}) {
      lpv::check(x->GetTopic() == "topic", [&] { return ctx("topic changed"); });
      Datagram y = x->GetDatagram();
      lpv::check(y.Get<std::string>("k", "-") == "v", [&] { return ctx("payload changed"); });
    }
  } catch(std::exception& e) {
    lpv::fail(ctx("unexpected exception") + " " + e.what());
  }
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::vector<std::string> words{""};
  const char al[] = "ab/";
  for(size_t i = 0; i < words.size(); ++i) if(words[i].size() < 4) for(int c = 0; c < 3; ++c) words.push_back(words[i] + al[c]);
  for(auto& n : words) if(n.size() <= 2) for(auto& s : words) one(s, n);
  std::vector<std::string> w = lpv::cex;
  for(auto& d : lpv::dict) w.push_back(d);
  for(auto& a : w) { one(a, a); one(a + "/", a); one(a + "/x", a); one("x/" + a, "x"); one("x", a); one(a, "x"); one("", a); one(a, ""); }
  for(auto& a : lpv::cex) for(auto& b : lpv::cex) one(a, b);
  for(long i = 0; i < lpv::scale(40000); ++i) {
    std::string n = lpv::str("ab/"), s;
    switch(lpv::rnd(5)) { case 0: s = n + "/" + lpv::str("ab/"); break; case 1: s = n; break; case 2: s = n + lpv::str("ab/"); break; case 3: s = lpv::str("ab/") + "/" + n + "/" + lpv::str("ab/"); break; default: s = lpv::str("ab/"); }
    one(s, n);
  }
  return lpv::done();
}
