// Cases: random sequences of creating, deleting and asking for subscribers and publishers on two buses against a
// model, with a delivery after every few steps; deleted ones must be silent and unknown, the others unaffected.
#include "bus.h"
using namespace lpvbus;
struct S { std::shared_ptr<bus::Subscriber> s; int bus; std::string topic; bool live; int got = 0, want = 0; };
struct Pb { std::shared_ptr<bus::Publisher> p; int bus; std::string topic; bool live; };
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(400); ++r) {
    Root root;
    std::vector<std::shared_ptr<bus::Bus>> bs{root.b, root.b->CreateChildBus("c")};
    std::vector<std::unique_ptr<S>> ss; std::vector<Pb> ps;
    std::string ctx; std::mutex m;
    root.start();
    auto contains = [&] {
      for(auto& s : ss) for(int b = 0; b < 2; ++b) lpv::check(bs[b]->ContainsSubscriber(s->s) == (s->live && s->bus == b), [&] { return ctx + ": ContainsSubscriber is wrong"; });
      for(auto& p : ps) for(int b = 0; b < 2; ++b) lpv::check(bs[b]->ContainsPublisher(p.p) == (p.live && p.bus == b), [&] { return ctx + ": ContainsPublisher is wrong"; });
    };
    auto deliver = [&](const std::string& t) { for(auto& s : ss) if(s->live && s->topic == t) s->want++; };
    int steps = 5 + lpv::rnd(40);
    for(int i = 0; i < steps; ++i) {
      std::string t = std::string("/") + (char)('a' + lpv::rnd(3));
      int b = lpv::rnd(2);
      switch(lpv::rnd(7)) {
        case 0: case 1: { lpv::check(root.flush(), [&] { return ctx + ": not delivered"; }); std::unique_ptr<S> s(new S); s->bus = b; s->topic = t; s->live = true; S* q = s.get(); auto cb = [q, &m](DG) { std::lock_guard<std::mutex> l(m); q->got++; };
          if(lpv::rnd(2)) s->s = bs[b]->CreateSubscriber(t, bus::DatagramCallbackType(cb)); else { s->s = bs[b]->CreateSubscriber(t); s->s->SetDatagramCallback(cb); }
          lpv::check(s->s->GetTopic() == t, [&] { return ctx + ": wrong topic"; }); ss.push_back(std::move(s)); ctx += "subscriber " + t + "@" + std::to_string(b) + "; "; break; }
        case 2: { auto p = bs[b]->CreatePublisher(t); lpv::check(p->GetTopic() == t, [&] { return ctx + ": wrong topic"; }); ps.push_back({p, b, t, true}); ctx += "publisher " + t + "@" + std::to_string(b) + "; "; break; }
        case 3: if(!ss.empty()) { S& s = *ss[lpv::rnd(ss.size())]; if(s.live) { lpv::check(root.flush(), [&] { return ctx + ": not delivered"; }); bs[s.bus]->DeleteSubscriber(s.s); s.live = false; ctx += "delete subscriber; "; } } break;
        case 4: if(!ps.empty()) { Pb& p = ps[lpv::rnd(ps.size())]; if(p.live) { bs[p.bus]->DeletePublisher(p.p); p.live = false; ctx += "delete publisher; "; } } break;
        case 5: if(!ps.empty()) { Pb& p = ps[lpv::rnd(ps.size())]; p.p->Publish(payload()); if(p.live) deliver(p.topic); ctx += std::string("publish through a ") + (p.live ? "live" : "deleted") + " publisher " + p.topic + "; "; } break;
        default: bs[b]->Publish(MSG("x", t, payload())); deliver(t); ctx += "publish " + t + "; ";
      }
      contains();
    }
    lpv::check(root.flush(), [&] { return ctx + ": not delivered"; });
    // a deleted subscriber stays silent even when it is handed a message directly
    for(auto& s : ss) if(!s->live) s->s->Receive(MSG("x", s->topic, DG()));
    { std::lock_guard<std::mutex> l(m); for(auto& s : ss) lpv::check(s->got == s->want, [&] { return ctx + ": a " + (s->live ? "live" : "deleted") + " subscriber of " + s->topic + " was invoked " + std::to_string(s->got) + " times instead of " + std::to_string(s->want); }); }
    lpv::count(ctx);
    root.stop();
  }
  return lpv::done();
}
