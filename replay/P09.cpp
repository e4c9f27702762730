// Cases: random trees of buses with subscribers (equal, catch-all and near-miss patterns; datagram, message and
// no callback; deleted ones; stopped subtrees) and messages published into them; the log of every subscriber is
// compared with the model, callbacks modify what they are given. Non-trivial when (tree, messages) are distinct.
#include "bus.h"
using namespace lpvbus;
struct Sub { std::string pat; int bus; int kind; bool deleted = false; std::shared_ptr<bus::Subscriber> s; std::vector<std::string> got, want; };
struct B { std::shared_ptr<bus::Bus> b; int parent; bool stopped = false; };
static std::string topic() {
  static const char* t[] = {"/**/*", "/a", "/a/b", "/a/*", "/**", "a", "", "/a/b/c", "/*", "/**/*/", "/a/**", "*"};
  return lpv::rnd(5) ? t[lpv::rnd(lpv::rnd(2) ? 4 : 12)] : lpv::str("/a*");
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(400); ++r) {
    std::string ctx;
    Root root;
    std::vector<B> bs; bs.push_back({root.b, -1});
    std::vector<std::unique_ptr<Sub>> subs;
    int nb = r < 3 ? r : lpv::rnd(7);
    for(int i = 0; i < nb; ++i) { int p = lpv::rnd(bs.size()); bs.push_back({bs[p].b->CreateChildBus("b" + std::to_string(i)), p}); ctx += "bus" + std::to_string(i + 1) + "<" + std::to_string(p) + " "; }
    std::mutex lm;
    std::atomic<long> current(0);
    int ns = lpv::rnd(12) + 1;
    for(int i = 0; i < ns; ++i) {
      std::unique_ptr<Sub> s(new Sub);
      s->pat = topic(); s->bus = lpv::rnd(bs.size()); s->kind = lpv::rnd(6);
      Sub* p = s.get();
      auto dg = [p, &lm](DG d) { std::string t = "payload " + text(d); d = std::string("changed by a subscriber"); std::lock_guard<std::mutex> l(lm); p->got.push_back(t); };
      auto mg = [p, &lm](MSG m) { std::string t = "message " + text(m); m.PrependSender("changed"); DG d = m.GetDatagram(); d["changed"] = std::string("x"); std::lock_guard<std::mutex> l(lm); p->got.push_back(t); };
      auto b = bs[s->bus].b;
      switch(s->kind) {
        case 0: s->s = b->CreateSubscriber(s->pat); break;
        case 1: case 2: s->s = b->CreateSubscriber(s->pat); s->s->SetMessageCallback(mg); break;
        case 3: s->s = b->CreateSubscriber(s->pat); s->s->SetDatagramCallback(dg); break;
        default: s->s = b->CreateSubscriber(s->pat, bus::DatagramCallbackType(dg)); break;
      }
      ctx += "sub" + std::to_string(i) + "(" + lpv::show(s->pat) + "@" + std::to_string(s->bus) + " kind " + std::to_string(s->kind) + ") ";
      subs.push_back(std::move(s));
    }
    root.start();
    int nm = lpv::rnd(12) + 1;
    std::vector<std::shared_ptr<bus::Publisher>> keep;
    for(int i = 0; i < nm; ++i) {
      if(lpv::rnd(6) == 0) { Sub& s = *subs[lpv::rnd(subs.size())]; if(!s.deleted) { if(!root.quiesce()) lpv::fail("messages are not delivered: " + ctx); bs[s.bus].b->DeleteSubscriber(s.s); s.deleted = true; ctx += "delete a subscriber of " + lpv::show(s.pat) + "; "; } }
      if(lpv::rnd(8) == 0 && bs.size() > 1) { int k = 1 + lpv::rnd(bs.size() - 1); if(!root.quiesce()) lpv::fail("messages are not delivered: " + ctx); bs[k].b->Stop(); bs[k].stopped = true; ctx += "stop " + std::to_string(k) + "; "; }
      if(lpv::rnd(12) == 0) { Sub& s = *subs[lpv::rnd(subs.size())]; if(!root.quiesce()) lpv::fail("messages are not delivered: " + ctx); Sub* p = &s; s.s->SetMessageCallback([p, &lm](MSG m) { std::lock_guard<std::mutex> l(lm); p->got.push_back("message " + text(m)); }); s.kind = 1; s.deleted = false; ctx += "callback set again; "; 
        bool in = bs[s.bus].b->ContainsSubscriber(s.s); if(!in) s.deleted = true; }
      std::string t = lpv::rnd(3) ? topic() : subs[lpv::rnd(subs.size())]->pat;
      DG d = payload();
      int from = lpv::rnd(bs.size());
      std::string sender = "sender" + std::to_string(i);
      MSG m(sender, t, d);
      std::string mt = text(m), dt = text(d);
      if(lpv::rnd(3) == 0) { auto p = bs[from].b->CreatePublisher(t); p->Publish(d); mt = text(MSG(bs[from].b->GetIdentifier(), t, d)); keep.push_back(p); }
      else bs[from].b->Publish(m);
      ctx += "publish " + mt + " on " + std::to_string(from) + "; ";
      for(auto& s : subs) {
        bool live = !s->deleted && s->kind != 0;
        for(int k = s->bus; k >= 0; k = bs[k].parent) if(bs[k].stopped) live = false;
        if(live && (s->pat == t || s->pat == "/**/*")) s->want.push_back(s->kind == 1 || s->kind == 2 ? "message " + mt : "payload " + dt);
      }
    }
    if(!root.flush()) lpv::fail("messages are not delivered: " + ctx.substr(0, 2500));
    root.stop();
    lpv::count(ctx);
    // the flush messages also reach catch-all subscribers
    for(auto& s : subs) {
      std::vector<std::string> got;
      { std::lock_guard<std::mutex> l(lm); for(auto& g : s->got) if(g.find("lpv-flush") == std::string::npos) got.push_back(g); }
      std::vector<std::string> want; want = s->want;
      lpv::check(got == want, [&] { std::string x; for(auto& g : got) x += g + " | "; x += "; expected "; for(auto& w : want) x += w + " | "; return ctx.substr(0, 1800) + "\nsubscriber " + lpv::show(s->pat) + " at bus " + std::to_string(s->bus) + " received " + x.substr(0, 1500); });
    }
    root.stop();
  }
  return lpv::done();
}
