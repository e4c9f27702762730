// Cases: (mix of operations) several threads create, look up, delete and ask for children and participants of the
// same buses while messages flow, under the thread sanitizer; then every operation, also the failing ones, is
// followed by the same operations from a fresh thread, which must not block. Non-trivial when the mix differs.
#include "bus.h"
#include <pthread.h>
#include <unistd.h>
using namespace lpvbus;
static std::atomic<long> gTick(0); static const char* gWhat = "";
// a thread that runs f; a lock that is never given back shows as a thread that never ends
static void alone(const std::string& what, const std::function<void()>& f) {
  std::atomic<bool> over(false);
  std::thread t([&] { try { f(); } catch(std::exception&) { } catch(...) { } over = true; });
  for(int i = 0; !over && i < 20000; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  if(!over) lpv::fail("a bus operation blocks for ever after: " + what);
  t.join();
}
static void probe(const std::string& what, std::shared_ptr<bus::Bus> b) {
  alone(what + " (then every operation)", [&] {
    static std::atomic<int> n(0);
    std::string k = "probe" + std::to_string(n++);
    b->CreateChildBus(k); b->GetChildBus(k);
    auto s = b->CreateSubscriber(std::string("/p")); b->ContainsSubscriber(s); b->DeleteSubscriber(s);
    auto p = b->CreatePublisher(std::string("/p")); b->ContainsPublisher(p); b->DeletePublisher(p);
    b->CreateActionConsumer(std::string("/q"));
    b->CreateActionProvider(std::string("/q"), std::function<void(std::shared_ptr<bus::ActionProvider>, std::string, DG)>([](std::shared_ptr<bus::ActionProvider>, std::string, DG) {}));
    b->Publish(MSG("x", "/p", DG()));
  });
}
struct Oops : std::exception {};

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  typedef std::function<void(std::shared_ptr<bus::ActionProvider>, std::string, DG)> PC;
  PC pc([](std::shared_ptr<bus::ActionProvider>, std::string, DG) {});
  // every operation alone, also with arguments that make it fail
  {
    auto b = std::make_shared<bus::Bus>("r");
    std::map<std::string, std::function<void()>> ops;
    auto s = b->CreateSubscriber(std::string("/s")); auto p = b->CreatePublisher(std::string("/s"));
    auto kid = b->CreateChildBus("kid");
    ops["CreateChildBus(new)"] = [&] { b->CreateChildBus("new"); };
    ops["CreateChildBus(duplicate)"] = [&] { b->CreateChildBus("kid"); };
    ops["CreateChildBus(empty)"] = [&] { b->CreateChildBus(""); };
    ops["GetChildBus(known)"] = [&] { b->GetChildBus("kid"); };
    ops["GetChildBus(unknown)"] = [&] { b->GetChildBus("nobody"); };
    ops["CreateSubscriber"] = [&] { b->CreateSubscriber(std::string("/t")); };
    ops["CreatePublisher"] = [&] { b->CreatePublisher(std::string("/t")); };
    ops["CreateActionConsumer"] = [&] { b->CreateActionConsumer(std::string("/t")); };
    ops["CreateActionProvider"] = [&] { b->CreateActionProvider(std::string("/t"), pc); };
    ops["ContainsSubscriber"] = [&] { b->ContainsSubscriber(s); };
    ops["ContainsSubscriber(other)"] = [&] { b->ContainsSubscriber(std::make_shared<bus::Subscriber>("/x")); };
    ops["ContainsPublisher"] = [&] { b->ContainsPublisher(p); };
    ops["DeleteSubscriber(other)"] = [&] { b->DeleteSubscriber(std::make_shared<bus::Subscriber>("/x")); };
    ops["Publish"] = [&] { b->Publish(MSG("x", "/y", DG())); };
    ops["Publish through a publisher"] = [&] { p->Publish(DG()); };
    ops["Publish on a child"] = [&] { kid->Publish(MSG("x", "/y", DG())); };
    for(auto& o : ops) { alone(o.first, o.second); probe(o.first, b); lpv::count(o.first); }
    for(auto& o : ops) { alone(o.first, o.second); probe(o.first + " (child)", kid); }
    alone("DeleteSubscriber", [&] { b->DeleteSubscriber(s); }); probe("DeleteSubscriber", b);
    alone("DeleteSubscriber(again)", [&] { b->DeleteSubscriber(s); }); probe("DeleteSubscriber(again)", b);
    alone("DeletePublisher", [&] { b->DeletePublisher(p); }); probe("DeletePublisher", b);
    alone("Stop", [&] { b->Stop(); }); probe("Stop", b);
    alone("Detach", [&] { kid->Detach(); }); probe("Detach", b);
    auto c2 = b->CreateChildBus("gone");
    alone("Detach", [&] { b->Detach(); });
    alone("after Detach", [&] { b->GetChildBus("gone"); b->CreateSubscriber(std::string("/z")); b->CreatePublisher(std::string("/z")); });
    alone("~Bus", [&] { b.reset(); });
    alone("after ~Bus of the parent", [&] { c2->CreateSubscriber(std::string("/z")); c2->Publish(MSG("x", "/y", DG())); });
  }
  // a callback that throws leaves no lock behind
  for(int deep = 0; deep < 2; ++deep) {
    auto b = std::make_shared<bus::Bus>("r");
    auto kid = b->CreateChildBus("kid");
    auto s = (deep ? kid : b)->CreateSubscriber(std::string("/boom"));
    s->SetMessageCallback([](MSG) { throw Oops(); });
    b->Publish(MSG("x", "/boom", DG()));
    alone("a run that ends with a throwing callback", [&] { b->Start(); });
    probe("a callback that throws", b); probe("a callback that throws (child)", kid);
    lpv::count("throwing callback " + std::to_string(deep));
  }
  // concurrent use
  for(long r = 0; r < lpv::scale(25); ++r) {
    Root root;
    auto kid = root.b->CreateChildBus("kid");
    std::vector<std::shared_ptr<bus::Bus>> bs{root.b, kid};
    std::atomic<long> got(0);
    root.start();
    std::vector<std::thread> ts;
    uint64_t seed = lpv::rnd();
    for(int t = 0; t < 6; ++t) ts.emplace_back([&, t] {
      uint64_t x = seed ^ (t * 0x9E3779B97F4A7C15ull) | 1;
      auto rnd = [&](uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x % n; };
      std::vector<std::shared_ptr<bus::Subscriber>> mine; std::vector<std::shared_ptr<bus::Publisher>> pubs;
      for(int i = 0; i < 60; ++i) {
        auto& b = bs[rnd(2)];
        try {
          switch(rnd(10)) {
            case 0: b->CreateChildBus("t" + std::to_string(t) + "x" + std::to_string(i)); break;
            case 1: b->GetChildBus("t" + std::to_string(rnd(6)) + "x" + std::to_string(rnd(60))); break;
            case 2: b->CreateChildBus("same" + std::to_string(rnd(3))); break;
            case 3: mine.push_back(b->CreateSubscriber(std::string("/c"), bus::DatagramCallbackType([&](DG) { ++got; }))); break;
            case 4: if(!mine.empty()) { b->ContainsSubscriber(mine[rnd(mine.size())]); } break;
            case 5: if(!mine.empty()) { auto s = mine.back(); mine.pop_back(); for(auto& q : bs) if(q->ContainsSubscriber(s)) q->DeleteSubscriber(s); } break;
            case 6: pubs.push_back(b->CreatePublisher(std::string("/c"))); break;
            case 7: if(!pubs.empty()) { auto& p = pubs[rnd(pubs.size())]; if(rnd(2)) p->Publish(DG()); else b->ContainsPublisher(p); } break;
            case 8: if(rnd(2)) b->CreateActionConsumer(std::string("/a")); else b->CreateActionProvider(std::string("/a"), pc); break;
            default: b->Publish(MSG("s", "/c", DG())); break;
          }
        } catch(exceptions::Exception&) { } catch(std::exception& e) { lpv::fail(std::string("unexpected ") + e.what()); }
      }
      for(auto& p : pubs) for(auto& q : bs) if(q->ContainsPublisher(p)) q->DeletePublisher(p);
    });
    for(auto& t : ts) t.join();
    lpv::check(root.flush(), [&] { return "messages are not delivered after concurrent use"; });
    root.stop();
    lpv::count("mix " + std::to_string(seed));
  }
  // requests of several threads through one consumer while it is answered, also from callbacks
  for(long r = 0; r < lpv::scale(12); ++r) {
    Root root; std::atomic<long> got(0);
    auto p = root.b->CreateActionProvider(std::string("/a"), PC([&](std::shared_ptr<bus::ActionProvider> q, std::string id, DG) { q->Respond(id, DG()); }));
    auto c = root.b->CreateChildBus("kid")->CreateActionConsumer(std::string("/a"));
    root.start();
    std::vector<std::thread> ts;
    for(int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for(int i = 0; i < 30; ++i) { bool more = i % 10 == 0; c->RequestAsync(DG(), [&, more](DG) { ++got; if(more) c->RequestAsync(DG(), [&](DG) { ++got; }); }); } });
    for(auto& t : ts) t.join();
    for(int i = 0; got < 4 * 33 && i < 20000; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    lpv::check(got == 4 * 33, [&] { return "concurrent requests: " + std::to_string(got) + " of " + std::to_string(4 * 33) + " answers arrived"; });
    root.stop();
    lpv::count("requests " + std::to_string(r));
  }
  return lpv::done();
}
