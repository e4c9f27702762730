// Cases: random sequences of child creations and lookups on a tree of buses against a model of the registry,
// with the exception types; threads creating children of the same names at the same time (each name must be
// given away exactly once); created children are checked for name, running state and publishing through the root.
#include "bus.h"
#include <lamppost/exceptions/ArgumentNullException.h>
using namespace lpvbus;
struct N { std::shared_ptr<bus::Bus> b; std::map<std::string, int> kids; std::string name; };
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  try { bus::Bus b(""); lpv::fail("Bus(\"\") is accepted"); } catch(exceptions::ArgumentNullException&) { } catch(std::exception& e) { lpv::fail(std::string("Bus(\"\") throws ") + e.what()); }
  for(long r = 0; r < lpv::scale(60); ++r) {
    std::string nm = lpv::rnd(4) ? "root" : lpv::str("ab/ "); if(nm.empty()) nm = "r";
    Root root(nm);
    std::vector<N> ns; ns.push_back({root.b, {}, nm});
    lpv::check(root.b->GetIdentifier() == nm, [&] { return "a bus named " + lpv::show(nm) + " reports " + lpv::show(root.b->GetIdentifier()); });
    std::string ctx;
    std::map<std::string, int> arrived; std::vector<std::string> log; std::mutex m;
    auto all = root.b->CreateSubscriber("/probe");
    all->SetMessageCallback([&](MSG x) { std::lock_guard<std::mutex> l(m); log.push_back(text(x)); });
    root.start();
    int steps = 5 + lpv::rnd(30);
    for(int i = 0; i < steps; ++i) {
      int p = lpv::rnd(ns.size());
      std::string name = lpv::rnd(3) == 0 ? lpv::str("ab/ ") : std::string(1, 'a' + lpv::rnd(4));
      if(lpv::rnd(8) == 0) name = "";
      std::string c2 = "bus " + std::to_string(p) + ": ";
      bool known = ns[p].kids.count(name);
      if(lpv::rnd(2)) {
        c2 += "CreateChildBus(" + lpv::show(name) + ")"; ctx += c2 + "; ";
        try {
          auto b = ns[p].b->CreateChildBus(name);
          lpv::check(!name.empty() && !known, [&] { return ctx + " succeeds"; });
          lpv::check(b != nullptr && b->GetIdentifier() == name, [&] { return ctx + ": wrong name of the child"; });
          for(auto& n : ns) lpv::check(n.b != b, [&] { return ctx + " returns an existing bus"; });
          ns[p].kids[name] = ns.size(); ns.push_back({b, {}, name});
          int hits = 0; std::mutex hm;
          auto s = b->CreateSubscriber("/probe");
          s->SetDatagramCallback([&](DG) { std::lock_guard<std::mutex> l(hm); ++hits; });
          MSG x("me", "/probe", payload());
          size_t before; { std::lock_guard<std::mutex> l(m); before = log.size(); }
          b->Publish(x);
          lpv::check(root.flush(), [&] { return ctx + ": publishing on the child is not delivered"; });
          { std::lock_guard<std::mutex> l(m); lpv::check(log.size() == before + 1 && log.back() == text(x), [&] { return ctx + ": publishing on the child does not arrive at the root once and unchanged"; }); }
          { std::lock_guard<std::mutex> l(hm); lpv::check(hits == 1, [&] { return ctx + ": the new child delivers " + std::to_string(hits) + " times instead of once (not started?)"; }); }
          b->DeleteSubscriber(s);
        }
        catch(exceptions::ArgumentNullException& e) { lpv::check(name.empty(), [&] { return ctx + " reports a missing name"; }); }
        catch(exceptions::DuplicateKeyException& e) { lpv::check(known && !name.empty(), [&] { return ctx + " reports a duplicate"; }); }
        catch(std::exception& e) { lpv::fail(ctx + " throws " + e.what()); }
      } else {
        c2 += "GetChildBus(" + lpv::show(name) + ")"; ctx += c2 + "; ";
        try { auto b = ns[p].b->GetChildBus(name); lpv::check(known && b == ns[ns[p].kids[name]].b, [&] { return ctx + " returns the wrong bus"; }); }
        catch(exceptions::KeyNotFoundException&) { lpv::check(!known, [&] { return ctx + " does not find the child"; }); }
        catch(std::exception& e) { lpv::fail(ctx + " throws " + e.what()); }
      }
      if(i % 5 == 0) for(auto& n : ns) for(auto& k : n.kids) { std::shared_ptr<bus::Bus> b; try { b = n.b->GetChildBus(k.first); } catch(std::exception& e) { } lpv::check(b == ns[k.second].b, [&] { return ctx + ": the lookup of " + lpv::show(k.first) + " changed"; }); }
    }
    lpv::count(ctx);
    root.stop();
  }
  {
    // a bus that is detached cannot get children (they could not publish); the attempt leaves nothing behind
    auto parent = std::make_shared<bus::Bus>("p"); auto kept = parent->CreateChildBus("kept"); parent->Detach();
    bool threw = false;
    try { parent->CreateChildBus("c"); } catch(std::exception&) { threw = true; }
    if(threw) {
      try { auto b = parent->GetChildBus("c"); lpv::fail(std::string("a child that could not be created is found") + (b == nullptr ? " (null)" : "")); } catch(exceptions::KeyNotFoundException&) { }
    }
    try { lpv::check(parent->GetChildBus("kept") == kept, [] { return std::string("a failed creation changed another child"); }); } catch(std::exception& e) { lpv::fail(std::string("after a failed creation another child is not found: ") + e.what()); }
  }
  for(long r = 0; r < lpv::scale(40); ++r) {
    auto parent = std::make_shared<bus::Bus>("p");
    const int T = 4, N = 12;
    std::atomic<int> ready(0);
    std::vector<std::vector<std::shared_ptr<bus::Bus>>> got(T, std::vector<std::shared_ptr<bus::Bus>>(N));
    std::vector<std::thread> ts; std::atomic<int> bad(0);
    for(int t = 0; t < T; ++t) ts.emplace_back([&, t] {
      for(int i = 0; i < N; ++i) {
        ++ready; while(ready < T * (i + 1)) { }
        try { got[t][i] = parent->CreateChildBus("c" + std::to_string(i)); }
        catch(exceptions::DuplicateKeyException&) { }
        catch(std::exception&) { ++bad; }
      }
    });
    for(auto& t : ts) t.join();
    lpv::check(bad == 0, [&] { return std::string("threads creating children of the same name: another exception than a duplicate"); });
    for(int i = 0; i < N; ++i) {
      std::shared_ptr<bus::Bus> w; int n = 0;
      for(int t = 0; t < T; ++t) if(got[t][i]) { ++n; w = got[t][i]; }
      lpv::check(n == 1, [&] { return "4 threads create a child bus of one name at the same time: " + std::to_string(n) + " of them succeed"; });
      lpv::check(parent->GetChildBus("c" + std::to_string(i)) == w, [&] { return std::string("the child created by the successful thread is not the registered one"); });
    }
    lpv::count("threads " + std::to_string(r));
  }
  return lpv::done();
}
