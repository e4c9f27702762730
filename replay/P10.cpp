// Cases: (threads, publications, where published) runs of a root bus: messages numbered per thread are published on
// the root, on children at several depths and through publishers, also from inside callbacks and before the bus is
// started; every message must be delivered exactly once, in order per thread and, for one thread, in total order.
#include "bus.h"
using namespace lpvbus;
static DG numbered(int t, int i) { DG d; d[std::string("t")] = t; d[std::string("i")] = i; d[std::string("p")] = std::string("payload ") + std::to_string(t * 100003 + i); return d; }
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(40); ++r) {
    int nt = r == 0 ? 1 : 1 + lpv::rnd(6), per = r % 8 == 7 ? 700 : 20 + lpv::rnd(120), before = lpv::rnd(3) == 0 ? lpv::rnd(30) : 0;
    bool slow = lpv::rnd(4) == 0, nested = lpv::rnd(2), deep = lpv::rnd(2);
    std::string ctx = std::to_string(nt) + " threads, " + std::to_string(per) + " messages each, " + std::to_string(before) + " before start" + (slow ? ", slow subscriber" : "") + (nested ? ", callback publishes" : "");
    lpv::count(ctx + std::to_string(r));
    std::vector<std::pair<int, int>> got; std::vector<std::pair<int, int>> echo; std::string bad;
    Root root;
    std::vector<std::shared_ptr<bus::Bus>> bs{root.b};
    for(int i = 0; i < 4; ++i) bs.push_back(bs[deep ? bs.size() - 1 : lpv::rnd(bs.size())]->CreateChildBus("c" + std::to_string(i)));
    std::vector<std::shared_ptr<bus::Publisher>> pubs;
    for(auto& b : bs) pubs.push_back(b->CreatePublisher("/n"));
    auto s = bs[lpv::rnd(bs.size())]->CreateSubscriber("/n");
    long n = 0;
    s->SetMessageCallback([&](MSG m) {
      DG d = m.GetDatagram();
      int t = d.Get<int>("t", -1), i = d.Get<int>("i", -1);
      if(text(d) != text(numbered(t, i)) || m.GetTopic() != "/n") bad = "delivered " + text(m);
      got.push_back({t, i});
      if(slow && ++n % 16 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      if(nested && i % 3 == 0) bs[i % bs.size()]->Publish(MSG("x", "/echo", d));
    });
    auto e = root.b->CreateSubscriber("/echo");
    e->SetDatagramCallback([&](DG d) { echo.push_back({d.Get<int>("t", -1), d.Get<int>("i", -1)}); });
    auto send = [&](int t, int i, uint64_t how) {
      size_t k = (how >> 8) % bs.size();
      if(how % 2) pubs[k]->Publish(numbered(t, i)); else bs[k]->Publish(MSG("s" + std::to_string(t), "/n", numbered(t, i)));
    };
    std::vector<std::vector<uint64_t>> how(nt);
    for(auto& h : how) for(int i = 0; i < per; ++i) h.push_back(lpv::rnd());
    for(int i = 0; i < before && i < per; ++i) send(0, i, how[0][i]);
    root.start();
    std::vector<std::thread> ts;
    for(int t = 0; t < nt; ++t) ts.emplace_back([&, t] { for(int i = t ? 0 : std::min(before, per); i < per; ++i) { send(t, i, how[t][i]); if(how[t][i] % 61 == 0) std::this_thread::yield(); if(how[t][i] % 97 == 0) std::this_thread::sleep_for(std::chrono::microseconds(300)); } });
    for(auto& t : ts) t.join();
    if(!root.flush() || !root.flush()) lpv::fail(ctx + ": published messages are not delivered");
    root.stop();
    if(!bad.empty()) lpv::fail(ctx + ": " + bad);
    std::vector<int> next(nt, 0);
    auto order = [&](const std::vector<std::pair<int, int>>& v, int step, const std::string& what) {
      std::vector<int> next(nt, 0);
      for(auto& g : v) {
        lpv::check(g.first >= 0 && g.first < nt && g.second == next[g.first], [&] { return ctx + ": " + what + " message " + std::to_string(g.second) + " of thread " + std::to_string(g.first) + " is delivered where number " + std::to_string(g.first >= 0 && g.first < nt ? next[g.first] : -1) + " is next"; });
        next[g.first] += step;
      }
      for(int t = 0; t < nt; ++t) lpv::check(next[t] == (per + step - 1) / step * step, [&] { return ctx + ": " + what + " messages of thread " + std::to_string(t) + " are lost from number " + std::to_string(next[t]); });
    };
    order(got, 1, "published");
    if(nested) order(echo, 3, "re-published");
    // a publisher or bus that is gone from the tree publishes nothing; others still do
    got.clear();
  }
  // one publisher, topics and payloads of all sorts, equal messages among them: the same sequence comes out
  for(long r = 0; r < lpv::scale(30); ++r) {
    Root root; auto child = root.b->CreateChildBus("c");
    std::vector<std::string> want, got; std::mutex m;
    auto s = (r % 2 ? root.b : child)->CreateSubscriber("/**/*");
    s->SetMessageCallback([&](MSG x) { if(x.GetTopic() == Root::topic()) return; std::lock_guard<std::mutex> l(m); got.push_back(text(x)); });
    const char* topics[] = {"/n", "a/request", "a/response", "/**/*", "", "/**", "system/stop", "x"};
    int n = 1 + lpv::rnd(r % 5 == 0 ? 2500 : 60), early = lpv::rnd(3) == 0 ? n : 0; MSG last("s", "t", DG());
    for(int i = 0; i < n; ++i) {
      if(i == early) root.start();
      MSG x = i && lpv::rnd(4) == 0 ? last : MSG(lpv::rnd(2) ? "" : "s", topics[lpv::rnd(8)], lpv::rnd(2) ? DG() : numbered(0, lpv::rnd(5)));
      last = x; want.push_back(text(x));
      (lpv::rnd(2) ? root.b : child)->Publish(x);
    }
    if(early == n) root.start();
    bool there = root.flush(); root.stop();
    lpv::check(there && got == want, [&] { size_t k = 0; while(k < got.size() && k < want.size() && got[k] == want[k]) ++k; return std::to_string(n) + " messages published in a row, " + std::to_string(got.size()) + " delivered; delivery " + std::to_string(k) + " is " + (k < got.size() ? got[k] : "missing") + ", published was " + (k < want.size() ? want[k] : "nothing"); });
    lpv::count("sequence " + std::to_string(r) + std::to_string(n));
  }
  return lpv::done();
}
