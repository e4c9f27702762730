// Cases: a running root bus is told to stop (and, in a callback, detached) while idle, after a random delay, while threads publish without pause,
// while every callback publishes again, from a callback, from several threads at once, while callbacks are slow, with
// children; its run loop must return within seconds, and Stop itself at once.
#include "bus.h"
#include <chrono>
using namespace lpvbus;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(60); ++r) {
    int kind = r % 6, after = lpv::rnd(60), stoppers = 1 + lpv::rnd(3), slow = lpv::rnd(4) == 0 ? 30 : 0;
    bool kids = lpv::rnd(2), storm = kind == 1 || kind == 4, echo = kind == 2 || kind == 4;
    std::string ctx = std::string(kind == 3 || kind == 4 ? "Stop from a callback" : "Stop from " + std::to_string(stoppers) + " threads after " + std::to_string(after) + " ms")
      + (storm ? ", threads publishing without pause" : "") + (echo ? ", callbacks publishing again" : "") + (slow ? ", slow callbacks" : "") + (kids ? ", with child buses" : "");
    auto b = std::make_shared<bus::Bus>("root");
    std::shared_ptr<bus::Bus> kid; if(kids) { kid = b->CreateChildBus("kid"); kid->CreateChildBus("grandkid"); }
    std::atomic<bool> up(false), over(false), stopped(false), inside(false);
    std::atomic<long> got(0);
    auto s = b->CreateSubscriber(std::string("/up"), bus::DatagramCallbackType([&](DG) { up = true; }));
    auto e = (kid ? kid : b)->CreateSubscriber(std::string("/x"));
    e->SetDatagramCallback([&](DG d) {
      ++got;
      if(slow) std::this_thread::sleep_for(std::chrono::milliseconds(slow));
      if(echo) b->Publish(MSG("e", "/x", DG()));
      if(inside) { b->Stop(); if(kind == 3 && !kid) b->Detach(); stopped = true; }
    });
    std::thread run([&] { try { b->Start(); } catch(...) { } over = true; });
    b->Publish(MSG("m", "/up", DG()));
    auto t0 = Clock::now();
    while(!up && since(t0) < 20) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    lpv::check(up, [&] { return std::string("the bus does not start"); });
    if(echo) for(int i = 0; i < 3; ++i) b->Publish(MSG("e", "/x", DG()));
    std::vector<std::thread> pubs;
    DG load; for(int i = 0; i < 20; ++i) load[std::string("k") + char(97 + i)] = i;
    if(storm) for(int i = 0; i < 6; ++i) pubs.emplace_back([&] { int k = 0; DG mine(load); while(!over) { b->Publish(MSG("p", ++k % 4 ? "/y" : "/x", mine)); if(slow && k % 64 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } });
    std::this_thread::sleep_for(std::chrono::milliseconds(after));
    std::vector<std::thread> st;
    if(kind == 3 || kind == 4) { inside = true; b->Publish(MSG("e", "/x", DG())); }
    else for(int i = 0; i < stoppers; ++i) st.emplace_back([&] { b->Stop(); stopped = true; });
    t0 = Clock::now();
    while(!stopped && since(t0) < 20) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    lpv::check(stopped, [&] { return ctx + ": Stop does not return"; });
    t0 = Clock::now();
    while(!over && since(t0) < 8) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    lpv::check(over, [&] { return ctx + ": the run loop has not returned 8 seconds later"; });
    for(auto& t : st) t.join();
    for(auto& t : pubs) t.join();
    run.join();
    lpv::count(ctx);
  }
  return lpv::done();
}
