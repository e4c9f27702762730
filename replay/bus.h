// A running root bus with a flush operation, and random payloads.
#pragma once
#include "lpv.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <lamppost/bus/Bus.h>

namespace lpvbus {
  using namespace lp;
  typedef messages::Datagram DG;
  typedef messages::Message MSG;
  inline std::string text(const DG& d) { std::ostringstream o; o << d; return o.str(); }
  inline std::string text(MSG m) { return lpv::show(m.GetSender()) + " -> " + lpv::show(m.GetTopic()) + ": " + text(m.GetDatagram()); }

  inline void fill(DG& d, int depth) {
    switch(lpv::rnd(depth > 0 ? 7 : 4)) {
      case 0: d = lpv::str("abc"); break;
      case 1: d = (int)lpv::integer(); break;
      case 2: d = (double)lpv::rnd(1000) / 8; break;
      case 3: d = (bool)lpv::rnd(2); break;
      case 4: { size_t n = lpv::rnd(4); for(size_t i = 0; i < n; ++i) { DG c; fill(c, depth - 1); d[std::string(1, 'a' + i)] = c; } break; }
      case 5: { d[std::string("k")] = std::string("v"); DG c; fill(c, depth - 1); d[std::string("n")] = c; break; }
      default: break;
    }
  }
  inline DG payload() { DG d; fill(d, 2); return d; }

  struct Root {
    std::shared_ptr<bus::Bus> b;
    std::thread t;
    std::mutex m; std::condition_variable cv; long done = 0, sent = 0;
    std::shared_ptr<bus::Subscriber> s;
    std::string error;
    static std::string topic() { return "/lpv/flushed"; }
    Root(const std::string& name = "root") : b(std::make_shared<bus::Bus>(name)) {
      s = b->CreateSubscriber(topic());
      s->SetDatagramCallback([this](DG) { std::lock_guard<std::mutex> l(m); ++done; cv.notify_all(); });
    }
    void start() { t = std::thread([this] { try { b->Start(); } catch(std::exception& e) { std::lock_guard<std::mutex> l(m); error = e.what(); if(error.empty()) error = "?"; done = 1 << 30; cv.notify_all(); } }); }
    // waits until everything published before has been distributed
    bool flush(int ms = 20000) {
      b->Publish(MSG(b->GetIdentifier(), topic(), DG(std::string("lpv-flush"))));
      std::unique_lock<std::mutex> l(m);
      long want = ++sent;
      bool ok = cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return done >= want; });
      if(!error.empty()) lpv::fail("the bus thread ended with an exception: " + error);
      return ok;
    }
    // waits, and leaves no distribution in progress: the bus is stopped and started again
    bool quiesce() { if(!flush()) return false; stop(); start(); return true; }
    void stop() { if(t.joinable()) { b->Stop(); b->Publish(MSG("lpv", "/lpv/wake", DG(std::string("lpv-flush")))); t.join(); } }
    ~Root() { stop(); }
  };
}
