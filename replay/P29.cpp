// Cases: blocking requests answered at once, by another thread after a moment, while the timeout runs out, after the
// call has returned (with the stack reused meanwhile), never; through a bus and with a hand-made publisher; several at
// once on one consumer; results against the answer sent, and the time each call took.
#include "bus.h"
#include <chrono>
#include <dlfcn.h>
#include <errno.h>
using namespace lpvbus;
// some waits end early for no reason, as they may
static std::atomic<unsigned> waits(0);
// in a sped-up world the clocks jump to the end of a wait
static std::atomic<bool> fast(false);
static std::atomic<long long> ahead(0);
extern "C" int clock_gettime(clockid_t k, struct timespec* t) {
  static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(k, t);
  if(fast && !r) { long long n = t->tv_sec * 1000000000ll + t->tv_nsec + ahead; t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; }
  return r;
}
static int jump(pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  struct timespec n; pthread_mutex_unlock(m); clock_gettime(k, &n);
  long long d = (t->tv_sec - n.tv_sec) * 1000000000ll + t->tv_nsec - n.tv_nsec;
  if(d > 0) ahead += d;
  pthread_mutex_lock(m); return ETIMEDOUT;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  if(++waits % 3 == 0) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
  if(fast) return jump(m, k, t);
  return real(c, m, k, t);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
  if(++waits % 3 == 0) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
  if(fast) return jump(m, CLOCK_REALTIME, t);
  return real(c, m, t);
}
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=1:detect_leaks=0"; }
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static void pause(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
static __attribute__((noinline)) void scribble() { volatile char a[4096]; for(int i = 0; i < 4096; ++i) a[i] = (char)0x5a; }
struct Made {   // a consumer whose requests arrive here
  std::mutex m; std::vector<std::string> ids; std::function<void(std::string)> on;
  std::shared_ptr<bus::ActionConsumer> c;
  Made() {
    auto p = std::make_shared<bus::Publisher>("/a/request", [this](DG d) { std::string id = d["invocationId"]; { std::lock_guard<std::mutex> l(m); ids.push_back(id); } if(on) on(id); });
    c = std::make_shared<bus::ActionConsumer>(std::make_shared<bus::Subscriber>("/a/response"), p, "/a");
  }
};
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::string empty = text(DG());
  for(long r = 0; r < lpv::scale(300); ++r) {   // one request, answered once
    int kind = r % 5; Made q; DG a = payload(); std::string want = text(a), body = text(a); DG ask = payload(); std::string asked = text(ask);
    int timeout = kind == 0 || kind == 1 ? 20000 : kind == 2 ? (int)lpv::rnd(4) : (int)lpv::rnd(12), delay = kind == 1 ? lpv::rnd(3000) : kind == 2 ? timeout * 1000 + (int)lpv::rnd(600) - 300 : 0;
    std::string ctx = std::string(kind == 0 ? "answered at once" : kind == 1 ? "answered in time" : kind == 2 ? "answered while the timeout runs out" : kind == 3 ? "answered after the call returned" : "never answered") + ", timeout " + std::to_string(timeout) + " ms, answer " + want;
    std::thread t; std::atomic<bool> done(false);
    if(delay < 0) delay = 0;
    if(kind <= 2) q.on = [&](std::string id) { t = std::thread([&, id] { if(delay) pause(delay); q.c->ProcessResponse(id, a); a[std::string("spoiled")] = 1; done = true; }); if(kind == 0) while(!done && lpv::rnd(2)) pause(50); };
    auto t0 = Clock::now();
    std::string got; bool in;
    { DG g = q.c->Request(ask, timeout); got = text(g); in = g.GetType() != messages::RawDatagramType::Empty; }
    double took = since(t0);
    scribble();
    if(t.joinable()) t.join();
    lpv::check(q.ids.size() == 1, [&] { return ctx + ": " + std::to_string(q.ids.size()) + " requests were published"; });
    lpv::check(text(ask) == asked, [&] { return ctx + ": the request was changed"; });
    if(kind <= 1) {
      lpv::check(got == want, [&] { return ctx + ": the call returned " + got; });
      lpv::check(took < 15, [&] { return ctx + ": the call took " + std::to_string(took) + " s"; });
    } else if(kind == 2) {
      lpv::check(got == want || got == empty, [&] { return ctx + ": the call returned " + got; });
      if(got == empty && want != empty) lpv::check(took >= timeout / 1000.0, [&] { return ctx + ": the call gave up after " + std::to_string(took) + " s"; });
    } else {
      lpv::check(got == empty && !in, [&] { return ctx + ": the call returned " + got; });
      lpv::check(took >= timeout / 1000.0, [&] { return ctx + ": the call gave up after " + std::to_string(took) + " s"; });
    }
    lpv::check(took < timeout / 1000.0 + 10, [&] { return ctx + ": the call took " + std::to_string(took) + " s"; });
    if(kind == 3) { if(lpv::rnd(2)) std::thread([&] { q.c->ProcessResponse(q.ids[0], a); }).join(); else q.c->ProcessResponse(q.ids[0], a); }
    lpv::count(ctx);
  }
  for(long r = 0; r < lpv::scale(60); ++r) {   // never answered, in a sped-up world: timeouts of all sizes
    Made q; int some[] = {0, 1, 999, 1000, 1001, 29999, 60001, 3600000, 86400000, 2147483647};
    int timeout = r < 10 ? some[r] : r % 2 ? (int)lpv::rnd(2000000000) : (int)lpv::rnd(100000); ahead = 0; fast = true;
    auto t0 = Clock::now(); bool in; { DG g = q.c->Request(DG(), timeout); in = g.GetType() != messages::RawDatagramType::Empty; } double took = since(t0); fast = false;
    lpv::check(!in && took >= timeout / 1000.0 && took < timeout / 1000.0 + 10, [&] { return "never answered, timeout " + std::to_string(timeout) + " ms: the call gave up after " + std::to_string(took) + " s"; });
    lpv::count("sped up " + std::to_string(timeout));
  }
  for(long r = 0; r < lpv::scale(6); ++r) {   // many at once on one consumer, each with its own answer, some late
    Made q; std::mutex m; std::vector<std::pair<std::string, DG>> open; std::atomic<bool> over(false);
    q.on = [&](std::string id) { std::lock_guard<std::mutex> l(m); DG d; d[std::string("id")] = id; open.push_back({id, d}); };
    const int T = 4, N = 40; std::atomic<int> bad(0);
    std::thread answers([&] { while(true) { std::pair<std::string, DG> e; { std::lock_guard<std::mutex> l(m); if(open.empty()) { if(over) break; pause(20); continue; } e = open.front(); open.erase(open.begin()); } q.c->ProcessResponse(e.first, e.second); } });
    std::vector<std::thread> ts;
    for(int k = 0; k < T; ++k) ts.emplace_back([&, k] { for(int i = 0; i < N; ++i) { int timeout = i % 8 == 7 ? 0 : 20000; DG d = q.c->Request(DG(), timeout); if(timeout ? !d.KeyExists("id") : (d.GetType() != messages::RawDatagramType::Empty && !d.KeyExists("id"))) bad = 1; scribble(); } });
    for(auto& t : ts) t.join(); over = true; answers.join();
    lpv::check(!bad, [] { return std::string("concurrent requests: a call that was answered returned something else"); });
    lpv::check((int)q.ids.size() == T * N && std::set<std::string>(q.ids.begin(), q.ids.end()).size() == q.ids.size(), [&] { return std::string("concurrent requests: ") + std::to_string(q.ids.size()) + " messages for " + std::to_string(T * N) + " requests"; });
    lpv::count("concurrent " + std::to_string(r));
  }
  for(long r = 0; r < lpv::scale(4); ++r) {   // through a bus, with a provider that answers late or not at all
    Root root; std::mutex m; std::vector<std::string> late; int n = 0;
    auto p = root.b->CreateActionProvider("/act", [&](std::shared_ptr<bus::ActionProvider> q, std::string id, DG d) { std::lock_guard<std::mutex> l(m); if(n++ % 3 == 2) late.push_back(id); else q->Respond(id, d["request"]); });
    auto c = root.b->CreateChildBus("x")->CreateActionConsumer("/act");
    root.start();
    for(int i = 0; i < 12; ++i) {
      DG d = payload(); std::string want = text(d); bool l = i % 3 == 2; auto t0 = Clock::now();
      DG g = c->Request(d, l ? 30 : 20000);
      std::string got = text(g);
      lpv::check(got == (l ? empty : want), [&] { return std::string(l ? "unanswered" : "answered") + " request " + want + " through the bus returned " + got + " after " + std::to_string(since(t0)) + " s"; });
    }
    scribble();
    root.flush();
    for(auto& id : late) p->Respond(id, payload());
    lpv::check(root.flush(), [] { return std::string("the late answers were not delivered"); });
    lpv::count("bus " + std::to_string(r));
    root.stop();
  }
  return lpv::done();
}
