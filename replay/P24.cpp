// Cases: (prefix, message, level, kind) log calls whose exact output line is compared, then calls from
// several threads at once: every line must be unmixed, and at every write to the stream one common
// mutex must be held by the writing thread and none after the call. Non-trivial when distinct.
#include "lpv.h"
#include "locks.h"
#include <thread>
#include <mutex>
#include <map>
#include <lamppost/log/Log.h>

static std::mutex gMutex;
static std::string gOut;
static std::set<void*> gCommon; static bool gHave = false;
struct Sink : std::streambuf {
  void held() {
    std::set<void*> h = lpv_locks::held();
    std::lock_guard<std::mutex> l(gMutex);
    if(!gHave) { gCommon = h; gHave = true; }
    else { std::set<void*> c; for(void* p : gCommon) if(h.count(p)) c.insert(p); gCommon = c; }
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    held();
    for(std::streamsize i = 0; i < n; i += 3) { { std::lock_guard<std::mutex> l(gMutex); gOut.append(s + i, std::min<std::streamsize>(3, n - i)); } if(slow) std::this_thread::yield(); }
    return n;
  }
  int overflow(int c) override { char x = (char)c; xsputn(&x, 1); return c; }
  int sync() override { return 0; }
  bool slow = false;
};

static void call(lp::log::Log& l, int kind, const std::string& m, int level) {
  switch(kind) { case 0: l.Info(m, level); break; case 1: l.Warning(m, level); break; default: l.Error(m, level); }
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  Sink sink;
  std::streambuf* old = std::cout.rdbuf(&sink);
  std::streambuf* olde = std::cerr.rdbuf(&sink);
  (void)old; (void)olde;
  const char* kinds[] = {"Info", "Warning", "Error"};
  for(long i = 0; i < lpv::scale(6000); ++i) {
    std::string p = lpv::str("ab []"), m = lpv::str("ab []\n%s");
    static const int lv[] = {0, 1, 2, 3, 5, 10, 31, 32, 33, 100, 1000, -1, -2, -2147483647 - 1};
    int level = i < 14 ? lv[i] : lpv::rnd(3) ? (int)lpv::rnd(8) : lpv::rnd(4) ? lv[lpv::rnd(14)] : (int)(lpv::integer() % 3000);
    int kind = lpv::rnd(3);
    std::string ctx = std::string(kinds[kind]) + " prefix=" + lpv::show(p).substr(0, 200) + " message=" + lpv::show(m).substr(0, 200) + " level=" + std::to_string(level);
    lpv::count(ctx);
    gOut.clear();
    lp::log::Log l(p);
    call(l, kind, m, level);
    std::string want = "[" + p + "] " + std::string(level > 0 ? 2 * (size_t)level : 0, ' ') + m + "\n";
    lpv::check(gOut == want, [&] { return ctx + " wrote " + lpv::show(gOut).substr(0, 300); });
    lpv::check(lpv_locks::held().empty(), [&] { return ctx + ": a lock is still held after the call"; });
  }
  lpv::check(gHave && !gCommon.empty(), [&] { return "no common lock is held while writing"; });
  sink.slow = true;
  for(long r = 0; r < lpv::scale(5); ++r) {
    gOut.clear();
    std::vector<std::thread> ts;
    std::map<std::string, int> want, got;
    for(int t = 0; t < 6; ++t) for(int i = 0; i < 60; ++i) want["[t" + std::to_string(t) + "] " + std::string(2 * (i % 4), ' ') + "message " + std::to_string(i) + " of a thread"]++;
    for(int t = 0; t < 6; ++t) ts.emplace_back([t] { lp::log::Log l("t" + std::to_string(t)); for(int i = 0; i < 60; ++i) call(l, i % 3, "message " + std::to_string(i) + " of a thread", i % 4); });
    for(auto& t : ts) t.join();
    std::istringstream in(gOut);
    std::string line;
    while(std::getline(in, line)) got[line]++;
    lpv::count("threads " + std::to_string(r));
    lpv::check(got == want, [&] { std::string x; for(auto& g : got) if(!want.count(g.first)) { x = g.first; break; } return "lines of concurrent calls are mixed or missing, e.g. " + lpv::show(x); });
    lpv::check(!gCommon.empty(), [&] { return "no common lock is held while concurrent calls write"; });
  }
  std::cout.rdbuf(old); std::cerr.rdbuf(olde);
  return lpv::done();
}
