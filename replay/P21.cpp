// Cases: framework instances with random sets of plugin libraries and configuration files, started in a thread and
// stopped from outside; at every observable event (library opened, plugin created, initialised, deinitialised,
// library closed) the instance must not report that it has stopped, and the events must come in the right order.
#include "plugins.h"
#include <lamppost/LampPost.h>
using namespace plug;
static std::string ctx;
static LampPost* cur = nullptr;
static std::atomic<int> phase{0};   // 0 before the stop request, 1 after it, 2 after Start has returned
static std::atomic<long> opened{0}, made{0}, gone{0}, closed{0};
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
  for(long r = 0; r < lpv::scale(60); ++r) {
    reset(); ctx.clear(); phase = 0; opened = made = gone = closed = 0;
    int n = lpv::rnd(5), nf = lpv::rnd(4); std::vector<std::string> cfgs; int want = 0;
    for(int i = 0; i < n; ++i) { Lib l; l.id = "t" + std::to_string(i); l.path = scratch() + "/libplugin_" + std::to_string(i) + ".so"; libs.push_back(l); touch(l.path); }
    for(int i = 0; i < nf; ++i) { std::string f = scratch() + "/c" + std::to_string(i) + ".json", t = "{\"plugins\": ["; int k = n ? lpv::rnd(3) : 0;
      for(int j = 0; j < k; ++j) { t += std::string(j ? "," : "") + "{\"type\": \"t" + std::to_string(lpv::rnd(n)) + "\", \"configuration\": {\"a\": " + std::to_string(j) + "}}"; ++want; }
      { std::ofstream o(f); o << t << "]}"; } files.insert(f); cfgs.push_back(f); }
    { Lib l; l.id = "ping"; l.path = scratch() + "/libplugin_ping.so"; libs.push_back(l); touch(l.path); std::string f = scratch() + "/ping.json"; { std::ofstream o(f); o << "{\"plugins\": [{\"type\": \"ping\"}]}"; } files.insert(f); cfgs.insert(cfgs.begin() + lpv::rnd(cfgs.size() + 1), f); ++n; ++want; }
    ctx = std::to_string(n) + " libraries, " + std::to_string(nf) + " files, " + std::to_string(want) + " plugins";
    PluginManagerConfiguration pc({scratch()}, nullptr);
    LampPostConfiguration lc(pc, std::list<std::string>(cfgs.begin(), cfgs.end()));
    LampPost lamp(lc); cur = &lamp;
    lpv::check(!lamp.IsStopped(), [&] { return ctx + ": a new instance reports that it has stopped"; });
    onEvent = [&](const char* w) {
      std::string e = w;
      if(phase < 2 && cur) lpv::check(!cur->IsStopped(), [&] { return ctx + ": reports that it has stopped at event " + e; });
      if(e == "open") { ++opened; lpv::check(made == 0, [&] { return ctx + ": a library is opened after a configuration was read"; }); }
      if(e == "create") { ++made; lpv::check(opened == n, [&] { return ctx + ": a configuration is read before all templates are loaded"; }); }
      if(e == "deinit") { ++gone; lpv::check(phase >= 1, [&] { return ctx + ": templates are unloaded before the bus was stopped"; }); }
      if(e == "close") { ++closed; lpv::check(phase >= 1, [&] { return ctx + ": a library is closed before the bus was stopped"; }); } };
    std::atomic<bool> ended{false}; std::string error;
    std::thread t([&] { try { lamp.Start(); } catch(std::exception& e) { error = e.what(); if(error.empty()) error = "?"; } ended = true; });
    for(int i = 0; i < 20000 && (made < want || !up) && !ended; ++i) std::this_thread::sleep_for(std::chrono::microseconds(500));
    lpv::check(!ended, [&] { return ctx + ": Start ends without having been stopped " + error; });
    lpv::check(made == want, [&] { return ctx + ": " + std::to_string(made) + " plugins were created"; });
    lpv::check(!lamp.IsStopped(), [&] { return ctx + ": reports that it has stopped while it runs"; });
    phase = 1;
    lpv::check(up, [&] { return ctx + ": the root bus does not run"; });
    lamp.Stop();
    for(int i = 0; i < 20000 && !ended; ++i) std::this_thread::sleep_for(std::chrono::microseconds(500));
    lpv::check(ended, [&] { return ctx + ": does not end after it was stopped"; });
    t.join(); onEvent = nullptr; phase = 2;
    lpv::check(error.empty(), [&] { return ctx + ": Start throws " + error; });
    lpv::check(lamp.IsStopped(), [&] { return ctx + ": does not report that it has stopped after Start returned"; });
    lpv::check(gone == want && closed == n, [&] { return ctx + ": after Start " + std::to_string(gone) + " instances are deinitialised and " + std::to_string(closed) + " libraries closed"; });
    cur = nullptr;
    lpv::count(ctx);
  }
  cleanup();
  return lpv::done();
}
