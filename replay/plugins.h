// Stand-in plugin libraries: dlopen, dlsym, dlclose and dlerror are renamed to lpv_* when the code is compiled for
// a replay (HARNESS_FLAGS of the specification), and answer from the table below.  The files themselves exist
// (empty) in a scratch directory below the working directory of the replay.
#pragma once
#include "bus.h"
#include <sys/stat.h>
#include <unistd.h>
#include <lamppost/plugin/PluginManager.h>

namespace plug {
  using namespace lp; using lpvbus::text;
  struct Event { std::string what; void* who; int lib; std::string name; std::string custom; };
  static std::mutex mtx; static std::vector<Event> events;
  static std::atomic<long> live{0}, running{0}; static std::function<void(const char*)> onEvent;
  inline void note(const std::string& w, void* p, int l, const std::string& n = "", const std::string& c = "") { { std::lock_guard<std::mutex> g(mtx); events.push_back({w, p, l, n, c}); } if(onEvent) onEvent(w.c_str()); }

  static std::atomic<bool> up{false};   // the bus distributes messages (reported by instances of "ping")
  struct Inst : PluginInstance {
    int lib; std::atomic<int> inits{0}, runs{0}, deinits{0}; std::atomic<bool> in{false}, out{false}; bool ends, ping = false; std::shared_ptr<bus::Subscriber> sub;
    Inst(PluginConfiguration c, int l) : PluginInstance(c), lib(l), ends(lpv::rnd(6) == 0) { ++live; note("create", this, l, c.mIdentifier, text(c.mCustomConfiguration)); }
    ~Inst() override { --live; note("destroy", this, lib); }
    void Initialize() override { inits++; note("init", this, lib); if(ping) { sub = GetBus()->CreateSubscriber("/lpv/up"); sub->SetMessageCallback([](messages::Message) { up = true; }); } }
    void Run() override { runs++; in = true; ++running; note("run", this, lib); while(mShouldRun && (ping || !ends)) { if(ping && !up) GetBus()->Publish("/lpv/up", messages::Datagram()); std::this_thread::sleep_for(std::chrono::microseconds(50)); } note("end", this, lib); --running; out = true; }
    void Deinitialize() override { deinits++; if(sub) { GetBus()->DeleteSubscriber(sub); sub = nullptr; } note("deinit", this, lib); }
  };
  // what a library offers: it can be opened, has the entry points, reports an identifier, creates instances
  struct Lib { std::string path; bool opens = true, info = true, create = true, makes = true; std::string id; int opened = 0, closed = 0; };
  static std::vector<Lib> libs; static std::map<void*, int> handles; static std::vector<std::string> asked; static int failClose = 0;
  static char cells[4096]; static int nextCell = 0; static std::function<void(int)> onClose;
  const int N = 8;
  template<int I> PluginTemplateInfo* Info() { auto* i = new PluginTemplateInfo(); i->mIdentifier = libs[I].id; i->mVersion = Version(); note("info", nullptr, I); return i; }
  template<int I> PluginInstance* Create(PluginConfiguration c) { if(!libs[I].makes) { note("make-none", nullptr, I, c.mIdentifier, text(c.mCustomConfiguration)); return nullptr; } auto* r = new Inst(c, I); r->ping = libs[I].id == "ping"; return r; }
  static void* infos[N] = {(void*)&Info<0>, (void*)&Info<1>, (void*)&Info<2>, (void*)&Info<3>, (void*)&Info<4>, (void*)&Info<5>, (void*)&Info<6>, (void*)&Info<7>};
  static void* makers[N] = {(void*)&Create<0>, (void*)&Create<1>, (void*)&Create<2>, (void*)&Create<3>, (void*)&Create<4>, (void*)&Create<5>, (void*)&Create<6>, (void*)&Create<7>};
  inline std::string scratch() { static std::string d = [] { char b[] = "plugXXXXXX"; return std::string(mkdtemp(b)); }(); return d; }
  static std::set<std::string> files;
  inline void touch(const std::string& p) { std::ofstream(p) << ""; files.insert(p); }
  inline void reset() { for(auto& f : files) unlink(f.c_str()); files.clear(); std::lock_guard<std::mutex> g(mtx); events.clear(); libs.clear(); handles.clear(); asked.clear(); failClose = 0; nextCell = 0; onClose = nullptr; onEvent = nullptr; up = false; }
  inline void cleanup() { reset(); rmdir(scratch().c_str()); }
  template<class M> auto load(M& m, const std::string& f, int) -> decltype((bool)m.LoadTemplate(f)) { return m.LoadTemplate(f); }
  template<class M> int load(M& m, const std::string& f, long) { return -1; }
}
extern "C" {
  void* lpv_dlopen(const char* f, int) noexcept {
    using namespace plug;
    std::string p = f ? f : ""; asked.push_back(p);
    for(size_t i = 0; i < libs.size(); ++i) if(libs[i].path == p) {
      if(!libs[i].opens) { note("open-fails", nullptr, i); return nullptr; }
      libs[i].opened++; void* h = &cells[nextCell++]; handles[h] = i; note("open", h, i); return h; }
    return nullptr;
  }
  void* lpv_dlsym(void* h, const char* s) noexcept {
    using namespace plug;
    if(!handles.count(h)) lpv::fail("dlsym on a library that is not open");
    int i = handles[h]; std::string n = s;
    if(n == "CreateInfo") return libs[i].info ? infos[i] : nullptr;
    if(n == "CreateInstance") return libs[i].create ? makers[i] : nullptr;
    return nullptr;
  }
  int lpv_dlclose(void* h) noexcept {
    using namespace plug;
    if(!handles.count(h)) lpv::fail("dlclose on a library that is not open");
    int i = handles[h]; handles.erase(h); libs[i].closed++; note("close", h, i); if(onClose) onClose(i);
    return failClose ? 1 : 0;
  }
  char* lpv_dlerror(void) noexcept { static char e[] = "stand-in error"; return e; }
}
