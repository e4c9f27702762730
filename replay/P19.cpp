// Cases: templates with random numbers of instances (running, finished, never started) unloaded directly, and plugin
// managers with random sets of stand-in libraries unloaded (twice, and by destruction), closing with and without error.
#include "plugins.h"
using namespace plug;
static std::string ctx;
static void look(const std::vector<std::shared_ptr<PluginInstance>>& is, const std::set<PluginInstance*>& started, const std::string& when) {
  for(auto& p : is) { auto* q = static_cast<Inst*>(p.get());
    lpv::check(q->deinits == 1, [&] { return ctx + when + ": an instance was deinitialised " + std::to_string(q->deinits) + " times"; });
    bool s = started.count(q);
    lpv::check(q->runs == (s ? 1 : 0) && q->out == s, [&] { return ctx + when + ": an instance is not stopped"; }); }
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
  for(long r = 0; r < lpv::scale(150); ++r) {
    reset(); ctx.clear();
    auto root = std::make_shared<bus::Bus>("root");
    PluginTemplate t(PluginTemplateConfiguration("t", Version(), [](PluginConfiguration c) { return std::shared_ptr<PluginInstance>(new Inst(c, 0)); }));
    std::vector<std::shared_ptr<PluginInstance>> is; std::set<PluginInstance*> st;
    int n = lpv::rnd(14);
    for(int i = 0; i < n; ++i) { is.push_back(t.Instantiate(PluginConfiguration(), root)); is.back()->Initialize(); if(lpv::rnd(4)) { is.back()->Start(); st.insert(is.back().get()); } ctx += st.count(is.back().get()) ? "s" : "-"; }
    for(auto* p : st) while(!static_cast<Inst*>(p)->in) std::this_thread::yield();
    ctx += ": ";
    t.Unload();
    look(is, st, "after Unload");
    // every end of a worker comes before every deinitialisation
    { std::lock_guard<std::mutex> g(mtx); bool de = false; for(auto& e : events) { if(e.what == "deinit") de = true; lpv::check(!(de && e.what == "end"), [&] { return ctx + "an instance is deinitialised before another one is stopped"; }); } }
    size_t before = events.size();
    t.Unload();
    lpv::check(events.size() == before, [&] { return ctx + "an instance is still registered after Unload"; });
    is.clear();
    lpv::count(ctx);
  }
  for(long r = 0; r < lpv::scale(120); ++r) {
    reset(); ctx.clear();
    int n = lpv::rnd(N + 1); failClose = lpv::rnd(4) == 0;
    for(int i = 0; i < n; ++i) { Lib l; l.id = std::string(1, (char)('a' + (i * 5 + 3) % 8)) + (lpv::rnd(2) ? "x" : ""); l.path = scratch() + "/libplugin_" + std::to_string(i) + ".so"; libs.push_back(l); touch(l.path); }
    std::vector<std::shared_ptr<PluginInstance>> is; std::set<PluginInstance*> st; std::map<int, std::vector<Inst*>> of;
    auto root = std::make_shared<bus::Bus>("root");
    { PluginManager pm(PluginManagerConfiguration({scratch()}, root));
      pm.LoadTemplates();
      for(int i = 0; i < n; ++i) { int k = lpv::rnd(4); for(int j = 0; j < k; ++j) { auto p = pm.InstantiateTemplate(libs[i].id, PluginConfiguration()); if(!p) lpv::fail("a loaded template cannot be instantiated"); is.push_back(p); of[i].push_back(static_cast<Inst*>(p.get())); if(lpv::rnd(3)) { p->Start(); st.insert(p.get()); while(!of[i].back()->in) std::this_thread::yield(); } } ctx += libs[i].id + ":" + std::to_string(k) + " "; }
      if(failClose) ctx += "(closing fails) ";
      onClose = [&](int i) { for(auto* q : of[i]) lpv::check(q->deinits == 1 && (!st.count(q) || q->out), [&] { return ctx + "the library of " + libs[i].id + " is closed before its template is unloaded"; });
        lpv::check(libs[i].closed == 1, [&] { return ctx + "the library of " + libs[i].id + " is closed twice"; }); };
      bool explicitly = lpv::rnd(3);
      if(explicitly) {
        pm.UnloadTemplates();
        look(is, st, "after UnloadTemplates");
        for(int i = 0; i < n; ++i) { lpv::check(libs[i].closed == 1, [&] { return ctx + "the library of " + libs[i].id + " is not closed"; });
          lpv::check(pm.InstantiateTemplate(libs[i].id, PluginConfiguration()) == nullptr, [&] { return ctx + "template " + libs[i].id + " is still registered"; }); }
        size_t before = events.size();
        pm.UnloadTemplates();
        lpv::check(events.size() == before, [&] { return ctx + "a second UnloadTemplates does something"; });
      }
    }
    look(is, st, "after the manager is gone");
    for(int i = 0; i < n; ++i) lpv::check(libs[i].closed == 1, [&] { return ctx + "the library of " + libs[i].id + " was closed " + std::to_string(libs[i].closed) + " times"; });
    for(int l = 0; l < n; ++l) { std::lock_guard<std::mutex> g(mtx); bool de = false; for(auto& e : events) if(e.lib == l) { if(e.what == "deinit") de = true; lpv::check(!(de && e.what == "end"), [&] { return ctx + "an instance is deinitialised before another one of its template is stopped"; }); } }
    is.clear();
    lpv::count(ctx);
  }
  cleanup();
  return lpv::done();
}
