// Cases: sequences of loads of existing and missing files with all kinds of names, backed by stand-in libraries that
// cannot be opened, lack entry points, report no or an empty identifier or are complete; against a model.
#include "plugins.h"
using namespace plug;
static std::string ctx;
template<int I> static PluginTemplateInfo* NoInfo() { return nullptr; }
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
  std::vector<std::string> names{"libplugin_a.so", "libplugin_.so", "libplugin_b.so.1", "libplugin_c.dll", "plugin_d.so", "xlibplugin_e.so", "libplugin.so", "Libplugin_f.so", "libplugin_g", "libplugin_h.SO", "libplugin_i.x.so", "libplugin_so", "libplugin_j.soo", ".so", "libplugin_k.so.", "so", "libplugin_l.so", "libplugin_m.so", "liblibplugin_.so", "libplugin_n .so"};
  for(long r = 0; r < lpv::scale(2500); ++r) {
    reset(); ctx.clear();
    std::map<std::string, int> reg;  // identifier -> library
    auto root = std::make_shared<bus::Bus>("root");
    std::vector<std::string> paths;
    { PluginManager pm(PluginManagerConfiguration({}, root));
      // an earlier template
      Lib f; f.id = "first"; f.path = scratch() + "/libplugin_first.so"; libs.push_back(f); touch(f.path); if(!(plug::load(pm, f.path, 0) == 1 || true)) return 1;
      bool direct = plug::load(pm, scratch() + "/none", 0) != -1;
      int n = 1 + lpv::rnd(5);
      for(int i = 1; i <= n; ++i) {
        Lib l; l.path = scratch() + "/" + (lpv::rnd(3) ? "libplugin_" + std::to_string(i) + ".so" : lpv::rnd(4) ? names[lpv::rnd(names.size())] : lpv::rnd(2) ? "libplugin_" + lpv::str("ab._ ") + ".so" : lpv::str("libplugn_.so"));
        if(l.path.find('\0') != std::string::npos || l.path.size() > 200) l.path = scratch() + "/libplugin_z.so";
        bool taken = false; for(auto& o : libs) taken = taken || o.path == l.path; if(taken) l.path = scratch() + "/libplugin_t" + std::to_string(i) + ".so";
        l.opens = lpv::rnd(6); l.info = lpv::rnd(6); l.create = lpv::rnd(6); l.id = lpv::rnd(6) ? "id" + std::to_string(i) : "";
        bool noReport = lpv::rnd(8) == 0; static void* keep[N] = {infos[0], infos[1], infos[2], infos[3], infos[4], infos[5], infos[6], infos[7]};
        infos[i] = noReport ? (void*)&NoInfo<0> : keep[i];
        libs.push_back(l);
        bool file = lpv::rnd(6);
        size_t slash = l.path.rfind('/'); std::string base = l.path.substr(slash + 1);
        if(file && base.find('/') == std::string::npos && !base.empty() && base != "." && base != "..") { struct stat s; if(stat(l.path.c_str(), &s) != 0) touch(l.path); }
        struct stat s; bool exists = stat(l.path.c_str(), &s) == 0;
        size_t dot = base.rfind('.'); std::string ext = dot == std::string::npos ? "" : base.substr(dot + 1);
        bool named = exists && ext == "so" && base.compare(0, 10, "libplugin_") == 0;
        if(dot == std::string::npos || dot == 0) named = named && false;
        bool good = named && l.opens && l.info && l.create && !noReport && !l.id.empty();
        ctx += lpv::show(base) + (exists ? "" : " missing") + (l.opens ? "" : " !open") + (l.info ? "" : " !info") + (l.create ? "" : " !create") + (noReport ? " null-info" : l.id.empty() ? " !id" : "") + "; ";
        asked.clear(); size_t closedBefore = libs[i].closed;
        int ok = plug::load(pm, l.path, 0);
        if(ok == -1) { pm.AddTemplateSearchPath(scratch()); pm.LoadTemplates(); }
        else {
          lpv::check(ok == (good ? 1 : 0), [&] { return ctx + "LoadTemplate reports " + (ok ? "success" : "failure"); });
          lpv::check(asked.size() == (named ? 1 : 0) && (!named || asked[0] == l.path), [&] { return ctx + "opens " + std::to_string(asked.size()) + " libraries"; });
          lpv::check(libs[i].opened == (named && l.opens ? 1 : 0) && libs[i].closed == (named && l.opens && !good ? 1 : 0), [&] { return ctx + "opened " + std::to_string(libs[i].opened) + " times, closed " + std::to_string(libs[i].closed) + " times"; });
        }
        if(good) reg[l.id] = i;
        lpv::check(libs[0].closed == 0, [&] { return ctx + "the library of another template is closed"; });
        for(int k = 0; k <= n && direct; ++k) { std::string id = k == 0 ? "first" : "id" + std::to_string(k); bool there = k == 0 || reg.count(id);
          { std::lock_guard<std::mutex> g(mtx); events.clear(); }
          auto p = pm.InstantiateTemplate(id, PluginConfiguration());
          lpv::check((p != nullptr) == there, [&] { return ctx + "template " + id + (there ? " is not registered" : " is registered"); });
          if(p) lpv::check(static_cast<Inst*>(p.get())->lib == (k == 0 ? 0 : reg[id]), [&] { return ctx + "template " + id + " creates instances of another library"; }); }
        lpv::check(pm.InstantiateTemplate("", PluginConfiguration()) == nullptr, [&] { return ctx + "a template without name is registered"; });
      }
      for(int i = 1; i < N; ++i) { }
    }
    lpv::count(ctx);
  }
  cleanup();
  return lpv::done();
}
