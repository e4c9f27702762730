// Cases: random sequences of instantiations of several templates under several buses, with bus names that are taken
// already and creation functions that throw or create nothing, against a model; unloading shows what was registered.
#include "bus.h"
#include <lamppost/plugin/PluginTemplate.h>
#include <lamppost/exceptions/DuplicateKeyException.h>
using namespace lpvbus;
struct Made { std::string id; std::shared_ptr<bus::Bus> b; std::string custom; };
static std::vector<Made> made; static std::map<std::string, int> deinit; static std::string mode; static std::string ctx;
struct Inst : PluginInstance {
  std::string key; Inst(PluginConfiguration c, std::string k) : PluginInstance(c), key(k) {}
  void Initialize() override {} void Run() override {} void Deinitialize() override { deinit[key]++; }
  std::string custom() { return text(GetCustomConfiguration()); }
};
struct Live { int tpl; std::string name, custom; std::shared_ptr<PluginInstance> p; std::shared_ptr<bus::Bus> b; };
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
  for(long r = 0; r < lpv::scale(1500); ++r) {
    ctx.clear(); deinit.clear();
    auto root = std::make_shared<bus::Bus>("root");
    std::vector<std::shared_ptr<bus::Bus>> bs{root, root->CreateChildBus("a"), root->CreateChildBus("b")};
    std::vector<std::string> names{"p", "p1", lpv::str("ab1"), "Link"};
    std::vector<std::unique_ptr<PluginTemplate>> ts; std::vector<int> next;
    std::vector<std::set<std::string>> taken(bs.size()); taken[0] = {"a", "b"};
    for(size_t i = 0; i < names.size(); ++i) { ts.emplace_back(new PluginTemplate(PluginTemplateConfiguration(names[i], Version(), [i](PluginConfiguration c) -> std::shared_ptr<PluginInstance> {
        made.push_back({c.mIdentifier, c.mBus, text(c.mCustomConfiguration)});
        if(mode == "throw") throw 7; if(mode == "null") return nullptr;
        return std::make_shared<Inst>(c, std::to_string(i) + ":" + c.mIdentifier); }))); next.push_back(0); }
    std::vector<Live> live;
    int steps = 3 + lpv::rnd(30);
    for(int s = 0; s < steps; ++s) {
      int i = lpv::rnd(names.size()), b = lpv::rnd(bs.size());
      if(lpv::rnd(12) == 0) { std::string n = names[i] + std::to_string(next[i]); if(taken[b].insert(n).second) bs[b]->CreateChildBus(n); ctx += "take " + n + "; "; continue; }
      mode = lpv::rnd(12) ? "" : lpv::rnd(2) ? "throw" : "null";
      PluginConfiguration c; c.mIdentifier = lpv::rnd(2) ? "x" : ""; if(lpv::rnd(2)) c.mBus = bs[lpv::rnd(bs.size())]; c.mCustomConfiguration = payload();
      std::string want = text(c.mCustomConfiguration), name = names[i] + std::to_string(next[i]);
      bool clash = taken[b].count(name);
      made.clear(); ctx += mode + " " + lpv::show(name) + "@" + std::to_string(b) + "; ";
      std::shared_ptr<PluginInstance> p; std::string how = "ok";
      try { p = ts[i]->Instantiate(c, bs[b]); } catch(exceptions::DuplicateKeyException&) { how = "duplicate"; } catch(int) { how = "throw"; }
      taken[b].insert(name);
      if(clash) { lpv::check(how == "duplicate" && made.empty(), [&] { return ctx + "the bus name is taken, but: " + how; }); }
      else {
        lpv::check(made.size() == 1, [&] { return ctx + "created " + std::to_string(made.size()) + " instances"; });
        lpv::check(how == (mode == "throw" ? "throw" : "ok") && (p != nullptr) == (mode == ""), [&] { return ctx + "Instantiate: " + how; });
        lpv::check(made[0].id == name, [&] { return ctx + "created as " + lpv::show(made[0].id); });
        lpv::check(made[0].b != nullptr && made[0].b == bs[b]->GetChildBus(name) && made[0].b->GetIdentifier() == name, [&] { return ctx + "wrong bus"; });
        lpv::check(made[0].custom == want, [&] { return ctx + "created with " + made[0].custom + " instead of " + want; });
        if(p) { live.push_back({i, name, want, p, made[0].b}); next[i]++; }
      }
      for(auto& l : live) lpv::check(l.p->GetIdentifier() == l.name && l.p->GetBus() == l.b && static_cast<Inst*>(l.p.get())->custom() == l.custom, [&] { return ctx + "instance " + l.name + " changed"; });
      lpv::check(deinit.empty(), [&] { return ctx + "an instance was deinitialised"; });
    }
    for(auto& t : ts) t->Unload();
    lpv::check(deinit.size() == live.size(), [&] { return ctx + std::to_string(deinit.size()) + " of " + std::to_string(live.size()) + " instances were registered"; });
    for(auto& d : deinit) lpv::check(d.second == 1, [&] { return ctx + d.first + " was registered " + std::to_string(d.second) + " times"; });
    lpv::count(ctx);
    live.clear();
  }
  return lpv::done();
}
