// Cases: configuration files with random plugin lists (known and unknown types, types whose creation yields nothing or
// fails because the bus name is taken, entries without a type or that are no dictionaries, entries with and without
// configuration), processed by a real framework instance with stand-in plugin libraries; against a model.
#include "plugins.h"
#include <lamppost/LampPost.h>
using namespace plug;
static std::string ctx;
static std::string json(int depth) {
  switch(lpv::rnd(depth > 0 ? 6 : 4)) {
    case 0: return "\"" + std::string(lpv::rnd(4), 'a' + lpv::rnd(3)) + "\"";
    case 1: return std::to_string((int)lpv::rnd(100) - 50);
    case 2: return lpv::rnd(2) ? "true" : "false";
    case 3: return "null";
    case 4: { std::string r = "["; int n = lpv::rnd(4); for(int i = 0; i < n; ++i) r += std::string(i ? ", " : "") + json(depth - 1); return r + "]"; }
    default: { std::string r = "{"; int n = lpv::rnd(4); for(int i = 0; i < n; ++i) r += std::string(i ? ", " : "") + "\"" + std::string(1, 'a' + i) + "\": " + json(depth - 1); return r + "}"; }
  }
}
static std::string seen(const std::string& j) { return text(messages::Datagram::DeserializeFromJson(j)); }
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::ofstream null("/dev/null"); std::cout.rdbuf(null.rdbuf());
  for(long r = 0; r < lpv::scale(120); ++r) {
    reset(); ctx.clear();
    // "p" and "p1" collide on the name p10; "none" yields no instance; "absent" and "" are not registered
    std::vector<std::string> ids{"p", "p1", "q", "none", "ping"};
    for(size_t i = 0; i < ids.size(); ++i) { Lib l; l.id = ids[i]; l.makes = ids[i] != "none"; l.path = scratch() + "/libplugin_" + ids[i] + ".so"; libs.push_back(l); touch(l.path); }
    struct Want { int lib; std::string custom; bool made; }; std::vector<Want> want;
    std::map<std::string, std::set<std::string>> names; std::set<std::string> all;
    std::vector<std::string> cfgs; int nf = 1 + lpv::rnd(3); bool many = lpv::rnd(3) == 0;
    for(int f = 0; f < nf; ++f) {
      std::string t = "{", list; if(lpv::rnd(2)) t += "\"other\": " + json(2) + ", ";
      int n = lpv::rnd(many ? 25 : 6);
      for(int i = 0; i < n; ++i) {
        std::string e; int k = lpv::rnd(8);
        if(k == 0) e = lpv::rnd(2) ? "{}" : "{\"configuration\": " + json(2) + "}";
        else if(k == 1 && lpv::rnd(2)) e = json(0);
        else {
          std::string id = lpv::rnd(many ? 12 : 4) ? (many ? ids[lpv::rnd(2)] : ids[lpv::rnd(4)]) : lpv::rnd(2) ? "absent" : ids[3];
          std::string c = lpv::rnd(3) ? json(2) : "";
          bool odd = lpv::rnd(12) == 0;   // a type that is no text
          std::vector<std::string> parts{"\"type\": " + (odd ? std::string("5") : "\"" + id + "\"")}; if(!c.empty()) parts.push_back("\"configuration\": " + c); if(lpv::rnd(3) == 0) parts.push_back("\"x\": " + json(1));
          for(size_t a = parts.size(); a > 1; --a) std::swap(parts[a - 1], parts[lpv::rnd(a)]);
          e = "{"; for(size_t a = 0; a < parts.size(); ++a) e += (a ? ", " : "") + parts[a]; e += "}";
          int lib = -1; for(size_t a = 0; a < ids.size(); ++a) if(ids[a] == id) lib = a;
          if(lib >= 0 && !odd) {
            int num = 0; while(names[id].count(id + std::to_string(num))) ++num;
            std::string name = id + std::to_string(num);
            bool clash = all.count(name);
            if(!clash) { all.insert(name); bool made = libs[lib].makes; if(made) names[id].insert(name); want.push_back({lib, c.empty() ? "null" : seen(c), made}); }
          }
        }
        list += (i ? ", " : "") + e;
      }
      if(n || lpv::rnd(2)) t += "\"plugins\": [" + list + "]"; else t += "\"plugin\": []";
      t += "}";
      std::string fn = scratch() + "/c" + std::to_string(f) + ".json"; { std::ofstream o(fn); o << t; } files.insert(fn); cfgs.push_back(fn); ctx += t + "\n";
    }
    { std::string fn = scratch() + "/ping.json"; { std::ofstream o(fn); o << "{\"plugins\": [{\"type\": \"ping\"}]}"; } files.insert(fn); cfgs.push_back(fn); want.push_back({4, "null", true}); }
    PluginManagerConfiguration pc({scratch()}, nullptr);
    LampPost lamp(LampPostConfiguration(pc, std::list<std::string>(cfgs.begin(), cfgs.end())));
    std::atomic<bool> ended{false}; std::string error;
    std::thread t([&] { try { lamp.Start(); } catch(std::exception& e) { error = e.what(); if(error.empty()) error = "?"; } ended = true; });
    for(int i = 0; i < 30000 && !up && !ended; ++i) std::this_thread::sleep_for(std::chrono::microseconds(500));
    if(!ended) { if(!up) lpv::fail(ctx + "the root bus does not run, or the last plugin was not started"); lamp.Stop(); }
    for(int i = 0; i < 40000 && !ended; ++i) std::this_thread::sleep_for(std::chrono::microseconds(500));
    if(!ended) lpv::fail(ctx + "the instance does not end after it was stopped");
    t.join();
    lpv::check(error.empty(), [&] { return ctx + "processing the configuration ended with: " + error; });
    size_t at = 0; void* now = nullptr; int inits = 0; std::map<void*, int> runs, creates;
    for(auto& e : events) {
      if(e.what == "create" || e.what == "make-none") {
        lpv::check(now == nullptr || inits == 1, [&] { return ctx + "an instance was initialised " + std::to_string(inits) + " times before the next one was created"; });
        lpv::check(at < want.size(), [&] { return ctx + "more instances are created than listed"; });
        lpv::check(e.lib == want[at].lib && (e.what == "create") == want[at].made && e.custom == want[at].custom, [&] { return ctx + "request " + std::to_string(at) + " is for " + libs[e.lib].id + " with " + e.custom + ", expected " + libs[want[at].lib].id + " with " + want[at].custom; });
        ++at; now = e.who; inits = 0; if(e.what == "create") creates[e.who] = at;
      } else if(e.what == "init") { lpv::check(e.who == now, [&] { return ctx + "an instance is initialised late"; }); ++inits; }
      else if(e.what == "run") { ++runs[e.who]; lpv::check(e.who != now || inits == 1, [&] { return ctx + "an instance runs before it is initialised"; }); }
    }
    lpv::check(now == nullptr || inits == 1, [&] { return ctx + "the last instance was initialised " + std::to_string(inits) + " times"; });
    lpv::check(at == want.size(), [&] { return ctx + std::to_string(at) + " of " + std::to_string(want.size()) + " plugins were created"; });
    for(auto& c : creates) lpv::check(runs[c.first] == 1, [&] { return ctx + "instance " + std::to_string(c.second) + " was started " + std::to_string(runs[c.first]) + " times"; });
    lpv::count(ctx);
  }
  cleanup();
  return lpv::done();
}
