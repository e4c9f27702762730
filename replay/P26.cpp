// Cases: pairs of configurations (bus, search path list, configuration file list), lists of up to four
// short strings, one derived from the other by small edits; non-trivial when distinct. AddressSanitizer
// sees reads outside a list.
#include "lpv.h"
#include <lamppost/LampPostConfiguration.h>
#include <lamppost/bus/Bus.h>
typedef std::list<std::string> L;

static std::string sh(const L& l) { std::string r = "["; for(auto& x : l) r += lpv::show(x) + ","; return r + "]"; }
static L mk() { L l; for(size_t n = lpv::rnd(4); n > 0; --n) l.push_back(lpv::rnd(3) ? std::string(1, 'a' + lpv::rnd(2)) : lpv::str("ab/")); return l; }
static L mut(L l) {
  switch(lpv::rnd(8)) {
    case 0: l.push_back("x"); break;
    case 1: if(!l.empty()) l.pop_back(); break;
    case 2: if(!l.empty()) l.pop_front(); break;
    case 3: l.push_front("a"); break;
    case 4: l.reverse(); break;
    case 5: if(!l.empty()) l.front() += lpv::rnd(2) ? "a" : "/"; break;
    case 6: if(!l.empty()) l.push_back(l.back()); break;
    default: break;
  }
  return l;
}
static bool eq(const L& a, const L& b) { return a == b; }

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::shared_ptr<lp::bus::Bus> buses[3] = {nullptr, std::make_shared<lp::bus::Bus>("a"), std::make_shared<lp::bus::Bus>("a")};
  for(long i = 0; i < lpv::scale(40000); ++i) {
    int b1 = lpv::rnd(3), b2 = lpv::rnd(2) ? b1 : lpv::rnd(3);
    L s1 = mk(), s2 = lpv::rnd(6) ? mut(s1) : mk(), f1 = mk(), f2 = lpv::rnd(6) ? mut(f1) : mk();
    if(lpv::rnd(3) == 0) s2 = s1;
    if(lpv::rnd(3) == 0) f2 = f1;
    std::string ctx = "bus " + std::to_string(b1) + "/" + std::to_string(b2) + " paths " + sh(s1) + "/" + sh(s2) + " files " + sh(f1) + "/" + sh(f2);
    lpv::count(ctx);
    lp::PluginManagerConfiguration p1(s1, buses[b1]), p2(s2, buses[b2]);
    bool we = b1 == b2 && eq(s1, s2);
    lpv::check((p1 == p2) == we, [&] { return "PluginManagerConfiguration == wrong: " + ctx; });
    lpv::check((p1 != p2) == !we, [&] { return "PluginManagerConfiguration != wrong: " + ctx; });
    lp::LampPostConfiguration l1(p1, f1), l2(p2, f2);
    bool wl = we && eq(f1, f2);
    lpv::check((l1 == l2) == wl, [&] { return "LampPostConfiguration == wrong: " + ctx; });
    lpv::check((l1 != l2) == !wl, [&] { return "LampPostConfiguration != wrong: " + ctx; });
    lpv::check(p1.mTemplateSearchPaths == s1 && p1.mBus == buses[b1] && l1.mConfigurationFiles == f1 && l2.mConfigurationFiles == f2 && p2.mTemplateSearchPaths == s2, [&] { return "comparison changed an operand: " + ctx; });
    lpv::check(l1 == l1 && !(l1 != l1) && p2 == p2, [&] { return "not reflexive: " + ctx; });
  }
  return lpv::done();
}
