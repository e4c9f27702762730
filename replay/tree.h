// A reference model of payloads, random payloads built through the public interface, and comparison
// of a real node with the model through the public interface only.
#pragma once
#include "lpv.h"
#include <cmath>
#include <lamppost/messages/Message.h>

namespace lpvtree {
  using lp::messages::RawDatagram;
  using lp::messages::RawDatagramType;
  typedef lp::messages::Datagram DG;
  typedef lp::messages::Message MSG;
  typedef std::shared_ptr<RawDatagram> RP;
  enum K { E, L, D, VS, VI, VD, VB };

  struct M {
    K k = E;
    std::vector<M> l;
    std::map<std::string, M> d;
    std::string s; int i = 0; double x = 0; bool b = false;
    bool list() const { return k == L; }
    bool dict() const { return k == D; }
    bool val() const { return k >= VS; }
    void become(K n) { if(k != n) { M f; f.k = n; *this = f; } }
    static M str(const std::string& v) { M m; m.k = VS; m.s = v; return m; }
    static M integer(int v) { M m; m.k = VI; m.i = v; return m; }
    static M real(double v) { M m; m.k = VD; m.x = v; return m; }
    static M boolean(bool v) { M m; m.k = VB; m.b = v; return m; }
  };

  inline bool dsame(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }
  inline bool equal(const M& a, const M& b) {
    if(a.k != b.k) return false;
    switch(a.k) {
      case E: return true;
      case L: if(a.l.size() != b.l.size()) return false; for(size_t i = 0; i < a.l.size(); ++i) if(!equal(a.l[i], b.l[i])) return false; return true;
      case D: { if(a.d.size() != b.d.size()) return false; for(auto& p : a.d) { auto it = b.d.find(p.first); if(it == b.d.end() || !equal(p.second, it->second)) return false; } return true; }
      case VS: return a.s == b.s;
      case VI: return a.i == b.i;
      case VD: return a.x == b.x;
      default: return a.b == b.b;
    }
  }

  inline std::string show(const M& m, int depth = 0) {
    std::ostringstream o;
    switch(m.k) {
      case E: return "null";
      case L: o << "["; for(size_t i = 0; i < m.l.size(); ++i) o << (i ? ", " : "") << (o.tellp() > 300 ? "..." : show(m.l[i])); o << "]"; break;
      case D: { o << "{"; bool f = true; for(auto& p : m.d) { o << (f ? "" : ", ") << lpv::show(p.first).substr(0, 60) << ": " << (o.tellp() > 300 ? "..." : show(p.second)); f = false; } o << "}"; break; }
      case VS: return "string " + lpv::show(m.s).substr(0, 80);
      case VI: return "int " + std::to_string(m.i);
      case VD: o.precision(17); o << "double " << m.x; break;
      default: return m.b ? "true" : "false";
    }
    return o.str();
  }

  inline double real() {
    static const double v[] = {0.0, -0.0, 1.0, -1.5, 0.1, 3.14159265358979, 1e300, -1e-300, 4294967296.5, 2147483648.0, 5e-324};
    switch(lpv::rnd(3)) { case 0: return v[lpv::rnd(11)]; case 1: return (double)lpv::integer(); default: return (double)(long)lpv::rnd() / 1024.0; }
  }
  inline std::string key() { return lpv::rnd(3) ? std::string(1, 'a' + lpv::rnd(4)) : lpv::str("ab/1 "); }
  inline M value() {
    switch(lpv::rnd(5)) { case 0: case 1: return M::str(lpv::str("ab/1 \"\\")); case 2: return M::integer((int)lpv::integer()); case 3: return M::real(real()); default: return M::boolean(lpv::rnd(2)); }
  }
  inline M tree(int depth = 3) {
    M m;
    switch(lpv::rnd(depth > 0 ? 10 : 4)) {
      case 0: return m;
      case 1: case 2: case 3: return value();
      case 4: case 5: case 6: { m.k = L; size_t n = lpv::rnd(5); if(lpv::rnd(60) == 0) n = 40; for(size_t i = 0; i < n; ++i) m.l.push_back(tree(depth - 1)); return m; }
      default: { m.k = D; size_t n = lpv::rnd(5); if(lpv::rnd(60) == 0) n = 40; for(size_t i = 0; i < n; ++i) m.d[n == 40 ? "k" + std::to_string(lpv::rnd(60)) : key()] = tree(depth - 1); return m; }
    }
  }

  inline void assign(RawDatagram& r, const M& m) {
    switch(m.k) { case VS: r = m.s; break; case VI: r = m.i; break; case VD: r = m.x; break; default: r = m.b; }
  }
  inline RP build(const M& m) {
    RP r = std::make_shared<RawDatagram>();
    switch(m.k) {
      case E: break;
      case L: r = std::make_shared<RawDatagram>(RawDatagramType::List); for(auto& c : m.l) r->Add(build(c)); break;
      case D: r = std::make_shared<RawDatagram>(RawDatagramType::Dictionary); for(auto& p : m.d) r->Get(p.first) = build(p.second); break;
      default: assign(*r, m);
    }
    return r;
  }

  // "" when the node has exactly the modelled content, else what differs
  inline std::string diff(RawDatagram& r, const M& m, const std::string& at = "") {
    std::ostringstream o;
    RawDatagramType want = m.k == E ? RawDatagramType::Empty : m.k == L ? RawDatagramType::List : m.k == D ? RawDatagramType::Dictionary : RawDatagramType::Value;
    if(r.GetType() != want) { o << at << ": kind " << (int)r.GetType() << " instead of " << (int)want; return o.str(); }
    if(m.k == L || m.k == D) {
      unsigned n = r.GetCount();
      if(n != (m.k == L ? m.l.size() : m.d.size())) { o << at << ": count " << n << " instead of " << (m.k == L ? m.l.size() : m.d.size()); return o.str(); }
    } else {
      try { r.GetCount(); return at + ": counting a non-container does not throw"; } catch(lp::exceptions::Exception&) {}
    }
    bool is[4] = {r.IsOfValueType<std::string>(), r.IsOfValueType<int>(), r.IsOfValueType<double>(), r.IsOfValueType<bool>()};
    for(int i = 0; i < 4; ++i) if(is[i] != (m.k == VS + i)) { o << at << ": value type " << i << " reported " << is[i]; return o.str(); }
    switch(m.k) {
      case E: break;
      case L: for(size_t i = 0; i < m.l.size(); ++i) { RP c = r.Get((unsigned)i); if(!c) return at + "[]: null item"; std::string d = diff(*c, m.l[i], at + "[" + std::to_string(i) + "]"); if(!d.empty()) return d; } break;
      case D: for(auto& p : m.d) { if(!r.KeyExists(p.first)) return at + ": key " + lpv::show(p.first) + " is missing"; RP c = r.Get(p.first); if(!c) return at + ": null entry"; std::string d = diff(*c, p.second, at + "/" + lpv::show(p.first)); if(!d.empty()) return d; }
        if(r.GetCount() != m.d.size()) return at + ": extra entries";
        break;
      case VS: if(r.Get<std::string>() != m.s) return at + ": string " + lpv::show(r.Get<std::string>()) + " instead of " + lpv::show(m.s); break;
      case VI: if(r.Get<int>() != m.i) return at + ": int " + std::to_string(r.Get<int>()) + " instead of " + std::to_string(m.i); break;
      case VD: if(!dsame(r.Get<double>(), m.x)) { o.precision(17); o << at << ": double " << r.Get<double>() << " instead of " << m.x; return o.str(); } break;
      case VB: if(r.Get<bool>() != m.b) return at + ": bool differs"; break;
    }
    return "";
  }
  inline void expect(RawDatagram& r, const M& m, const std::string& what) {
    std::string d = diff(r, m);
    lpv::check(d.empty(), [&] { return what + ": expected " + show(m) + ", but " + d; });
  }

  // all nodes below r (inclusive), by public interface, following the model
  inline void nodes(const RP& r, const M& m, std::vector<RawDatagram*>& out) {
    out.push_back(r.get());
    if(m.k == L) for(size_t i = 0; i < m.l.size(); ++i) nodes(r->Get((unsigned)i), m.l[i], out);
    if(m.k == D) for(auto& p : m.d) nodes(r->Get(p.first), p.second, out);
  }

  // a random edit applied to a random node of the model and, through the same way down, of the real tree
  inline std::string edit(RP r, M* m, bool handle = false) {
    std::string at;
    while(true) {
      if(m->k == L && !m->l.empty() && lpv::rnd(3)) { size_t i = lpv::rnd(m->l.size()); r = lpv::rnd(2) ? r->Get((unsigned)i) : (*r)[(unsigned)i]; m = &m->l[i]; at += "[" + std::to_string(i) + "]"; }
      else if(m->k == D && !m->d.empty() && lpv::rnd(3)) { auto it = m->d.begin(); std::advance(it, lpv::rnd(m->d.size())); r = lpv::rnd(2) ? r->Get(it->first) : (*r)[it->first]; at += "/" + lpv::show(it->first); m = &it->second; }
      else break;
    }
    at += ": ";
    DG h(r);
    bool dg = lpv::rnd(2);
    bool threw = false, want = false;
    auto run = [&](const std::function<void()>& f) { try { f(); } catch(lp::exceptions::Exception&) { threw = true; } };
    switch(lpv::rnd(12)) {
      case 0: { M v = value(); at += "assign " + show(v);
        if(dg) { switch(v.k) { case VS: h = v.s; break; case VI: h = v.i; break; case VD: h = v.x; break; default: h = v.b; } } else assign(*r, v);
        *m = v; break; }
      case 1: case 2: { M v = tree(1); at += "add " + show(v); RP c = build(v); if(dg) h.Add(c); else r->Add(c); m->become(L); m->l.push_back(v); break; }
      case 3: case 4: { std::string k = key(); at += "access key " + lpv::show(k); m->become(D);
        if(dg) { DG e = h[k]; lpv::check(e.IsEmpty() == (m->d[k].k == E), [&] { return at + ": wrong entry"; }); }
        else { RP& e = lpv::rnd(2) ? r->Get(k) : (*r)[k]; M& me = m->d[k]; expect(*e, me, at); if(lpv::rnd(2)) { M v = tree(1); e = build(v); me = v; at += " = " + show(v); } }
        m->d[k]; break; }
      case 5: { std::string k = m->k == D && !m->d.empty() && lpv::rnd(3) ? m->d.begin()->first : key(); at += "remove key " + lpv::show(k); want = m->k != D || !m->d.count(k);
        run([&] { if(dg) h.Remove(k); else r->Remove(k); }); if(!want) m->d.erase(k); break; }
      case 6: case 7: { unsigned i = lpv::rnd(10) == 0 ? 4294967295u - lpv::rnd(2) : lpv::rnd(m->l.size() + 2); at += "remove index " + std::to_string(i); want = m->k != L || i >= m->l.size();
        run([&] { if(dg) h.Remove(i); else r->Remove(i); }); if(!want) m->l.erase(m->l.begin() + i); break; }
      case 8: { at += "clear"; want = m->k != L && m->k != D; run([&] { if(dg) h.Clear(); else r->Clear(); }); if(!want) { m->l.clear(); m->d.clear(); } break; }
      case 9: { unsigned i = lpv::rnd(10) == 0 ? 4294967295u - lpv::rnd(2) : lpv::rnd(m->l.size() + 2); at += "access index " + std::to_string(i); want = m->k != L || i >= m->l.size();
        if(m->k != L) { run([&] { if(dg) h[i]; else r->Get(i); }); lpv::check(threw, [&] { return at + ": no failure"; }); M v = value(); assign(*r, v); *m = v; want = threw; break; }
        run([&] { if(dg) { DG e = h[i]; if(!want) lpv::check(e.GetType() == r->Get(i)->GetType(), [&] { return at + ": wrong item"; }); }
                  else { RP& e = lpv::rnd(2) ? r->Get(i) : (*r)[i]; if(!want) { expect(*e, m->l[i], at); if(lpv::rnd(2)) { M v = tree(1); e = build(v); m->l[i] = v; at += " = " + show(v); } } } });
        break; }
      case 10: { int t = lpv::rnd(4); at += "read as type " + std::to_string(t); want = m->k != VS + t;
        run([&] { switch(t) {
          case 0: { std::string v = dg ? h.Get<std::string>() : r->Get<std::string>(); lpv::check(!want && v == m->s, [&] { return at + ": wrong value"; }); break; }
          case 1: { int v = dg ? h.Get<int>() : r->Get<int>(); lpv::check(!want && v == m->i, [&] { return at + ": wrong value"; }); break; }
          case 2: { double v = dg ? h.Get<double>() : r->Get<double>(); lpv::check(!want && dsame(v, m->x), [&] { return at + ": wrong value"; }); break; }
          default: { bool v = dg ? h.Get<bool>() : r->Get<bool>(); lpv::check(!want && v == m->b, [&] { return at + ": wrong value"; }); } } });
        break; }
      default: { std::string k = key(); at += "key exists " + lpv::show(k); bool ex = dg ? h.KeyExists(k) : r->KeyExists(k); lpv::check(ex == (m->k == D && m->d.count(k)), [&] { return at + ": reported " + std::to_string(ex); });
        lpv::check(h.IsEmpty() == (m->k == E) && h.GetType() == r->GetType(), [&] { return at + ": kind reported wrongly"; }); }
    }
    lpv::check(threw == want, [&] { return at + (threw ? ": unexpected failure" : ": no failure"); });
    return at;
  }
}
