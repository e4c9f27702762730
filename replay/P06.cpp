// Cases: random documents of every type with random spacing, escapes and nesting, rendered from the reference
// model; deep nesting; truncated and malformed texts. The oracle is the model the text was rendered from.
#include "tree.h"
using namespace lpvtree;
static std::string ws() { static const char* w[] = {"", "", "", " ", "\n", "\t ", "\r\n"}; return w[lpv::rnd(7)]; }
static std::string quote(const std::string& s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    char b[8];
    if(c == '"') o += "\\\""; else if(c == '\\') o += "\\\\"; else if(c == '/' && lpv::rnd(2)) o += "\\/";
    else if(c == '\n') o += "\\n"; else if(c == '\t') o += "\\t"; else if(c < 32 || (c < 127 && lpv::rnd(20) == 0)) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static std::string text() {
  std::string s;
  for(size_t i = lpv::rnd(9); i > 0; --i) { static const char* p[] = {"a", "B", " ", "\"", "\\", "/", "\n", "\t", "\x01", "\xc3\xa9", "{", "null", "0", "\xe2\x82\xac"}; s += p[lpv::rnd(14)]; }
  if(lpv::rnd(30) == 0) s += std::string(lpv::length(), 'x');
  return s;
}
static M doc(std::string& o, int depth) {
  M m;
  o += ws();
  switch(lpv::rnd(depth > 0 ? 12 : 7)) {
    case 0: o += "null"; break;
    case 1: m = M::boolean(lpv::rnd(2)); o += m.b ? "true" : "false"; break;
    case 2: case 3: m = M::integer((int)lpv::integer()); o += std::to_string(m.i); break;
    case 4: { double x = real(); char b[40]; snprintf(b, 40, "%.17g", x); std::string t = b; if(t.find_first_of(".e") == std::string::npos) t += ".0"; m = M::real(strtod(t.c_str(), nullptr)); o += t; break; }
    case 5: case 6: m = M::str(text()); o += quote(m.s); break;
    case 7: case 8: case 9: {
      size_t n = lpv::rnd(5); if(lpv::rnd(40) == 0) n = 50;
      o += "["; if(n) m.k = L;
      for(size_t i = 0; i < n; ++i) { if(i) o += ","; m.l.push_back(doc(o, depth - 1)); }
      o += ws() + "]"; break; }
    default: {
      size_t n = lpv::rnd(5); if(lpv::rnd(40) == 0) n = 50;
      o += "{";
      bool first = true;
      for(size_t i = 0; i < n; ++i) {
        std::string k = n == 50 ? "k" + std::to_string(i) : lpv::rnd(3) ? text() : key();
        if(k.find('\0') != std::string::npos || m.d.count(k)) continue;
        o += (first ? "" : ",") + ws() + quote(k) + ws() + ":"; first = false;
        M v = doc(o, depth - 1); m.d[k] = v;
      }
      if(!m.d.empty()) m.k = D;
      o += ws() + "}"; }
  }
  o += ws();
  return m;
}
static_assert(sizeof(DG) == sizeof(RP), "handle");
static void read(const std::string& t, const M& m) {
  try {
    RP n = RawDatagram::DeserializeFromJson(t);
    expect(*n, m, "reading " + lpv::show(t).substr(0, 600));
    DG d = DG::DeserializeFromJson(t);
    expect(*reinterpret_cast<RP&>(d), m, "reading into a datagram " + lpv::show(t).substr(0, 600));
  } catch(std::exception& e) { lpv::fail("reading " + lpv::show(t).substr(0, 600) + ": throws " + e.what()); }
  lpv::count(t);
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(const char* t : {"null", "true", "false", "0", "-1", "2147483647", "-2147483648", "0.5", "1e3", "\"\"", "\"x\"", "[]", "{}", "[null]", "{\"a\":null}", "[[]]", "{\"\":{}}", "[false]", "[0]", "[\"\"]", "[0.0]"}) {
    M m; std::string s = t;
    if(s == "true" || s == "false") m = M::boolean(s == "true");
    else if(s == "0" || s == "-1" || s.size() > 9 && s.find('4') != s.npos && s[0] != '[') m = M::integer((int)atoll(t));
    else if(s == "0.5" || s == "1e3") m = M::real(atof(t));
    else if(s == "\"\"") m = M::str(""); else if(s == "\"x\"") m = M::str("x");
    else if(s == "[null]" || s == "[[]]") { m.k = L; m.l.resize(1); }
    else if(s == "{\"a\":null}") { m.k = D; m.d["a"]; } else if(s == "{\"\":{}}") { m.k = D; m.d[""]; }
    else if(s == "[false]") { m.k = L; m.l.push_back(M::boolean(false)); } else if(s == "[0]") { m.k = L; m.l.push_back(M::integer(0)); }
    else if(s == "[\"\"]") { m.k = L; m.l.push_back(M::str("")); } else if(s == "[0.0]") { m.k = L; m.l.push_back(M::real(0)); }
    read(s, m);
  }
  for(const char* t : {"", " ", "{", "[", "}", "]", "[1 2]", "{\"a\" 1}", "{\"a\":}", "{1:2}", "tru", "nul", "[1,", "[\"a", "{\"a\":1", "{\"a\":[1,2}", "[1}", "\"abc", "-", "[tru]", "{a:1}", "xyz", "[1,2,3", "{\"a\":1,\"b\":x}", "[1, {\"b\": 2}, }"}) read(t, M());
  for(int depth : {2, 31, 33, 100, 500, 900}) {
    std::string t; M m = M::integer(depth);
    for(int i = 0; i < depth; ++i) t += i % 3 == 2 ? "{\"k\":" : "[";
    t += std::to_string(depth);
    for(int i = depth - 1; i >= 0; --i) { M o; if(i % 3 == 2) { o.k = D; o.d["k"] = m; t += "}"; } else { o.k = L; o.l.push_back(m); t += "]"; } m = o; }
    read(t, m);
  }
  for(long r = 0; r < lpv::scale(4000); ++r) {
    std::string t; M m = doc(t, 4);
    read(t, m);
    size_t at = t.find_first_not_of(" \t\r\n");
    if((t[at] == '{' || t[at] == '[') && lpv::rnd(3) == 0) {
      size_t end = t.find_last_not_of(" \t\r\n");
      read(t.substr(0, at + 1 + lpv::rnd(end - at)), M());
    }
  }
  return lpv::done();
}
