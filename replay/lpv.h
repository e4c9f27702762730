// Shared helpers of the replay harnesses: seeded generation, dictionary of literals taken from the
// current source and of counterexample values, and failure reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include <chrono>

namespace lpv {
  static std::vector<std::string> dict;      // literals of the source
  static std::vector<std::string> cex;       // strings of solver counterexamples
  static std::vector<long long> ints;        // integers of both kinds
  static uint64_t s = 88172645463325252ull;
  static long ran = 0;
  static std::set<uint64_t> seen;

  inline uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
  inline bool thorough() { const char* t = getenv("LPV_TIER"); return t && std::string(t) == "thorough"; }
  inline long scale(long n) { return thorough() ? n * 20 : n; }

  inline std::string unhex(const std::string& h) {
    std::string r;
    for(size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
  }

  inline void init(int argc, char** argv) {
    const char* sd = getenv("LPV_SEED");
    if(sd) s ^= (uint64_t)atoll(sd) * 0x9E3779B97F4A7C15ull;
    for(int i = 0; i < 10; ++i) rnd();
    if(argc > 1) {
      std::ifstream f(argv[1]);
      std::string k, v;
      while(f >> k) {
        std::getline(f, v);
        if(!v.empty() && v[0] == ' ') v = v.substr(1);
        if(k == "s") dict.push_back(unhex(v));
        else if(k == "v") { cex.push_back(unhex(v)); }
        else ints.push_back(atoll(v.c_str()));
      }
    }
  }

  inline std::string show(const std::string& x) {
    std::string r = "\"";
    char b[8];
    for(unsigned char c : x) { if(c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } }
    return r + "\"";
  }

  inline void fail(const std::string& what) {
    printf("FAIL %s\n", what.c_str());
    printf("RAN %ld %ld\n", ran, (long)seen.size());
    fflush(stdout);
    _Exit(1);
  }

  inline void check(bool ok, const std::function<std::string()>& what) { if(!ok) fail(what()); }

  inline void count(const std::string& key) { ++ran; if(seen.size() < 2000000) seen.insert(std::hash<std::string>()(key)); }

  inline int done() { printf("RAN %ld %ld\n", ran, (long)seen.size()); fflush(stdout); _Exit(0); }

  // a length around a number of the source (at most 100 long ones per run)
  inline size_t length() {
    static int big = 0;
    static std::vector<long long> v;
    if(v.empty()) { v.push_back(300); for(long long i : ints) if(i >= 6 && i <= 200000) v.push_back(i); }
    long long n = v[rnd(v.size())] + (long long)rnd(3) - 1;
    return n < 5000 || ++big < 100 ? (size_t)n : (size_t)rnd(300);
  }

  // short strings over a small alphabet, dictionary words and combinations of both
  inline std::string str(const char* alphabet = "ab/.") {
    static const std::string raw("\0\xff\n\"\\", 5);
    switch(rnd(12)) {
      case 0: if(!dict.empty()) return dict[rnd(dict.size())]; break;
      case 1: if(!cex.empty()) return cex[rnd(cex.size())]; break;
      case 2: if(!dict.empty()) return dict[rnd(dict.size())] + "/" + str(alphabet); break;
      case 3: if(!dict.empty()) return str(alphabet) + "/" + dict[rnd(dict.size())]; break;
      case 4: { std::string r; size_t n = rnd(40); for(size_t i = 0; i < n; ++i) r += alphabet[rnd(std::string(alphabet).size())]; return r; }
      case 5: { std::string r; size_t n = rnd(6); for(size_t i = 0; i < n; ++i) r += rnd(3) ? alphabet[rnd(std::string(alphabet).size())] : raw[rnd(raw.size())]; return r; }
      case 6: if(rnd(8) == 0) return std::string(rnd(2) ? rnd(3000) : length(), 'a' + (char)rnd(3)); break;
      default: break;
    }
    std::string r;
    size_t n = rnd(6), m = std::string(alphabet).size();
    for(size_t i = 0; i < n; ++i) r += alphabet[rnd(m)];
    return r;
  }

  inline long long integer() {
    switch(rnd(5)) {
      case 0: if(!ints.empty()) return ints[rnd(ints.size())] + (long long)rnd(3) - 1; break;
      case 1: { static const long long b[] = {0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2147483647ll, -2147483648ll}; return b[rnd(11)]; }
      case 2: return (long long)(int)rnd();
      default: break;
    }
    return (long long)rnd(20) - 5;
  }
}

__attribute__((weak)) void HandleShutdownSignal() {}
