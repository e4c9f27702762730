// Cases: generated identifiers; the random source is replaced by chosen outcomes inside the range the
// code asks for (bounds, bit patterns, source literals), then the real source. Non-trivial when distinct.
#include "lpv.h"
#include <random>
#include <cstdarg>
static bool gCut = false;   // a formatted text did not fit
extern "C" int snprintf(char* b, size_t n, const char* f, ...) noexcept { va_list v; va_start(v, f); int r = vsnprintf(b, n, f, v); va_end(v); if(r >= 0 && (size_t)r >= n && n > 1) gCut = true; return r; }
static int gMode = 0;
static unsigned long long gQueue[16]; static int gQn = 0, gQi = 0;
template<class I> static I pick(I a, I b) {
  unsigned long long lo = (unsigned long long)a, span = (unsigned long long)b - lo;
  unsigned long long v = gQi < gQn ? gQueue[gQi++] : lpv::rnd();
  return (I)(span == ~0ull ? v : v >= lo && v - lo <= span ? v : lo + v % (span + 1));
}
#define SPEC(I, G) namespace std { template<> template<> inline uniform_int_distribution<I>::result_type uniform_int_distribution<I>::operator()<G>(G&, const param_type& p) { return pick<I>(p.a(), p.b()); } }
SPEC(unsigned int, mt19937) SPEC(int, mt19937) SPEC(unsigned long, mt19937) SPEC(unsigned short, mt19937) SPEC(long, mt19937)
SPEC(unsigned int, mt19937_64) SPEC(int, mt19937_64) SPEC(unsigned long, mt19937_64) SPEC(long, mt19937_64)
SPEC(unsigned int, random_device) SPEC(unsigned long, random_device) SPEC(int, random_device)
#include <lamppost/utilities/Uuid.h>
using lp::utilities::Uuid;

static void one(const std::string& ctx) {
  gCut = false;
  Uuid u = Uuid::CreateUuid();
  std::string s = u;
  lpv::check(!gCut, [&] { return "cut off: " + lpv::show(s) + " " + ctx; });
  lpv::count(s);
  auto bad = [&](const char* w) { return std::string(w) + ": " + lpv::show(s) + " " + ctx; };
  std::vector<std::string> g(1);
  for(char c : s) { if(c == '-') g.push_back(""); else g.back() += c; }
  lpv::check(g.size() == 5, [&] { return bad("not five groups"); });
  for(auto& x : g) { lpv::check(!x.empty(), [&] { return bad("empty group"); }); for(char c : x) lpv::check((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), [&] { return bad("not a lower-case hexadecimal digit"); }); }
  lpv::check(g[2].size() == 4 && g[2][0] == '4', [&] { return bad("third group"); });
  lpv::check(g[3].size() == 4 && strchr("89ab", g[3][0]), [&] { return bad("fourth group"); });
  Uuid e;
  lpv::check(!(u == e) && !(e == u), [&] { return bad("equal to an empty identifier"); });
  lpv::check(u == u && e == e, [&] { return bad("not equal to itself"); });
  Uuid c = u;
  lpv::check(c == u && std::string(c) == s, [&] { return bad("copy differs"); });
  std::stringstream st; st << u;
  lpv::check(st.str() == s, [&] { return bad("streamed form differs"); });
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  std::vector<unsigned long long> v{0, 1, 2, 15, 16, 255, 256, 0xfff, 0x1000, 0x3ffd, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x7ffd, 0x7fff, 0x8000, 0xbfff, 0xc000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0xffff8000ull, 0xffffc000ull, 0xbfff4000ull};
  for(auto i : lpv::ints) v.push_back((unsigned long long)i);
  for(auto a : v) { gQn = 16; gQi = 0; for(auto& q : gQueue) q = a; one("all outcomes " + std::to_string(a)); }
  for(long i = 0; i < lpv::scale(40000); ++i) {
    std::string ctx = "outcomes";
    gQn = 16; gQi = 0;
    for(auto& q : gQueue) { q = lpv::rnd(3) ? v[lpv::rnd(v.size())] : lpv::rnd(); ctx += " " + std::to_string(q); }
    one(ctx);
  }
  gQn = 0;
  for(int i = 0; i < 200; ++i) one("random");
  return lpv::done();
}
