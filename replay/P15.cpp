// Cases: sequences of buffer operations (create, append, self-append, destroy) with sizes from 0 to a few
// kilobytes, run under AddressSanitizer and compared with a byte string; non-trivial when distinct.
#include "lpv.h"
#include <memory>
#include <lamppost/data/RawBytes.h>
using lp::data::RawBytes;

static std::string bytes(size_t n) { std::string r; for(size_t i = 0; i < n; ++i) r += (char)lpv::rnd(256); return r; }
static size_t len() {
  static const size_t b[] = {0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096};
  if(lpv::rnd(4) == 0 && !lpv::ints.empty()) { long long v = lpv::ints[lpv::rnd(lpv::ints.size())]; if(v >= 0 && v < 100000) return v; }
  return lpv::rnd(2) ? b[lpv::rnd(19)] : lpv::rnd(20);
}
static void same(RawBytes& r, const std::string& w, const std::string& log) {
  lpv::check(r.GetSize() == w.size(), [&] { return log + ": size " + std::to_string(r.GetSize()) + " instead of " + std::to_string(w.size()); });
  std::string g(static_cast<const char*>(r.GetContent()), r.GetContent() ? r.GetSize() : 0);
  lpv::check(g == w, [&] { return log + ": content differs"; });
}
// exactly sized heap copy, so that a read outside the block is seen
struct Blk { char* p; size_t n; Blk(const std::string& s) : p(new char[s.size()]), n(s.size()) { if(n) memcpy(p, s.data(), n); } ~Blk() { delete[] p; } };

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(size_t n : {size_t(0), size_t(1), size_t(5)}) {
    bool thrown = false;
    try { RawBytes r(nullptr, n); } catch(lp::exceptions::ArgumentNullException&) { thrown = true; }
    lpv::check(thrown, [&] { return "RawBytes(nullptr, " + std::to_string(n) + ") did not throw"; });
  }
  { RawBytes r; same(r, "", "RawBytes()"); }
  for(long i = 0; i < lpv::scale(20000); ++i) {
    std::string w, log;
    std::unique_ptr<RawBytes> r;
    if(lpv::rnd(3)) {
      w = bytes(len());
      Blk b(w);
      log = "RawBytes(block of " + std::to_string(w.size()) + ")";
      r.reset(new RawBytes(b.p, b.n));
      if(b.n && lpv::rnd(2)) b.p[lpv::rnd(b.n)] ^= 0x55;
      same(*r, w, log);
    } else { r.reset(new RawBytes()); log = "RawBytes()"; same(*r, w, log); }
    for(size_t k = lpv::rnd(5); k > 0; --k) {
      if(lpv::rnd(6) == 0 && r->GetContent()) {
        size_t o = lpv::rnd(w.size() + 1), n = lpv::rnd(w.size() - o + 1);
        log += ", Append(own bytes " + std::to_string(o) + "+" + std::to_string(n) + ")";
        r->Append(static_cast<const char*>(r->GetContent()) + o, n);
        w += w.substr(o, n);
      } else {
        std::string a = bytes(len());
        Blk b(a);
        log += ", Append(" + std::to_string(a.size()) + ")";
        r->Append(b.p, b.n);
        if(b.n && lpv::rnd(2)) b.p[lpv::rnd(b.n)] ^= 0x55;
        w += a;
      }
      same(*r, w, log);
    }
    lpv::count(log);
  }
  return lpv::done();
}
