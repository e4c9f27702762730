// Cases: byte blocks that are not (quite) messages, in allocations of exactly their size: cut, with bytes or words
// changed, random, and built with parts missing or of unknown types. Reading one throws the documented exception or
// yields a message (which is then read completely); blocks known to be incomplete must be rejected. Then links that
// receive such blocks between messages (P23.cpp). Reads beyond a block end the run (address sanitiser).
#define LPV_LINKS_ONLY
#include "P23.cpp"
#include <lamppost/exceptions/OperationFailedException.h>
static std::string hex(const std::string& b) { std::string o; char c[4]; for(size_t i = 0; i < b.size() && i < 400; ++i) { snprintf(c, 4, "%02x", (unsigned char)b[i]); o += c; } return o; }
static std::string cur;
extern "C" void __asan_on_error() { fprintf(stderr, "while reading %s\n", cur.c_str()); }
static void give(const std::string& b, bool bad, const std::string& what) {
  std::string ctx = what + " of " + std::to_string(b.size()) + " bytes: " + hex(b);
  cur = ctx;
  auto raw = std::make_shared<data::RawBytes>();
  if(!b.empty()) { char* exact = (char*)malloc(b.size()); memcpy(exact, b.data(), b.size()); raw = std::make_shared<data::RawBytes>(exact, b.size()); free(exact); }
  try {
    MSG m = MSG::Deserialize(raw);
    lpv::check(!bad, [&] { return ctx + ": accepted"; });
    raw.reset();
    text(m); m.SerializeToBytes();
  } catch(lp::exceptions::OperationFailedException& e) {
  } catch(std::exception& e) { lpv::fail(ctx + ": throws something else: " + e.what()); }
  lpv::count(ctx);
}
typedef flatbuffers::FlatBufferBuilder FB;
typedef flatbuffers::Offset<lp::schemas::FBDatagram> OD;
static OD dg(FB& b, int t, int v, bool s, bool l, bool k, bool c) {
  std::vector<OD> none; std::vector<flatbuffers::Offset<flatbuffers::String>> ks;
  auto S = s ? b.CreateString("text") : 0; auto L = l ? b.CreateVector(none) : 0; auto K = k ? b.CreateVector(ks) : 0; auto C = c ? b.CreateVector(none) : 0;
  return lp::schemas::CreateFBDatagram(b, (lp::schemas::DatagramType)t, (lp::schemas::ValueType)v, S, 1, 2.0, true, L, K, C);
}
static void built() {
  for(int t : {0, 1, 2, 3, 4, 127, -1, -128}) for(int v : {0, 1, 2, 3, 4, 100, -1}) for(int m = 0; m < 16; ++m) for(int nest = 0; nest < 3; ++nest) {
    FB b; auto s = b.CreateString("s"), to = b.CreateString("/t");
    OD d = dg(b, t, v, m & 1, m & 2, m & 4, m & 8);
    if(nest == 1) { std::vector<OD> l{d}; auto L = b.CreateVector(l); d = lp::schemas::CreateFBDatagram(b, lp::schemas::DatagramType_List, lp::schemas::ValueType_String, 0, 0, 0, false, L); }
    if(nest == 2) { std::vector<OD> l{d}; std::vector<flatbuffers::Offset<flatbuffers::String>> ks{s}; auto L = b.CreateVector(l); auto K = b.CreateVector(ks); d = lp::schemas::CreateFBDatagram(b, lp::schemas::DatagramType_Dictionary, lp::schemas::ValueType_String, 0, 0, 0, false, 0, K, L); }
    b.Finish(lp::schemas::CreateFBMessage(b, s, to, d));
    bool bad = t < 0 || t > 3 || (t == 1 && (v < 0 || v > 3 || (v == 0 && !(m & 1)))) || (t == 2 && !(m & 2)) || (t == 3 && (~m & 12));
    give(std::string((char*)b.GetBufferPointer(), b.GetSize()), bad, "a message whose payload has type " + std::to_string(t) + "/" + std::to_string(v) + " and parts " + std::to_string(m) + ", nested " + std::to_string(nest) + ",");
  }
  for(int m = 0; m < 8; ++m) {
    FB b; flatbuffers::Offset<flatbuffers::String> s = m & 1 ? b.CreateString("s") : 0, t = m & 2 ? b.CreateString("/t") : 0; OD d = m & 4 ? dg(b, 0, 0, false, true, true, true) : OD(0);
    b.Finish(lp::schemas::CreateFBMessage(b, s, t, d));
    give(std::string((char*)b.GetBufferPointer(), b.GetSize()), m != 7, "a message with parts " + std::to_string(m));
  }
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  give("", true, "an empty block");
  built();
  for(long r = 0; r < lpv::scale(12000); ++r) {
    std::string b = wire(MSG(lpv::str("ab/"), "/t" + lpv::str("ab/"), payload()))[1];
    for(int n = lpv::rnd(3); n > 0; --n) { DG d; d[lpv::str("k")] = payload(); DG e; reinterpret_cast<std::shared_ptr<messages::RawDatagram>&>(e)->Add(reinterpret_cast<std::shared_ptr<messages::RawDatagram>&>(d)); b = wire(MSG("s", "t", lpv::rnd(2) ? d : e))[1]; }
    size_t n = b.size();
    switch(lpv::rnd(5)) {
      case 0: give(b.substr(0, lpv::rnd(n - 3)), true, "a cut message"); break;
      case 1: for(int k = 1 + lpv::rnd(4); k > 0; --k) b[lpv::rnd(n)] = lpv::rnd(256); give(b, false, "a message with bytes changed"); break;
      case 2: for(int k = 1 + lpv::rnd(3); k > 0; --k) { static const unsigned v[] = {0, 1, 4, 8, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0xfffffffc}; unsigned w = lpv::rnd(2) ? v[lpv::rnd(9)] : (unsigned)lpv::rnd(2 * n); memcpy(&b[lpv::rnd(n / 4) * 4], &w, 4); } give(b, false, "a message with words changed"); break;
      case 3: { std::string j(lpv::rnd(80), '\0'); for(auto& c : j) c = lpv::rnd(3) ? lpv::rnd(16) : lpv::rnd(256); give(j, false, "a random block"); } break;
      default: for(int k = 1 + lpv::rnd(6); k > 0; --k) { size_t i = lpv::rnd(n); b[i] = char(b[i] ^ (1 << lpv::rnd(8))); } give(b, false, "a message with bits changed"); break;
    }
  }
  links(lpv::scale(15));
  return lpv::done();
}
