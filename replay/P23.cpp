// Cases: runs of a link (no role, one role, both roles, sockets that cannot be created) attached to a running bus, with
// random messages published locally (senders that begin like the name of the link included) and arriving on its
// incoming sockets. ZeroMQ is replaced by queues (HARNESS_FLAGS rename its functions). Every local message must be
// sent once on every outgoing socket, every arrival published once with the name of the link in front of its sender,
// and no arrival sent back; bytes that are no message are dropped.
#include "bus.h"
#include <zmq.h>
#include <deque>
#include <cerrno>
#include <lamppost/plugin/PluginInstance.h>
using namespace lpvbus;
typedef std::vector<std::string> Parts;
struct Sock { int type; bool open = true; std::vector<std::string> filters; int ends = 0; std::deque<Parts> in; size_t at = 0; bool more = false; Parts cur; std::vector<Parts> out; };
static std::recursive_mutex mtx; static std::vector<Sock*> socks; static int failPub = 0, failSub = 0; static bool failCtx = false; static char cctx;
typedef std::lock_guard<std::recursive_mutex> G;
static std::string*& body(zmq_msg_t* m) { return *(std::string**)m; }
static Sock* sock(void* p) { for(auto s : socks) if(s == p && s->open) return s; errno = ENOTSOCK; return nullptr; }
static int put(void* p, const std::string& c, int flags) {
  G g(mtx); Sock* s = sock(p); if(!s) return -1;
  if(s->type != ZMQ_PUB) { errno = ENOTSUP; return -1; }
  s->cur.push_back(c); if(!(flags & ZMQ_SNDMORE)) { s->out.push_back(s->cur); s->cur.clear(); }
  return c.size();
}
static int take(void* p, std::string& c, int flags) {
  for(;;) {
    { G g(mtx); Sock* s = sock(p); if(!s) return -1;
      if(s->type != ZMQ_SUB) { errno = ENOTSUP; return -1; }
      if(!s->in.empty()) { c = s->in.front()[s->at++]; s->more = s->at < s->in.front().size(); if(!s->more) { s->in.pop_front(); s->at = 0; } return c.size(); }
      if(flags & ZMQ_DONTWAIT) { errno = EAGAIN; return -1; } }
    std::this_thread::sleep_for(std::chrono::microseconds(100));
  }
}
extern "C" {
  void* lpv_zmq_ctx_new(void) { return failCtx ? nullptr : &cctx; }
  void* lpv_zmq_init(int) { return lpv_zmq_ctx_new(); }
  int lpv_zmq_ctx_term(void*) { return 0; } int lpv_zmq_ctx_shutdown(void*) { return 0; } int lpv_zmq_ctx_destroy(void*) { return 0; } int lpv_zmq_term(void*) { return 0; }
  int lpv_zmq_ctx_set(void*, int, int) { return 0; } int lpv_zmq_ctx_get(void*, int) { return 0; }
  int lpv_zmq_errno(void) { return errno; } const char* lpv_zmq_strerror(int) { return "stand-in error"; }
  void* lpv_zmq_socket(void* c, int type) { G g(mtx); if(!c) { errno = EFAULT; return nullptr; } int& f = type == ZMQ_PUB ? failPub : failSub; if(f > 0 && --f == 0) { errno = EMFILE; return nullptr; } auto s = new Sock; s->type = type; socks.push_back(s); return s; }
  int lpv_zmq_close(void* p) { G g(mtx); Sock* s = sock(p); if(!s) return -1; s->open = false; return 0; }
  int lpv_zmq_bind(void* p, const char*) { G g(mtx); Sock* s = sock(p); if(!s) return -1; ++s->ends; return 0; }
  int lpv_zmq_connect(void* p, const char*) { return lpv_zmq_bind(p, nullptr); }
  int lpv_zmq_setsockopt(void* p, int o, const void* v, size_t n) { G g(mtx); Sock* s = sock(p); if(!s) return -1; if(o == ZMQ_SUBSCRIBE) s->filters.push_back(std::string((const char*)v, n)); return 0; }
  int lpv_zmq_getsockopt(void* p, int o, void* v, size_t* n) { G g(mtx); Sock* s = sock(p); if(!s) return -1; long long r = o == ZMQ_RCVMORE ? s->more : o == ZMQ_TYPE ? s->type : o == ZMQ_EVENTS ? (s->in.empty() ? 0 : ZMQ_POLLIN) : 0; if(*n >= 8) { memcpy(v, &r, 8); *n = 8; } else { int i = r; memcpy(v, &i, 4); *n = 4; } return 0; }
  int lpv_zmq_send(void* p, const void* b, size_t n, int f) { return put(p, std::string((const char*)b, n), f); }
  int lpv_zmq_recv(void* p, void* b, size_t n, int f) { std::string c; int r = take(p, c, f); if(r >= 0) memcpy(b, c.data(), std::min(n, c.size())); return r; }
  int lpv_zmq_msg_init(zmq_msg_t* m) { body(m) = new std::string; return 0; }
  int lpv_zmq_msg_init_size(zmq_msg_t* m, size_t n) { body(m) = new std::string(n, '\x5a'); return 0; }
  int lpv_zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* h) { body(m) = new std::string((const char*)d, n); if(f) f(d, h); return 0; }
  int lpv_zmq_msg_send(zmq_msg_t* m, void* p, int f) { int r = put(p, *body(m), f); if(r >= 0) body(m)->clear(); return r; }
  int lpv_zmq_sendmsg(void* p, zmq_msg_t* m, int f) { return lpv_zmq_msg_send(m, p, f); }
  int lpv_zmq_msg_recv(zmq_msg_t* m, void* p, int f) { std::string c; int r = take(p, c, f); if(r >= 0) *body(m) = c; return r; }
  int lpv_zmq_recvmsg(void* p, zmq_msg_t* m, int f) { return lpv_zmq_msg_recv(m, p, f); }
  int lpv_zmq_msg_close(zmq_msg_t* m) { delete body(m); body(m) = nullptr; return 0; }
  void* lpv_zmq_msg_data(zmq_msg_t* m) { return &(*body(m))[0]; }
  size_t lpv_zmq_msg_size(const zmq_msg_t* m) { return body((zmq_msg_t*)m)->size(); }
  int lpv_zmq_msg_more(const zmq_msg_t*) { G g(mtx); for(auto s : socks) if(s->more) return 1; return 0; }
  int lpv_zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s) { *body(d) = *body(s); body(s)->clear(); return 0; }
  int lpv_zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s) { *body(d) = *body(s); return 0; }
  int lpv_zmq_poll(zmq_pollitem_t* it, int n, long ms) {
    for(long k = 0;; ++k) { int r = 0; { G g(mtx); for(int i = 0; i < n; ++i) { it[i].revents = 0; Sock* s = sock(it[i].socket); if(s && !s->in.empty()) it[i].revents |= ZMQ_POLLIN & it[i].events; if(s && s->type == ZMQ_PUB) it[i].revents |= ZMQ_POLLOUT & it[i].events; r += it[i].revents != 0; } }
      if(r || (ms >= 0 && k >= ms)) return r; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  }
}
extern "C" lp::PluginInstance* CreateInstance(lp::PluginConfiguration configuration);
static Parts wire(MSG m) { auto b = m.SerializeToBytes(); return {lpv::rnd(4) ? "A" : "Axy", std::string((const char*)b->GetContent(), b->GetSize())}; }
static std::string unwire(const Parts& p) {
  if(p.size() < 2 || p[0].empty() || p[0][0] != 'A') return "a message of " + std::to_string(p.size()) + " parts that no link listens to";
  auto b = std::make_shared<data::RawBytes>();
  for(size_t i = 1; i < p.size(); ++i) b->Append((void*)p[i].data(), p[i].size());
  return text(MSG::Deserialize(b));
}
typedef std::multiset<std::string> Bag;
static void same(const std::string& ctx, const Bag& want, const Bag& got) {
  for(auto& w : want) lpv::check(got.count(w) == want.count(w), [&] { return ctx + ": " + w.substr(0, 400) + " is there " + std::to_string(got.count(w)) + " times instead of " + std::to_string(want.count(w)); });
  for(auto& w : got) lpv::check(want.count(w), [&] { return ctx + ": " + w.substr(0, 400) + " is there " + std::to_string(got.count(w)) + " times, unasked"; });
}
// bytes that are no message: the last bytes of a message are the end of its sender
static std::string junk() {
  std::string b = wire(MSG("sender", "/topic", payload()))[1];
  switch(lpv::rnd(4)) { case 0: return std::string(1 + lpv::rnd(200), char(lpv::rnd(2) ? 0 : 0xff)); case 1: return b.substr(0, 1 + lpv::rnd(8)); default: return b.substr(0, 1 + lpv::rnd(b.size() - 4)); }
}
static void links(long rounds) {
  std::ofstream null("/dev/null"); auto* cout0 = std::cout.rdbuf(null.rdbuf());
  for(long r = 0; r < rounds; ++r) {
    { G g(mtx); socks.clear(); failCtx = lpv::rnd(20) == 0; failPub = lpv::rnd(8) ? 0 : 1 + lpv::rnd(2); failSub = lpv::rnd(8) ? 0 : 1 + lpv::rnd(2); }
    bool fp = failPub, fs = failSub;
    std::string id = lpv::rnd(3) ? "Link" + std::to_string(lpv::rnd(3)) : lpv::rnd(2) ? "a" : "a/b";
    bool server = r % 4 & 1, client = r % 4 & 2;
    DG cfg;
    if(server || lpv::rnd(2)) { cfg[std::string("server-role")][std::string("enabled")] = (bool)server; if(lpv::rnd(2)) cfg[std::string("server-role")][std::string("port-pub")] = 7000; }
    if(client || lpv::rnd(2)) { cfg[std::string("client-role")][std::string("enabled")] = (bool)client; if(lpv::rnd(2)) cfg[std::string("client-role")][std::string("server-host")] = std::string("10.0.0.1"); }
    std::string ctx = "link " + id + (server ? ", server role" : "") + (client ? ", client role" : "") + (failCtx ? ", no context" : "") + (fp ? ", an outgoing socket fails" : "") + (fs ? ", an incoming socket fails" : "");
    Root root;
    auto child = root.b->CreateChildBus(id);
    Bag seen; std::mutex sm; std::atomic<long> nseen{0};
    auto all = root.b->CreateSubscriber("/**/*");
    all->SetMessageCallback([&](MSG m) { if(m.GetTopic() == Root::topic()) return; std::lock_guard<std::mutex> l(sm); seen.insert(text(m)); ++nseen; });
    PluginConfiguration pc; pc.mIdentifier = id; pc.mBus = child; pc.mCustomConfiguration = cfg;
    std::unique_ptr<PluginInstance> link(CreateInstance(pc));
    link->Initialize();
    std::vector<Sock*> pubs, subs;
    { G g(mtx); for(auto s : socks) (s->type == ZMQ_PUB ? pubs : subs).push_back(s); }
    lpv::check(failCtx || fp || pubs.size() == size_t(server + client), [&] { return ctx + ": there are " + std::to_string(pubs.size()) + " outgoing sockets"; });
    lpv::check(failCtx || fs || subs.size() == size_t(server + client), [&] { return ctx + ": there are " + std::to_string(subs.size()) + " incoming sockets"; });
    Bag local, arrived; long n = 0;
    auto message = [&](bool there) {
      static const char* pre[] = {"", "x", "Link0", "Link1/x", "Link10/x", "Link", "x/Link0/y", "a", "a/bc", "ab/c", "other/Link1/z"};
      std::string s = pre[lpv::rnd(11)];
      if(!there) while(s.substr(0, id.size() + 1) == id + "/") s = pre[lpv::rnd(11)];   // not marked as received through this link
      DG d = payload(); if(lpv::rnd(25) == 0) { d = DG(); d[std::string("big")] = std::string(1000 << lpv::rnd(12), 'b'); }
      return MSG(s, "/t/" + std::to_string(n++) + (lpv::rnd(5) ? "" : lpv::str("abc")), d);
    };
    auto arrive = [&] {
      MSG m = message(true); Parts p = wire(m); Sock* s = subs[lpv::rnd(subs.size())];
      MSG w = m; w.PrependSender(id); arrived.insert(text(MSG(id + "/" + m.GetSender(), m.GetTopic(), m.GetDatagram())));
      G g(mtx); bool ok = false; for(auto& f : s->filters) ok |= p[0].compare(0, f.size(), f) == 0;
      if(ok && lpv::rnd(8) == 0) s->in.push_back({p[0], junk()});
      if(ok) s->in.push_back(p);
    };
    auto publish = [&] { MSG m = message(false); local.insert(text(m)); (lpv::rnd(2) ? root.b : child)->Publish(m); };
    int k = 3 + lpv::rnd(25), early = lpv::rnd(3) ? 0 : lpv::rnd(4);
    for(int i = 0; i < early; ++i) if(!subs.empty() && lpv::rnd(2)) arrive(); else publish();
    root.start();
    link->Start();
    for(int i = 0; i < k; ++i) { if(!subs.empty() && lpv::rnd(2)) arrive(); else publish(); if(lpv::rnd(6) == 0) std::this_thread::sleep_for(std::chrono::microseconds(lpv::rnd(2500))); }
    long want = local.size() + arrived.size();
    for(int i = 0; i < 10000 && nseen < want; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::this_thread::sleep_for(std::chrono::milliseconds(4));
    if(!root.flush() || !root.flush()) lpv::fail(ctx + ": the bus does not distribute");
    link->Stop();
    root.stop();
    link->Deinitialize();
    Bag both = local; both.insert(arrived.begin(), arrived.end());
    { std::lock_guard<std::mutex> l(sm); same(ctx + ": published", both, seen); }
    for(auto s : pubs) {
      Bag sent; for(auto& p : s->out) { std::string t = unwire(p); if(t.find(Root::topic()) == std::string::npos && t.find("/lpv/wake") == std::string::npos) sent.insert(t); }
      same(ctx + ": sent", local, sent);
      lpv::check(s->cur.empty(), [&] { return ctx + ": a message is left half sent"; });
    }
    lpv::count(ctx + std::to_string(local.size()) + "/" + std::to_string(arrived.size()));
  }
  std::cout.rdbuf(cout0);
}
#ifndef LPV_LINKS_ONLY
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  links(lpv::scale(60));
  return lpv::done();
}
#endif
