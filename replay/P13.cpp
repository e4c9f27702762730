// Cases: random sequences of requests (also of the same topic by several consumers, on several buses), answers in any
// order, repeated, with unknown ids, through providers and as plain messages, requests issued by callbacks, callbacks
// that throw, and originals modified after the call, against a model of the open requests.
#include "bus.h"
#include <lamppost/bus/ActionConsumer.h>
#include <lamppost/bus/ActionProvider.h>
using namespace lpvbus;
struct Req { int con; std::string topic, want, id; int calls = 0, due = 0; std::string got, answer; };
struct Con { std::shared_ptr<bus::ActionConsumer> c; int bus; std::string topic; };
struct Pro { std::shared_ptr<bus::ActionProvider> p; int bus; std::string topic; };
struct Seen { int prov; std::string id, text; };
static std::string ctx;
static std::mutex m;
static std::set<std::string> ids;
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(250); ++r) {
    Root root;
    std::vector<std::shared_ptr<bus::Bus>> bs{root.b, root.b->CreateChildBus("c"), root.b->CreateChildBus("d")};
    std::vector<std::string> topics{"/a", "/b", "/a/request"};
    std::vector<std::unique_ptr<Req>> reqs;
    std::vector<Con> cons; std::vector<Pro> pros; std::vector<Seen> seen;
    struct Msg { std::string topic, id, body; DG d; };
    std::vector<Msg> sent, answered;
    ctx.clear();
    std::vector<std::shared_ptr<bus::Subscriber>> spies;
    for(auto& t : topics) for(int k = 0; k < 2; ++k) {
      auto s = bs[1]->CreateSubscriber(t + (k ? "/response" : "/request"));
      std::vector<Msg>* to = k ? &answered : &sent;
      std::string key = k ? "response" : "request";
      s->SetMessageCallback([to, key](MSG x) { std::lock_guard<std::mutex> l(m); DG d = x.GetDatagram(); Msg e{x.GetTopic(), "", "", d};
        if(d.KeyExists("invocationId")) e.id = (std::string)d["invocationId"]; else e.id = "<none>";
        e.body = d.KeyExists(key) ? text(d[key]) : "<none>"; to->push_back(e); });
      spies.push_back(s);
    }
    root.start();
    auto flush = [&] { lpv::check(root.flush(), [&] { return ctx + ": not delivered"; }); lpv::check(root.flush(), [&] { return ctx + ": not delivered"; }); };
    std::function<void(int, bool)> ask = [&](int c, bool nested) {
      Req* q = new Req; q->con = c; q->topic = cons[c].topic; DG d = payload(); q->want = text(d);
      size_t n;
      { std::lock_guard<std::mutex> l(m); reqs.emplace_back(q); n = sent.size(); }
      auto f = [q, &ask, &m = m, nested](DG a) { bool more; { std::lock_guard<std::mutex> l(m); q->calls++; q->got = text(a); more = nested && q->calls == 1; } a[std::string("spoiled")] = 1; if(more) ask(q->con, false); };
      cons[c].c->RequestAsync(d, f);
      d[std::string("later")] = std::string("changed");
    };
    size_t matched = 0;
    auto settle = [&] {
      flush();
      std::lock_guard<std::mutex> l(m);
      lpv::check(sent.size() == reqs.size(), [&] { return ctx + ": " + std::to_string(reqs.size()) + " requests but " + std::to_string(sent.size()) + " messages on the request topics"; });
      for(; matched < reqs.size(); ++matched) {
        Req& q = *reqs[matched]; Msg& e = sent[matched];
        lpv::check(e.topic == q.topic + "/request", [&] { return ctx + ": the request was published on " + e.topic; });
        lpv::check(e.body == q.want, [&] { return ctx + ": the request carries " + e.body + " instead of " + q.want; });
        lpv::check(e.id != "<none>" && !e.id.empty() && ids.insert(e.id).second, [&] { return ctx + ": invocation id " + lpv::show(e.id) + " is not fresh"; });
        q.id = e.id;
      }
      for(auto& p : reqs) lpv::check(p->calls == p->due && (!p->due || p->got == p->answer), [&] { return ctx + ": the callback of request " + p->id + " was invoked " + std::to_string(p->calls) + " times instead of " + std::to_string(p->due) + ", with " + p->got + " instead of " + p->answer; });
    };
    auto arrives = [&](const std::string& topic, const std::string& id, const std::string& body) { for(auto& q : reqs) if(q->id == id && q->topic == topic && !q->due) { q->due = 1; q->answer = body; } };
    int steps = 6 + lpv::rnd(25);
    for(int i = 0; i < steps; ++i) {
      int b = lpv::rnd(bs.size()); std::string t = topics[lpv::rnd(topics.size())];
      switch(lpv::rnd(9)) {
        case 0: cons.push_back({bs[b]->CreateActionConsumer(t), b, t}); ctx += "consumer " + t + "; "; break;
        case 1: { int k = pros.size(); pros.push_back({bs[b]->CreateActionProvider(t, [k, &seen, &pros](std::shared_ptr<bus::ActionProvider> p, std::string id, DG d) { std::lock_guard<std::mutex> l(m); lpv::check(p == pros[k].p, [] { return ctx + ": a callback got another provider"; }); seen.push_back({k, id, text(d["request"])}); }), b, t}); ctx += "provider " + t + "; "; break; }
        case 2: case 3: case 4: if(!cons.empty()) {
          int c = lpv::rnd(cons.size()); std::vector<int> provs; for(size_t k = 0; k < pros.size(); ++k) if(pros[k].topic == cons[c].topic) provs.push_back(k);
          { std::lock_guard<std::mutex> l(m); seen.clear(); }
          ask(c, lpv::rnd(4) == 0); ctx += "request " + cons[c].topic + "; "; settle();
          std::lock_guard<std::mutex> l(m);
          lpv::check(seen.size() == provs.size(), [&] { return ctx + ": a request reached " + std::to_string(seen.size()) + " providers instead of " + std::to_string(provs.size()); });
          for(auto& s : seen) lpv::check(pros[s.prov].topic == cons[c].topic && s.id == reqs.back()->id && s.text == reqs.back()->want, [&] { return ctx + ": a provider got the request " + s.id + " " + s.text + " instead of " + reqs.back()->id + " " + reqs.back()->want; });
        } break;
        case 5: case 6: {   // an answer by a provider or as a message, to an open, answered or unknown request
          std::string id = "unknown"; if(!reqs.empty() && lpv::rnd(6)) { Req& q = *reqs[lpv::rnd(reqs.size())]; id = q.id; if(lpv::rnd(8)) t = q.topic; }
          DG d = payload(); std::string body = text(d); size_t n; { std::lock_guard<std::mutex> l(m); n = answered.size(); }
          std::vector<int> provs; for(size_t k = 0; k < pros.size(); ++k) if(pros[k].topic == t) provs.push_back(k);
          arrives(t, id, body);
          if(!provs.empty() && lpv::rnd(3)) { pros[provs[lpv::rnd(provs.size())]].p->Respond(id, d); d[std::string("later")] = std::string("changed"); ctx += "answer " + t + " " + id.substr(0, 4) + "; "; }
          else { DG w; w[std::string("invocationId")] = id; w[std::string("response")] = d; bs[b]->Publish(MSG("x", t + "/response", w)); ctx += "message " + t + " " + id.substr(0, 4) + "; "; }
          settle();
          std::lock_guard<std::mutex> l(m);
          lpv::check(answered.size() == n + 1, [&] { return ctx + ": one answer led to " + std::to_string(answered.size() - n) + " messages"; });
          lpv::check(answered.back().topic == t + "/response" && answered.back().id == id && answered.back().body == body, [&] { return ctx + ": the answer was published as " + answered.back().topic + " " + answered.back().id + " " + answered.back().body; });
        } break;
        case 7: if(!reqs.empty()) {   // directly, and repeated
          Req& q = *reqs[lpv::rnd(reqs.size())]; DG d = payload(); arrives(q.topic, q.id, text(d));
          bool both = false; for(size_t c = 0; c < cons.size(); ++c) if(cons[c].topic == q.topic) { cons[c].c->ProcessResponse(q.id, d); cons[c].c->ProcessResponse(q.id, payload()); both = true; }
          ctx += "direct answer " + q.id.substr(0, 4) + "; "; settle(); } break;
        default: if(!cons.empty()) {   // a callback that throws is not invoked again; a missing one is refused
          int c = lpv::rnd(cons.size()); int calls = 0; ctx += "throwing callback; ";
          bool refused = false; try { cons[c].c->RequestAsync(payload(), nullptr); } catch(exceptions::ArgumentNullException&) { refused = true; }
          lpv::check(refused, [&] { return ctx + ": a request without callback was accepted"; });
          Req* q = new Req; q->con = c; q->topic = cons[c].topic; DG d = payload(); q->want = text(d); { std::lock_guard<std::mutex> l(m); reqs.emplace_back(q); }
          cons[c].c->RequestAsync(d, [&calls](DG) { ++calls; throw 1; });
          settle();
          for(int k = 0; k < 2; ++k) try { cons[c].c->ProcessResponse(q->id, payload()); } catch(int) {}
          lpv::check(calls == 1, [&] { return ctx + ": a callback that throws was invoked " + std::to_string(calls) + " times"; });
          { std::lock_guard<std::mutex> l(m); q->due = q->calls = 1; q->got = q->answer = "x"; }
          settle();
        }
      }
    }
    settle();
    lpv::count(ctx);
    root.stop();
  }
  // the answer arrives before the requesting call returns
  for(long r = 0; r < lpv::scale(20); ++r) {
    Root root;
    auto early = std::make_shared<bus::Bus>("early", [&](MSG x) { root.b->Publish(x); root.flush(2000); root.flush(2000); });
    auto c = early->CreateActionConsumer("/t");
    std::string want;
    auto p = root.b->CreateActionProvider("/t", [&](std::shared_ptr<bus::ActionProvider> q, std::string id, DG) { DG d = payload(); { std::lock_guard<std::mutex> l(m); want = text(d); } q->Respond(id, d); });
    auto s = root.b->CreateSubscriber("/t/response");
    s->SetDatagramCallback([&](DG d) { c->ProcessResponse((std::string)d["invocationId"], d["response"]); });
    root.start();
    int calls = 0; std::string got;
    c->RequestAsync(payload(), [&](DG d) { std::lock_guard<std::mutex> l(m); ++calls; got = text(d); });
    root.flush(); root.flush();
    { std::lock_guard<std::mutex> l(m); lpv::check(calls == 1 && got == want, [&] { return "an answer that arrives before RequestAsync returns: the callback was invoked " + std::to_string(calls) + " times, with " + got + " instead of " + want; }); }
    lpv::count("early " + std::to_string(r));
    root.stop();
  }
  return lpv::done();
}
