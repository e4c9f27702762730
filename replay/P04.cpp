// Cases: random sequences of edits at random depth on a random payload, directly and through handles, compared with
// a reference model after every step (kinds, counts, key existence, items in order, typed values, failures).
#include "tree.h"
using namespace lpvtree;
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(3000); ++r) {
    M m = tree(2);
    RP n = build(m);
    std::string ctx = "starting with " + show(m);
    expect(*n, m, ctx);
    int steps = lpv::rnd(30);
    for(int i = 0; i < steps; ++i) {
      ctx += "; " + edit(n, &m);
      if(ctx.size() > 1500) ctx = "..." + ctx.substr(ctx.size() - 1200);
      expect(*n, m, ctx);
    }
    lpv::count(ctx);
  }
  // construction
  for(int i = 0; i < 200; ++i) {
    M v = value(); DG* d = nullptr; RP w;
    switch(v.k) { case VS: d = new DG(v.s); w = std::make_shared<RawDatagram>(v.s); break; case VI: d = new DG(v.i); w = std::make_shared<RawDatagram>(v.i); break; case VD: d = new DG(v.x); w = std::make_shared<RawDatagram>(v.x); break; default: d = new DG(v.b); w = std::make_shared<RawDatagram>(v.b); }
    lpv::check(d->GetType() == RawDatagramType::Value, [&] { return "a datagram made from " + show(v) + " is no value"; });
    switch(v.k) { case VS: lpv::check(d->Get<std::string>() == v.s, [&] { return "wrong string"; }); break; case VI: lpv::check(d->Get<int>() == v.i, [&] { return "wrong int"; }); break;
      case VD: lpv::check(dsame(d->Get<double>(), v.x), [&] { return "wrong double"; }); break; default: lpv::check(d->Get<bool>() == v.b, [&] { return "wrong bool"; }); }
    delete d;
    expect(*w, v, "node made from a value");
    lpv::count(show(v));
  }
  DG l(RawDatagramType::List), d(RawDatagramType::Dictionary), e(RawDatagramType::Empty), n;
  lpv::check(l.GetType() == RawDatagramType::List && l.GetCount() == 0 && d.GetType() == RawDatagramType::Dictionary && d.GetCount() == 0 && e.IsEmpty() && n.IsEmpty(), [] { return "a datagram made with a kind is not an empty one of that kind"; });
  return lpv::done();
}
