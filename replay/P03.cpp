// Cases: pairs of random payloads, mostly equal or differing in one small edit at random depth, compared in both
// directions as nodes, datagrams and messages; the oracle is structural equality of the reference models.
#include "tree.h"
using namespace lpvtree;
static void mutate(M& m) {
  M* p = &m;
  while(true) {
    if(p->k == L && !p->l.empty() && lpv::rnd(3)) p = &p->l[lpv::rnd(p->l.size())];
    else if(p->k == D && !p->d.empty() && lpv::rnd(3)) { auto it = p->d.begin(); std::advance(it, lpv::rnd(p->d.size())); p = &it->second; }
    else break;
  }
  switch(p->k) {
    case L: switch(lpv::rnd(4)) { case 0: p->l.push_back(tree(1)); break; case 1: if(!p->l.empty()) p->l.erase(p->l.begin() + lpv::rnd(p->l.size())); break; case 2: if(p->l.size() > 1) std::swap(p->l[0], p->l[p->l.size() - 1]); break; default: { M d; d.k = D; *p = d; } } break;
    case D: switch(lpv::rnd(5)) { case 0: p->d[key()] = tree(1); break; case 1: if(!p->d.empty()) p->d.erase(p->d.begin()); break; case 2: if(!p->d.empty()) p->d.erase(std::prev(p->d.end())); break;
      case 3: if(!p->d.empty()) { M v = p->d.begin()->second; p->d.erase(p->d.begin()); p->d[key()] = v; } break; default: { M l; l.k = L; *p = l; } } break;
    case VS: if(lpv::rnd(2)) p->s += std::string(1, lpv::rnd(2) ? '\0' : 'x'); else *p = value(); break;
    case VI: switch(lpv::rnd(3)) { case 0: p->i ^= 1 << lpv::rnd(32); break; case 1: *p = M::real(p->i); break; default: *p = M::boolean(p->i); } break;
    case VD: switch(lpv::rnd(3)) { case 0: p->x = std::nextafter(p->x, 1e308); break; case 1: p->x = -p->x; break; default: *p = M::integer(p->x > -1e9 && p->x < 1e9 ? (int)p->x : 0); } break;
    case VB: if(lpv::rnd(2)) p->b = !p->b; else *p = M::integer(p->b); break;
    default: *p = lpv::rnd(2) ? tree(1) : M::str("");
  }
}
int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(long r = 0; r < lpv::scale(5000); ++r) {
    M a = tree(3), b = lpv::rnd(8) ? a : tree(3);
    int muts = lpv::rnd(3);
    for(int i = 0; i < muts; ++i) mutate(b);
    RP x = build(a), y = build(b);
    if(lpv::rnd(4) == 0) { M f = b; int n = lpv::rnd(4); for(int i = 0; i < n; ++i) edit(y, &f); b = f; }   // history of edits
    bool want = equal(a, b);
    std::string ctx = show(a) + " compared with " + show(b);
    lpv::check((*x == *y) == want && (*y == *x) == want, [&] { return ctx + ": nodes reported " + (want ? "different" : "equal"); });
    lpv::check((*x != *y) == !want && (*y != *x) == !want, [&] { return ctx + ": node inequality is not the negation"; });
    DG d(x), e(y);
    lpv::check((d == e) == want && (e == d) == want, [&] { return ctx + ": datagrams reported " + (want ? "different" : "equal"); });
    static const char* const S[] = {"s", "t", "", "s/t"};
    std::string s1 = S[lpv::rnd(4)], s2 = lpv::rnd(3) ? s1 : S[lpv::rnd(4)], t1 = S[lpv::rnd(4)], t2 = lpv::rnd(3) ? t1 : S[lpv::rnd(4)];
    if(lpv::rnd(10) == 0) { s2 = t1; t2 = s1; }
    bool mw = want && s1 == s2 && t1 == t2;
    MSG m(s1, t1, d), n(s2, t2, e);
    lpv::check((m == n) == mw && (n == m) == mw, [&] { return ctx + ": messages " + s1 + ">" + t1 + " and " + s2 + ">" + t2 + " reported " + (mw ? "different" : "equal"); });
    expect(*x, a, ctx + ": comparing changed the left side");
    expect(*y, b, ctx + ": comparing changed the right side");
    lpv::check(*x == *x && !(*x != *x), [&] { return ctx + ": a node differs from itself"; });
    lpv::count(ctx);
  }
  return lpv::done();
}
