// Objects with a single any-hook wandering through containers of every kind.
#include "common.hpp"
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/interprocess/offset_ptr.hpp>
namespace bi = boost::intrusive; using namespace vh;
typedef boost::interprocess::offset_ptr<void> OffV; struct tagA; struct tagB;
#define COMMA ,
struct Body { int key, prio, id; };
template<class T> struct LessK { bool operator()(const T &a, const T &b) const { return a.key < b.key; } bool operator()(int a, const T &b) const { return a < b.key; } bool operator()(const T &a, int b) const { return a.key < b; } };
template<class T> struct LessP { bool operator()(const T &a, const T &b) const { return a.prio < b.prio; } };
template<class T> struct HashK { std::size_t operator()(const T &a) const { return a.key / 2; } };
template<class T> struct EqK { bool operator()(const T &a, const T &b) const { return a.key == b.key; } };
// the ways to carry the hook; lk: link flag available
#define AK(nm, HK, LINK, SZ) struct nm { typedef bi::any_base_hook HK H; struct T : Body, H {}; template<template<class> class X> struct opt {}; typedef bi::base_hook<H> B; enum { sz = SZ }; static int lk(const T &t) { (void)t; return LINK; } };
#define AM(nm, HK, LINK, SZ) struct nm { typedef bi::any_member_hook HK H; struct T : Body { H h; }; typedef bi::member_hook<T, H, &T::h> B; enum { sz = SZ }; static int lk(const T &t) { (void)t; return LINK; } };
AK(any_base, <>, t.is_linked(), 1)
AM(any_mem, <>, t.h.is_linked(), 0)
AK(any_tag, <bi::tag<tagA> >, t.is_linked(), 0)
AK(any_norm, <bi::link_mode<bi::normal_link> >, -1, 1)
AK(any_off, <bi::void_pointer<OffV> >, t.is_linked(), 1)
AM(any_moff, <bi::void_pointer<OffV> COMMA bi::link_mode<bi::normal_link> >, -1, 0)
#ifndef CFG
#define CFG any_base
#endif
typedef CFG X; typedef X::T T; typedef X::B HB;
typedef bi::constant_time_size<X::sz> SZ; typedef bi::compare<LessK<T> > CMP; typedef bi::priority<LessP<T> > PRI;
typedef bi::list<T, bi::any_to_list_hook<HB>, SZ> C1; typedef bi::slist<T, bi::any_to_slist_hook<HB>, SZ> C2; typedef bi::slist<T, bi::any_to_slist_hook<HB>, SZ, bi::cache_last<true> > C3;
typedef bi::multiset<T, bi::any_to_set_hook<HB>, SZ, CMP> C4; typedef bi::avl_multiset<T, bi::any_to_avl_set_hook<HB>, SZ, CMP> C5; typedef bi::sg_multiset<T, bi::any_to_bs_set_hook<HB>, CMP> C6;
typedef bi::splay_multiset<T, bi::any_to_bs_set_hook<HB>, SZ, CMP> C7; typedef bi::bs_multiset<T, bi::any_to_bs_set_hook<HB>, SZ, CMP> C8; typedef bi::treap_multiset<T, bi::any_to_bs_set_hook<HB>, SZ, CMP, PRI> C9;
typedef bi::unordered_multiset<T, bi::any_to_unordered_set_hook<HB>, SZ, bi::hash<HashK<T> >, bi::equal<EqK<T> > > C10;
typedef bi::unordered_multiset<T, bi::any_to_unordered_set_hook<HB>, SZ, bi::hash<HashK<T> >, bi::equal<EqK<T> >, bi::compare_hash<true>, bi::cache_begin<true>, bi::power_2_buckets<true> > C11;
typedef bi::unordered_set<T, bi::any_to_unordered_set_hook<HB>, SZ, bi::hash<HashK<T> >, bi::equal<EqK<T> > > C12;
enum { NK = 12 };
static const char *KD = "[\"b\",\"f\",\"b\",\"o\",\"o\",\"o\",\"o\",\"o\",\"o\",\"h\",\"h\",\"u\"]";
static C10::bucket_type b10[5]; static C11::bucket_type b11[4]; static C12::bucket_type b12[3];
template<class C> struct Box { typedef C type; alignas(C) char m[sizeof(C)]; C &get() { return *reinterpret_cast<C*>(m); } template<class... A> void make(A&&... a) { ::new((void*)m) C(std::forward<A>(a)...); } };
struct World {
  Box<C1> c1; Box<C2> c2; Box<C3> c3; Box<C4> c4; Box<C5> c5; Box<C6> c6; Box<C7> c7; Box<C8> c8; Box<C9> c9; Box<C10> c10; Box<C11> c11; Box<C12> c12; int n, nk; T pool[64]; int bad;
  void make(int k) { switch (k) { case 1: c1.make(); break; case 2: c2.make(); break; case 3: c3.make(); break; case 4: c4.make(); break; case 5: c5.make(); break; case 6: c6.make(); break; case 7: c7.make(); break; case 8: c8.make(); break; case 9: c9.make(); break;
    case 10: c10.make(C10::bucket_traits(b10, 5)); break; case 11: c11.make(C11::bucket_traits(b11, 4)); break; case 12: c12.make(C12::bucket_traits(b12, 3)); } }
  World(int n_, int nk_):n(n_),nk(nk_),bad(0) { for (int k = 1; k <= NK; ++k) make(k); for (int i = 1; i <= n; ++i) { pool[i].id = i; pool[i].key = 1 + (i * 7 + i / 3) % nk; pool[i].prio = i * 5 % 7; } }
  template<class F> void on(int k, F f) { switch (k) { case 1: f(c1.get()); break; case 2: f(c2.get()); break; case 3: f(c3.get()); break; case 4: f(c4.get()); break; case 5: f(c5.get()); break; case 6: f(c6.get()); break; case 7: f(c7.get()); break; case 8: f(c8.get()); break; case 9: f(c9.get()); break; case 10: f(c10.get()); break; case 11: f(c11.get()); break; case 12: f(c12.get()); } }
};
static World *w;
// insertion and erasure, by family
static void ins(C1 &c, T &x) { c.push_back(x); } static void ins(C2 &c, T &x) { c.push_front(x); } static void ins(C3 &c, T &x) { c.push_back(x); }
static void ins(C12 &c, T &x) { c.insert(x); } template<class C> static void ins(C &c, T &x) { c.insert(x); }
static void era(C1 &c, T &x) { c.erase(c.iterator_to(x)); } static void era(C2 &c, T &x) { c.erase(c.iterator_to(x)); } static void era(C3 &c, T &x) { c.erase_after(c.previous(c.iterator_to(x))); } template<class C> static void era(C &c, T &x) { c.erase(c.iterator_to(x)); }
static void pop(C1 &c) { c.pop_front(); } static void pop(C2 &c) { c.pop_front(); } static void pop(C3 &c) { c.pop_front(); } template<class C> static void pop(C &c) { c.erase(c.begin()); }
template<class C> struct keyed { enum { v = 1 }; }; template<> struct keyed<C1> { enum { v = 0 }; }; template<> struct keyed<C2> { enum { v = 0 }; }; template<> struct keyed<C3> { enum { v = 0 }; };
template<class C> struct bidi { enum { v = 1 }; }; template<> struct bidi<C2> { enum { v = 0 }; }; template<> struct bidi<C3> { enum { v = 0 }; }; template<> struct bidi<C10> { enum { v = 0 }; }; template<> struct bidi<C11> { enum { v = 0 }; }; template<> struct bidi<C12> { enum { v = 0 }; };
template<class C> static void erk(C &c, const T &v, int how) { if constexpr (keyed<C>::v) { if (how) c.erase_and_dispose(v, [](auto q) { if (X::lk(*q) == 1) ++w->bad; }); else c.erase(v); } }
template<class C> static void look(C &c, IV &cn, IV &fi) { if constexpr (keyed<C>::v) { T probe; for (int q = 1; q <= w->nk; ++q) { probe.key = q; cn.push_back((int)c.count(probe)); auto i = c.find(probe); fi.push_back(i == c.end() ? 0 : i->id); } } }
template<class C> static void rev(C &c, IV &r) { if constexpr (bidi<C>::v) { for (auto i = c.rbegin(); i != c.rend() && r.size() < 200; ++i) r.push_back(i->id); } else r.push_back(-1); }
static IV fwd(int k) { IV r; w->on(k, [&](auto &c) { for (auto i = c.begin(); i != c.end() && r.size() < 200; ++i) r.push_back(i->id); }); return r; }
static std::vector<IV> contents() { std::vector<IV> v; for (int k = 1; k <= NK; ++k) v.push_back(fwd(k)); return v; }
static std::string hist;
static void step(const Op &op, int how) {
  std::vector<IV> c = contents(); IV K; for (int i = 1; i <= w->n; ++i) K.push_back(w->pool[i].key);
  J j; j.t("t", "Y").t("o", op.o).v("g", op.g).v("k", K).i("nk", w->nk); j.key("kd"); j.s += KD; j.vv("c", c);
  hist += show(op) + (how ? "* ; " : " ; "); if (hist.size() > 4000) hist = "... " + hist.substr(hist.size() - 3000);
  set_pending(j.s + "\t" + hist); ++out.executed; ++out.opcount[op.o]; w->bad = 0; int k = op.g[0];
  auto disp = [](auto q) { if (X::lk(*q) == 1) ++w->bad; };
  if (op.o == "ins") w->on(k, [&](auto &q) { ins(q, w->pool[op.g[1]]); });
  else if (op.o == "era") w->on(k, [&](auto &q) { era(q, w->pool[op.g[1]]); });
  else if (op.o == "erk") { T v; v.key = op.g[1]; w->on(k, [&](auto &q) { erk(q, v, how); }); }
  else if (op.o == "pop") w->on(k, [&](auto &q) { pop(q); });
  else if (op.o == "clr") w->on(k, [&](auto &q) { if (how) q.clear_and_dispose(disp); else q.clear(); });
  else if (op.o == "des") { w->on(k, [&](auto &q) { typedef typename std::decay<decltype(q)>::type Q; q.~Q(); }); w->make(k); }
  else if (op.o == "xfer") w->on(k, [&](auto &q) { w->on(op.g[1], [&](auto &p) { if (how == 1) q.clear_and_dispose([&](auto t) { if (X::lk(*t) == 1) ++w->bad; ins(p, *t); }); else while (!q.empty()) { T &t = *q.begin(); pop(q); ins(p, t); } }); });
  for (int i = 1; i <= NK; ++i) w->on(i, [&](auto &q) { q.check(); });
  std::vector<IV> R(NK), cn(NK), fi(NK); IV l, sz; std::vector<IV> C = contents();
  for (int i = 1; i <= NK; ++i) w->on(i, [&](auto &q) { rev(q, R[i - 1]); look(q, cn[i - 1], fi[i - 1]); sz.push_back((int)q.size()); });
  for (int i = 1; i <= w->n; ++i) l.push_back(X::lk(w->pool[i]));
  j.vv("C", C).vv("R", R).v("l", l).v("sz", sz).vv("cn", cn).vv("fi", fi).i("bad", w->bad); out.rec(j.str(), hist); clear_pending();
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = fopen(a.file.c_str(), "w"); out.cfg = a.cfg; install_handlers(); Rng g(a.seed);
  w = new World(a.n, a.keys);
  // every ordered pair of kinds first: an element, then a group, goes from one to the other and back
  for (int how = 0; how < 2; ++how) for (int k = 1; k <= NK; ++k) for (int m = 1; m <= NK; ++m) if (k != m) { int q = how ? w->n : 1 + g.below(3); for (int i = 1; i <= q; ++i) step(Op("ins", {k, i}), 0); step(Op("xfer", {k, m}), how); if (!fwd(m).empty()) step(Op("era", {m, fwd(m)[0]}), 0); step(Op("xfer", {m, k}), 1 - how); step(Op(how ? "clr" : "des", {k}), how); }
  for (long t = 0; t < a.budget; ++t) {
    int r = g.below(20), k = 1 + g.below(NK), x = 1 + g.below(w->n), in = 0; for (int i = 1; i <= NK; ++i) { IV f = fwd(i); if (std::find(f.begin(), f.end(), x) != f.end()) in = i; }
    if (r < 9 && !in) step(Op("ins", {k, x}), 0);
    else if (r < 12 && in) step(Op("era", {in, x}), 0);
    else if (r < 14 && k > 3) step(Op("erk", {k, 1 + g.below(w->nk)}), g.below(2));
    else if (r < 16 && !fwd(k).empty()) step(Op("pop", {k}), 0);
    else if (r == 16) step(Op(g.below(2) ? "clr" : "des", {k}), g.below(2));
    else if (r == 17 && in) { int m = 1 + g.below(NK); if (m != in) step(Op("xfer", {in, m}), g.below(2)); }
  }
  for (int k = 1; k <= NK; ++k) step(Op("des", {k}), 0);
  return finish();
}
