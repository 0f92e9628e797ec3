// Conformance driver for every ordered container: bstree, rbtree, avltree, sgtree, splaytree, treap and
// their set / multiset wrappers.  See spec/OrdOps.tla for the operations, spec/OrdConform.tla for records.
#ifndef VH_TREE_HPP
#define VH_TREE_HPP
#include "common.hpp"
#include <sstream>
#include <fstream>
#include <iostream>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <boost/move/utility_core.hpp>
namespace bi = boost::intrusive;
using namespace vh;

struct Payload { int id, key, prio; Payload():id(0),key(0),prio(0){} Payload(const Payload &o):id(o.id),key(o.key),prio(o.prio){ ++n_copy; } Payload &operator=(const Payload &o){ id=o.id; key=o.key; prio=o.prio; ++n_assign; return *this; } };
template<class VP> struct ByHook { typedef bi::list_member_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<VP> > type; };
#define VALUE_OPS(T) \
  friend bool operator<(const T &x, const T &y) { tick(n_cmp); return x.p.key < y.p.key; } \
  friend bool operator>(const T &x, const T &y) { tick(n_cmp); return x.p.key > y.p.key; } \
  friend bool operator==(const T &x, const T &y) { tick(n_eq); return x.p.key == y.p.key; } \
  friend bool priority_order(const T &x, const T &y) { tick(n_cmp); return x.p.prio < y.p.prio; }
struct HK { int k; }; struct HP { int p; };   // heterogeneous key and priority
inline int kv(int k) { return k; } inline int kv(const HK &k) { return k.k; } template<class T> inline int kv(const T &t) { return t.p.key; }
inline int pv(int k) { return k; } inline int pv(const HP &k) { return k.p; } template<class T> inline int pv(const T &t) { return t.p.prio; }
template<bool G> struct KCmp { int tag; KCmp(int t = 0):tag(t){} template<class X, class Y> bool operator()(const X &x, const Y &y) const { tick(n_cmp); return G ? kv(y) < kv(x) : kv(x) < kv(y); } };
struct PCmp { int tag; PCmp(int t = 0):tag(t){} template<class X, class Y> bool operator()(const X &x, const Y &y) const { tick(n_cmp); return pv(x) < pv(y); } };
template<class T> struct KOf { typedef int type; const int &operator()(const T &t) const { return t.p.key; } };
template<class T> struct POf { typedef int type; const int &operator()(const T &t) const { return t.p.prio; } };
enum { BS, RB, AVL, SG, SP, TR };
static const char *KN[] = { "BS", "RB", "AVL", "SG", "SP", "TR" };

#include "tree_cfg.hpp"

template<class C, class = void> struct HasTag { static int key(const C &) { return 0; } };
template<class C> struct HasTag<C, decltype((void)std::declval<const C&>().key_comp().tag)> { static int key(const C &c) { return c.key_comp().tag; } };
template<class C, class = void> struct HasPTag { static int get(const C &) { return 0; } };
template<class C> struct HasPTag<C, decltype((void)std::declval<const C&>().priority_comp().tag)> { static int get(const C &c) { return c.priority_comp().tag; } };

template<class Cfg> struct Tree {
  typedef typename Cfg::T T; typedef typename Cfg::C C; typedef typename Cfg::VP VP; typedef typename Cfg::HookT HookT;
  typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::node_traits NT; typedef typename C::node_ptr NP;
  typedef bi::list<T, bi::member_hook<T, typename ByHook<VP>::type, &T::by>, bi::constant_time_size<false> > ByList;
  enum { kind = Cfg::kind, wrap = Cfg::wrap, safe = Cfg::safe, autoun = Cfg::autoun, cs = Cfg::const_size, gr = Cfg::greater, kov = Cfg::kov, fp = Cfg::fp };
  enum { uq = wrap != 2, eq = wrap != 1 };
  struct Region { C *a, *b, *c; ByList by; T *e; alignas(16) char ca[sizeof(C)], cb[sizeof(C)], cc[sizeof(C)]; };
  char *mem; size_t memlen; int N, SPN; IV keys, prios; Region *R;

  T &el(int i) { return R->e[i-1]; }
  C *mk(void *p, int w) { return Cfg::make(p, w); }
  void build(int n, const IV &k, int spare) {
    N = n; SPN = spare; keys = k; memlen = (sizeof(Region) + 64 + sizeof(T) * (N + SPN) + 4095) / 4096 * 4096;
    mem = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memset(mem, POISON, memlen);
    R = new(mem) Region; place();
    for (int i = 1; i <= N + SPN; ++i) { new(&el(i)) T; init(i); poison(el(i)); revive(el(i)); R->by.push_back(el(i)); }
    mk(R->ca, 1); mk(R->cb, 2); mk(R->cc, 3); va.clear(); vb.clear(); gl[0] = gl[1] = gu[0] = gu[1] = 0;
  }
  void place() { R->a = (C*)R->ca; R->b = (C*)R->cb; R->c = (C*)R->cc; size_t o = (sizeof(Region) + 63) / 64 * 64; R->e = (T*)(mem + o); }
  void init(int i) { T &t = el(i); t.p.id = i; t.p.key = i <= N ? keys[i-1] : 0; t.p.prio = i <= N ? (prios.empty() ? (i * 7 + i / 3) % 4 : prios[i-1]) : 0; }
  void poison(T &t) { HookT &h = Cfg::hook(t); h.~HookT(); memset((void*)&h, POISON, sizeof(HookT)); }
  void revive(T &t) { if (safe) new((void*)&Cfg::hook(t)) HookT; }
  void drop() { R->by.clear(); R->a->clear(); R->b->clear(); R->c->clear(); R->a->~C(); R->b->~C(); R->c->~C(); munmap(mem, memlen); }
  void relocate() { char *nm = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memcpy(nm, mem, memlen); mprotect(mem, memlen, PROT_NONE); char *old = mem; mem = nm; R = (Region*)mem; place(); munmap(old, memlen); }

  IV va, vb; int gl[2], gu[2];
  int ek(int k) const { return gr ? -k : k; }       // keys as the specification sees them: always ascending
  int id(const T &t) const { const T *b = R->e; long k = &t - b; if (k < 0 || k >= N + SPN || (const char*)&t != (const char*)(b + k)) return -9; return (int)k + 1; }
  It at(C &c, int i) { It it = c.begin(); while (i--) ++it; return it; }
  CIt cat(const C &c, int i) { CIt it = c.begin(); while (i--) ++it; return it; }
  IV trav(const C &c) { IV r; size_t lim = N + SPN + 2; for (CIt i = c.begin(), e = c.end(); i != e; ++i) { r.push_back(id(*i)); if (r.size() > lim) break; } return r; }
  bool in(const IV &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

  struct Disp { Tree *s; IV *log; int mode; bool *bad;
    template<class P> void operator()(P q) const { T &t = *q; int i = s->id(t); log->push_back(i);
      if constexpr (safe) if (Cfg::is_linked(t)) *bad = true;
      if (mode == 1) s->poison(t); else if (mode == 2) { C &c = *s->R->c; c.push_back(t); } } };
  struct PIt { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
    Tree *s; const int *q; T &operator*() const { return s->el(*q); } PIt &operator++() { ++q; return *this; } PIt operator++(int){ PIt t=*this; ++q; return t; }
    bool operator==(const PIt &o) const { return q == o.q; } bool operator!=(const PIt &o) const { return q != o.q; } };
  PIt pit(const int *q) { PIt i; i.s = this; i.q = q; return i; }

  std::map<int,int> can; IV order;
  void canon(const IV &args) { can.clear(); order.clear(); auto add = [&](int x) { if (!can.count(x)) { order.push_back(x); can[x] = (int)order.size(); } }; for (int x : va) add(x); for (int x : vb) add(x); for (int x : args) add(x); }
  int cn(int x) { if (x <= 0) return x; auto f = can.find(x); return f == can.end() ? -8 : f->second; }
  IV cn(const IV &v) { IV r; for (int x : v) r.push_back(cn(x)); return r; }
  int rid(C &c, CIt i) { return i == c.cend() ? 0 : id(*i); }
  IV aux(const C &c) { IV r; r.push_back(HasTag<C>::key(c)); if constexpr (kind == TR) r.push_back(HasPTag<C>::get(c)); if constexpr (kind == SG) r.push_back((int)(c.balance_factor() * 1000 + 0.5f)); return r; }
  static int aux_al(const IV &x) { return kind == SG ? x.back() : 0; }

  struct Res { int r, n; IV d, cc, za; bool hasc, bad; int x, fc; Res():r(-1),n(-1),hasc(false),bad(false),x(0),fc(-1){} };
  typedef typename C::insert_commit_data ICD;
  // key argument: an int, or a temporary value when the container has no key_of_value
  struct KeyArg { T t; int k; KeyArg(int kk):k(kk) { t.p.key = kk; } };
#define KEY(ka) keyarg(ka, std::integral_constant<bool, kov>())
  static const int &keyarg(const KeyArg &a, std::true_type) { return a.k; } static const T &keyarg(const KeyArg &a, std::false_type) { return a.t; }
  struct PrioArg { T t; int k; PrioArg(int kk):k(kk) { t.p.prio = kk; } };
  static const int &prioarg(const PrioArg &a, std::true_type) { return a.k; } static const T &prioarg(const PrioArg &a, std::false_type) { return a.t; }
  typedef KCmp<gr> HC;   // heterogeneous comparator inducing the container's order

  std::pair<It,bool> check(C &c, int k, int prio, ICD &d, int v) {
    KeyArg ka(k); HK hk; hk.k = k;
    if constexpr (kind == TR) { PrioArg pa(prio); HP hp; hp.p = prio; const auto &pk = prioarg(pa, std::integral_constant<bool, Cfg::pov>());
      if constexpr (wrap == 0) { return v == 0 ? c.insert_unique_check(KEY(ka), pk, d) : c.insert_unique_check(hk, HC(), hp, PCmp(), d); }
      else { return v == 0 ? c.insert_check(KEY(ka), pk, d) : c.insert_check(hk, HC(), hp, PCmp(), d); } }
    else if constexpr (wrap == 0) return v == 0 ? c.insert_unique_check(KEY(ka), d) : c.insert_unique_check(hk, HC(), d);
    else return v == 0 ? c.insert_check(KEY(ka), d) : c.insert_check(hk, HC(), d);
  }
  std::pair<It,bool> checkh(C &c, CIt h, int k, int prio, ICD &d, int v) {
    KeyArg ka(k); HK hk; hk.k = k;
    if constexpr (kind == TR) { PrioArg pa(prio); HP hp; hp.p = prio; const auto &pk = prioarg(pa, std::integral_constant<bool, Cfg::pov>());
      if constexpr (wrap == 0) return v == 0 ? c.insert_unique_check(h, KEY(ka), pk, d) : c.insert_unique_check(h, hk, HC(), hp, PCmp(), d);
      else return v == 0 ? c.insert_check(h, KEY(ka), pk, d) : c.insert_check(h, hk, HC(), hp, PCmp(), d); }
    else if constexpr (wrap == 0) return v == 0 ? c.insert_unique_check(h, KEY(ka), d) : c.insert_unique_check(h, hk, HC(), d);
    else return v == 0 ? c.insert_check(h, KEY(ka), d) : c.insert_check(h, hk, HC(), d);
  }
  It commit(C &c, T &t, const ICD &d) { if constexpr (wrap == 0) return c.insert_unique_commit(t, d); else return c.insert_commit(t, d); }
  bool exec(const Op &op, int v, Res &res) {
    C &a = *R->a, &b = *R->b; const IV &g = op.g; const std::string &o = op.o;
    auto D = [&](int m) { Disp d; d.s = this; d.log = &res.d; d.mode = m; d.bad = &res.bad; return d; };
    auto par = [&](std::pair<It,bool> p) { res.r = rid(a, p.first); res.n = p.second; };
    const int *q0 = g.data(), *q1 = g.data() + g.size();
    if (o == "inse") { if constexpr (eq) { if (v) return false; T &t = el(g[0]); if constexpr (wrap) res.r = rid(a, a.insert(t)); else res.r = rid(a, a.insert_equal(t)); return true; } }
    else if (o == "insh") { if constexpr (eq) { if (v) return false; T &t = el(g[1]); if constexpr (wrap) res.r = rid(a, a.insert(cat(a, g[0]), t)); else res.r = rid(a, a.insert_equal(cat(a, g[0]), t)); return true; } }
    else if (o == "insr") { if constexpr (eq) { if (v) return false; if constexpr (wrap) a.insert(pit(q0), pit(q1)); else a.insert_equal(pit(q0), pit(q1)); return true; } }
    else if (o == "insu") { if constexpr (uq) { if (v) return false; T &t = el(g[0]); if constexpr (wrap) par(a.insert(t)); else par(a.insert_unique(t)); return true; } }
    else if (o == "inuh") { if constexpr (uq) { if (v) return false; T &t = el(g[1]); if constexpr (wrap) res.r = rid(a, a.insert(cat(a, g[0]), t)); else res.r = rid(a, a.insert_unique(cat(a, g[0]), t)); return true; } }
    else if (o == "inur") { if constexpr (uq) { if (v) return false; if constexpr (wrap) a.insert(pit(q0), pit(q1)); else a.insert_unique(pit(q0), pit(q1)); return true; } }
    else if (o == "chk") { if constexpr (uq) { if (v > 1) return false; ICD d; par(check(a, g[0], 0, d, v)); if (res.n) res.r = -1; return true; } }
    else if (o == "chkh") { if constexpr (uq) { if (v > 1) return false; ICD d; par(checkh(a, cat(a, g[0]), g[1], 0, d, v)); if (res.n) res.r = -1; return true; } }
    else if (o == "chc") { if constexpr (uq) { if (v > 1) return false; T &t = el(g[0]); ICD d; par(check(a, t.p.key, t.p.prio, d, v)); if (res.n) { long c0 = n_cmp + n_eq; res.r = rid(a, commit(a, t, d)); res.fc = (int)(n_cmp + n_eq - c0); } return true; } }
    else if (o == "chch") { if constexpr (uq) { if (v > 1) return false; T &t = el(g[1]); ICD d; par(checkh(a, cat(a, g[0]), t.p.key, t.p.prio, d, v)); if (res.n) { long c0 = n_cmp + n_eq; res.r = rid(a, commit(a, t, d)); res.fc = (int)(n_cmp + n_eq - c0); } return true; } }
    else if (o == "insb") { T &t = el(g[1]); int p = g[0]; if (v == 0) res.r = rid(a, a.insert_before(cat(a, p), t)); else if (v == 1) { if (p) return false; a.push_front(t); } else if (v == 2) { if (p != (int)va.size()) return false; a.push_back(t); } else return false; return true; }
    else if (o == "era") { int i = g[0], d = g[1]; if (d == 0) { if (v) return false; res.r = rid(a, a.erase(cat(a, i))); } else { if (v == 0) res.r = rid(a, a.erase_and_dispose(cat(a, i), D(d))); else if (v == 1) res.r = rid(a, a.erase_and_dispose(at(a, i), D(d))); else return false; } return true; }
    else if (o == "eras") { if (v) return false; int i = g[0], j = g[1], d = g[2]; if (d == 0) res.r = rid(a, a.erase(cat(a, i), cat(a, j))); else res.r = rid(a, a.erase_and_dispose(cat(a, i), cat(a, j), D(d))); return true; }
    else if (o == "erak") { int d = g[1]; KeyArg ka(g[0]); HK hk; hk.k = g[0];
      if (d == 0) { if (v == 0) res.n = (int)a.erase(KEY(ka)); else if (v == 1) res.n = (int)a.erase(hk, HC()); else return false; }
      else { if (v == 0) res.n = (int)a.erase_and_dispose(KEY(ka), D(d)); else if (v == 1) res.n = (int)a.erase_and_dispose(hk, HC(), D(d)); else return false; } return true; }
    else if (o == "clr") { if (v) return false; if (g[0] == 0) a.clear(); else a.clear_and_dispose(D(g[0])); return true; }
    else if (o == "lk") { if (v > 1) return false; KeyArg ka(g[1]); HK hk; hk.k = g[1]; std::pair<It,It> p;
      switch (g[0]) {
        case 0: res.r = rid(a, v ? a.find(hk, HC()) : a.find(KEY(ka))); break;
        case 1: res.r = rid(a, v ? a.lower_bound(hk, HC()) : a.lower_bound(KEY(ka))); break;
        case 2: res.r = rid(a, v ? a.upper_bound(hk, HC()) : a.upper_bound(KEY(ka))); break;
        case 3: res.n = (int)(v ? a.count(hk, HC()) : a.count(KEY(ka))); break;
        case 4: p = v ? a.equal_range(hk, HC()) : a.equal_range(KEY(ka)); res.r = rid(a, p.first); res.n = rid(a, p.second); break;
        case 5: { KeyArg k2(g[2]); HK h2; h2.k = g[2]; p = v ? a.bounded_range(hk, h2, HC(), g[3] & 1, g[3] >> 1) : a.bounded_range(KEY(ka), KEY(k2), g[3] & 1, g[3] >> 1); res.r = rid(a, p.first); res.n = rid(a, p.second); break; }
        case 6: if constexpr (kind != SP) { p = v ? a.lower_bound_range(hk, HC()) : a.lower_bound_range(KEY(ka)); res.r = rid(a, p.first); res.n = rid(a, p.second); break; } else return false;
        default: return false; }
      if (g[0] >= 4) { res.n = res.n > 0 ? cn(res.n) : res.n; } return true; }
    else if (o == "merge") { int m = g[0]; if (m == 0 && !uq) return false; if (m == 1 && !eq) return false; 
      if (v == 0) { if constexpr (wrap) a.merge(b); else if (m == 0) a.merge_unique(b); else a.merge_equal(b); return true; }
      if (v == 1) { if constexpr (Cfg::merge2) return merge_other<typename Cfg::C2>(m, res); else return false; }
      if (v == 2) { if (wrap == 2) for (size_t i = 1; i < vb.size(); ++i) if (el(vb[i-1]).p.key == el(vb[i]).p.key) return false;
        if constexpr (wrap && Cfg::merge3) return merge_other<typename Cfg::C3>(m, res); else return false; }
      return false; }
    else if (o == "swap") { if (v == 0) a.swap(b); else if (v == 1) swap(a, b); else return false; return true; }
    else if (o == "mva") { if (v) return false; a = boost::move(b); return true; }
    else if (o == "mvc") { if (v) return false; C t(boost::move(a)); res.hasc = true; res.cc = trav(t); res.za = aux(t); obs(t, res.cc, 'x'); IV em = trav(a); if (!em.empty()) res.bad = true; obs(a, em, 'y'); phys(a, em, 'y', -1, 0); t.swap(a); return true; }
    else if (o == "ctr") { if (v) return false; int m = g[0]; if (m == 0 && !uq) return false; if (m == 1 && !eq) return false; { C t = Cfg::range(m == 0, pit(q0 + 1), pit(q1)); res.hasc = true; res.cc = trav(t); obs(t, res.cc, 'x'); phys(t, res.cc, 'x', -1, 0); t.clear(); } return true; }
    else if (o == "dtor") { if (v) return false; alignas(C) char m[sizeof(C)]; C *t = mk(m, 4); t->swap(a); t->~C(); return true; }
    else if (o == "unl") { if constexpr (autoun) { if (v) return false; Cfg::hook(el(g[0])).unlink(); return true; } }
    else if (o == "del") { if constexpr (autoun) { if (v) return false; HookT &h = Cfg::hook(el(g[0])); h.~HookT(); memset((void*)&h, POISON, sizeof h); new((void*)&h) HookT; return true; } }
    else if (o == "cpy") { if constexpr (Cfg::hookcopy) { if (v == 0) { HookT h2(Cfg::hook(el(g[0]))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else if (v == 1) Cfg::hook(el(g[0])) = Cfg::hook(el(g[1])); else if (v == 2) { HookT h2(boost::move(Cfg::hook(el(g[0])))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else return false; return true; } }
    else if (o == "swn") { if constexpr (Cfg::swapnodes) { if (v) return false; int un = 0; for (int z = 0; z < 2; ++z) un += !in(va, g[z]) && !in(vb, g[z]); if (un > (safe && g[0] != g[1] ? 1 : 0)) return false;
        Cfg::hook(el(g[0])).swap_nodes(Cfg::hook(el(g[1]))); res.hasc = true; res.cc = trav(a); IV m2 = trav(b); for (int x : m2) res.cc.push_back(x);
        if constexpr (kind != TR) { IV ta = trav(a); phys(a, ta, 's', -1, 0); phys(b, m2, 's', -1, 0); }
        Cfg::hook(el(g[0])).swap_nodes(Cfg::hook(el(g[1]))); return true; } }
    else if (o == "rpn") { if (v == 0) { a.replace_node(at(a, g[0]), el(g[1])); return true; } return false; }
    else if (o == "rmn") { if constexpr (!cs && kind != SG && kind != TR && Cfg::rmnode) { if (v) return false; C::remove_node(el(va[g[0]])); return true; } }
    else if (o == "ulm") { if (v) return false; res.hasc = true; for (int z = 0; z <= N + 2; ++z) { typename C::pointer p = a.unlink_leftmost_without_rebalance(); if (!p) break; res.cc.push_back(id(*p)); if constexpr (safe) if (Cfg::is_linked(*p)) res.bad = true; if (cs && (int)a.size() != (int)va.size() - (int)res.cc.size()) res.bad = true; } return true; }
    else if (o == "reb") { if constexpr (kind == BS || kind == SG || kind == SP) { if (v) return false; a.rebalance(); return true; } }
    else if (o == "rebs") { if constexpr (kind == BS || kind == SG || kind == SP) { if (v) return false; res.r = rid(a, a.rebalance_subtree(at(a, g[0]))); res.r = -1; return true; } }
    else if (o == "spu") { if constexpr (kind == SP) { if (v) return false; a.splay_up(at(a, g[0])); return true; } }
    else if (o == "spd") { if constexpr (kind == SP) { KeyArg ka(g[0]); HK hk; hk.k = g[0]; if (va.empty()) return false; if (v == 0) res.r = rid(a, a.splay_down(KEY(ka))); else if (v == 1) res.r = rid(a, a.splay_down(hk, HC())); else return false; return true; } }
    else if (o == "bf") { if constexpr (kind == SG && fp) { if (v) return false; a.balance_factor(g[0] / 1000.0f); return true; } }
    else if (o == "rel") { if constexpr (Cfg::reloc) { if (v) return false; relocate(); return true; } }
    return false;
  }
  // merge from a container with another comparator (reversed) or another uniqueness
  template<class C2> bool merge_other(int m, Res &res) {
    C &a = *R->a, &b = *R->b; IV src = vb; long thr = throw_at; throw_at = 0; b.clear(); C2 t; for (int x : src) put2(t, el(x));
    struct Back { Tree *s; C2 &t; IV &src; ~Back() { throw_at = 0; IV rest; for (typename C2::iterator i = t.begin(); i != t.end();) { rest.push_back(s->id(*i)); i = t.erase(i); } s->R->b->clear(); for (int x : src) if (s->in(rest, x)) s->R->b->push_back(s->el(x)); } } back = { this, t, src };
    throw_at = thr; if constexpr (wrap) a.merge(t); else if (m == 0) a.merge_unique(t); else a.merge_equal(t);
    res.hasc = true; res.x = 0; return true; }
  template<class C2> static void put2(C2 &t, T &e) { if constexpr (wrap) t.insert(e); else t.insert_equal(e); }

  std::string cfgname, src_prefix;
  // ---- observations
  void obs(C &c, const IV &fw, char which) {
    if (!on('S')) return;
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) if (!pos.count(fw[i])) pos[fw[i]] = (int)i + 1;
    auto ps = [&](const T &t) { int x = id(t); auto f = pos.find(x); return f == pos.end() ? -9 : f->second; };
    const C &k = c; long lim = N + SPN + 2; int n = (int)fw.size();
    J j; j.t("t", "S").i("list", 1).i("n", n);
    IV f, cf; { long q = 0; for (It i = c.begin(); i != c.end() && q < lim; ++i, ++q) f.push_back(ps(*i)); q = 0; for (CIt i = k.cbegin(); i != k.cend() && q < lim; ++i, ++q) cf.push_back(ps(*i)); }
    j.v("fw", f).v("cf", cf);
    IV rv, crv, bw; { long q = 0; for (typename C::reverse_iterator i = c.rbegin(); i != c.rend() && q < lim; ++i, ++q) rv.push_back(ps(*i));
      q = 0; for (typename C::const_reverse_iterator i = k.rbegin(); i != k.crend() && q < lim; ++i, ++q) crv.push_back(ps(*i));
      q = 0; for (CIt i = k.end(); i != k.begin() && q < lim; ++q) { --i; bw.push_back(ps(*i)); } }
    j.v("rv", rv).v("cr", crv).v("bw", bw).i("sz", (int)k.size()).i("em", k.empty());
    int fr = -1, bk = -1; if (n) { fr = ps(*k.begin()); CIt l = k.end(); --l; bk = ps(*l); }
    j.i("fr", fr).i("cfr", fr).i("bk", bk).i("cbk", bk).i("lt", -1);
    IV to, ct, st; for (int x : fw) { if (x < 1 || x > N + SPN) { to.push_back(-9); ct.push_back(-9); continue; } T &t = el(x); const T &kt = t;
      It i = c.iterator_to(t); int s1 = ps(*i); It i2 = i++; if (!(i2 == c.iterator_to(t)) || ps(*asg(i2)) != ps(t)) s1 = -9; to.push_back(i == c.end() ? 0 : ps(*i)); if (s1 != (int)to.size()) to.back() = -7;
      CIt q = k.iterator_to(kt); ct.push_back(q != CIt(i2) || ps(*asg(q)) != ps(t) ? -7 : ps(*q)); if constexpr (!Cfg::st) { It q2 = C::s_iterator_to(t); CIt q3 = C::s_iterator_to(kt); st.push_back(q2 != i2 || q3 != q ? -7 : ps(*q2)); } }
    j.v("to", to).v("ct", ct).v("st", st).v("pv", IV());
    int ce = -1;
    if constexpr (Cfg::cfi) { ce = (&C::container_from_end_iterator(c.end()) == &c) && (&C::container_from_end_iterator(k.end()) == &c); for (It i = c.begin(); i != c.end() && ce; ++i) if (&C::container_from_iterator(i) != &c || &C::container_from_iterator(CIt(i)) != &c) ce = 0; }
    It v1 = It(), v2 = It(); CIt v3 = CIt(), v4 = CIt(); j.i("ce", ce).i("vi", v1 == v2 && v3 == v4 && !(v1 != v2));
    k.check();
    out.rec(j.str(), src_prefix + " obs " + which);
  }
  static typename C::value_traits vtof(const C &) { if constexpr (Cfg::st) return Cfg::vt(); else return typename C::value_traits(); }
  // physical structure: positions in iteration order (0: null, -1: header)
  void phys(const C &c, const IV &fw, char which, int U, int minh) {
    if (!on('T')) return;
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) if (!pos.count(fw[i])) pos[fw[i]] = (int)i + 1;
    NP h = c.end().pointed_node(); auto vt = vtof(c);
    auto ps = [&](NP n) -> int { if (!n) return 0; if (n == h) return -1; int x = id(*vt.to_value_ptr(n)); auto f = pos.find(x); return f == pos.end() ? -9 : f->second; };
    J j; j.t("t", "T").t("k", which == 's' && kind == SG ? "BS" : KN[kind]).i("n", (int)fw.size()).i("hp", ps(NT::get_parent(h))).i("hl", ps(NT::get_left(h))).i("hr", ps(NT::get_right(h)));
    IV l, r, p, x; for (int e : fw) { if (e < 1) { l.push_back(-9); continue; } NP n = vt.to_node_ptr(el(e)); l.push_back(ps(NT::get_left(n))); r.push_back(ps(NT::get_right(n))); p.push_back(ps(NT::get_parent(n)));
      if constexpr (kind == RB) x.push_back(NT::get_color(n) == NT::red()); if constexpr (kind == AVL) x.push_back(NT::get_balance(n) == NT::negative() ? -1 : NT::get_balance(n) == NT::positive() ? 1 : 0); if constexpr (kind == TR) x.push_back(el(e).p.prio); }
    if constexpr (kind == RB) j.i("hc", NT::get_color(h) == NT::red());
    if constexpr (kind == TR) { int tp = 0; if (!fw.empty()) { tp = id(*c.top()); if (tp != id(*c.ctop())) tp = -9; C &nc = const_cast<C&>(c); if (id(*nc.top()) != tp) tp = -9; auto f = pos.find(tp); tp = f == pos.end() ? -9 : f->second; } else tp = c.top() == c.end() ? 0 : -9; j.i("top", tp); }
    int rt = fw.empty() ? (c.root() == c.end() ? 0 : -9) : 0; if (!fw.empty()) { auto f = pos.find(id(*c.root())); rt = f == pos.end() ? -9 : f->second; if (c.croot() != c.root()) rt = -7; } j.i("rt", rt);
    j.v("l", l).v("r", r).v("p", p).v("x", x);
    if constexpr (kind == SG) { j.i("al", aux_al(aux(c))).i("U", U); }
    j.i("mh", minh).i("au", autoun && which == 'u');
    out.rec(j.str(), src_prefix + " structure " + which);
  }
  IV shape(const C &c, const IV &fw) { std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) pos[fw[i]] = (int)i + 1; NP h = c.end().pointed_node(); auto vt = vtof(c); IV s;
    for (int e : fw) { if (e < 1) { s.push_back(-9); continue; } NP n = vt.to_node_ptr(el(e)), p = NT::get_parent(n); s.push_back(p == h ? -1 : p ? pos[id(*vt.to_value_ptr(p))] : -8); if constexpr (kind == RB) s.push_back(NT::get_color(n) == NT::red()); if constexpr (kind == AVL) s.push_back(NT::get_balance(n) == NT::negative() ? -1 : NT::get_balance(n) == NT::positive() ? 1 : 0); } return s; }
  void lookups(const C &k, const IV &fw) {   // const lookups, against all keys around the contents
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) pos[fw[i]] = (int)i + 1;
    auto ps = [&](CIt i) { if (i == k.cend()) return 0; auto f = pos.find(id(*i)); return f == pos.end() ? -9 : f->second; };
    IV ks; for (int x : fw) ks.push_back(x >= 1 ? ek(el(x).p.key) : 0);
    IV probe; { std::map<int,int> s; for (int x : fw) if (x >= 1) { int y = el(x).p.key; s[y] = 1; } int lo = 0, hi = 0; if (!s.empty()) { lo = s.begin()->first - 1; hi = s.rbegin()->first + 1; } for (int y = lo; y <= hi && y < lo + 7; ++y) probe.push_back(y); if (hi > lo + 7) { probe.push_back(hi - 1); probe.push_back(hi); } }
    for (int key : probe) { KeyArg ka(key); HK hk; hk.k = key;
      J j; j.t("t", "Q").v("ks", ks).i("q", ek(key));
      IV r; r.push_back((int)k.count(KEY(ka))); r.push_back(ps(k.find(KEY(ka)))); r.push_back(ps(k.lower_bound(KEY(ka)))); r.push_back(ps(k.upper_bound(KEY(ka)))); std::pair<CIt,CIt> p = k.equal_range(KEY(ka)); r.push_back(ps(p.first)); r.push_back(ps(p.second));
      IV h; h.push_back((int)k.count(hk, HC())); h.push_back(ps(k.find(hk, HC()))); h.push_back(ps(k.lower_bound(hk, HC()))); h.push_back(ps(k.upper_bound(hk, HC()))); p = k.equal_range(hk, HC()); h.push_back(ps(p.first)); h.push_back(ps(p.second));
      IV lr; if constexpr (kind != SP) { p = k.lower_bound_range(KEY(ka)); lr.push_back(ps(p.first)); lr.push_back(ps(p.second)); p = k.lower_bound_range(hk, HC()); lr.push_back(ps(p.first)); lr.push_back(ps(p.second)); }
      j.v("r", r).v("h", h).v("lr", lr); out.rec(j.str(), src_prefix + " lookup"); }
    for (size_t x = 0; x < probe.size(); ++x) for (size_t y = 0; y < probe.size(); ++y) { int lo = probe[x], hi = probe[y]; if (ek(lo) > ek(hi)) continue; if (probe.size() > 6 && (x * 3 + y * 5 + fw.size()) % 4) continue;
      J j; j.t("t", "R").v("ks", ks).i("lo", ek(lo)).i("hi", ek(hi)); IV r, h; KeyArg k1(lo), k2(hi); HK h1, h2; h1.k = lo; h2.k = hi;
      for (int f = 0; f < 4; ++f) { if (lo == hi && !f) { r.push_back(-1); r.push_back(-1); h.push_back(-1); h.push_back(-1); continue; } std::pair<CIt,CIt> p = k.bounded_range(KEY(k1), KEY(k2), f & 1, f >> 1); r.push_back(ps(p.first)); r.push_back(ps(p.second)); p = k.bounded_range(h1, h2, HC(), f & 1, f >> 1); h.push_back(ps(p.first)); h.push_back(ps(p.second)); }
      j.v("r", r).v("h", h); out.rec(j.str(), src_prefix + " bounded_range"); }
    // the comparison objects agree with the order used
    if (fw.size() >= 2 && fw[0] >= 1 && fw[1] >= 1) { const T &x = el(fw[0]), &y = el(fw[1]); IV r; r.push_back(k.value_comp()(x, y)); r.push_back(k.value_comp()(y, x)); J j; j.t("t", "V").i("p", ek(x.p.key)).i("q", ek(y.p.key)).v("r", r); out.rec(j.str(), src_prefix + " value_comp"); }
  }
  void links() {
    if constexpr (safe) { std::map<int,int> in; for (int x : va) in[x] = 1; for (int x : vb) in[x] = 1; int ml = 0, pl = 0; for (int i = 1; i <= N + SPN; ++i) { bool l = Cfg::is_linked(el(i)); if (in.count(i)) ml += l; else pl += l; }
      int ne = 0; J j; j.t("t", "L").i("m", (int)in.size()).i("ml", ml).i("pl", pl).i("ne", ne); out.rec(j.str(), src_prefix + " linked"); }
    IV f, r; int lim = N + SPN + 2; bool lk = true; for (typename ByList::iterator i = R->by.begin(); i != R->by.end() && lim--; ++i) { f.push_back(id(*i)); lk = lk && i->by.is_linked(); }
    lim = N + SPN + 2; for (typename ByList::reverse_iterator i = R->by.rbegin(); i != R->by.rend() && lim--; ++i) r.push_back(id(*i));
    J j; j.t("t", "B").i("n", N + SPN).v("f", f).v("r", r).i("lk", lk); out.rec(j.str(), src_prefix + " bystander");
  }
  void rel_ops() { const C &a = *R->a, &b = *R->b; IV ka, kb; for (int x : va) if (x >= 1) ka.push_back(el(x).p.key); for (int x : vb) if (x >= 1) kb.push_back(el(x).p.key);
    IV r; r.push_back(a == b); r.push_back(a != b); r.push_back(a < b); r.push_back(a > b); r.push_back(a <= b); r.push_back(a >= b); r.push_back(b == a); r.push_back(a == a); r.push_back(b < a);
    J j; j.t("t", "C").v("ka", ka).v("kb", kb).v("r", r); out.rec(j.str(), src_prefix + " compare"); }
  void observe_all(int minh = 0, char which = 'a') {
    mprotect(mem, memlen, PROT_READ); in_const = 1;
    if (on('S')) { obs(*R->a, va, 'a'); obs(*R->b, vb, 'b'); } if (on('T')) { phys(*R->a, va, which, gu[0], minh); phys(*R->b, vb, which == 'u' ? 'u' : 'b', gu[1], 0); } if (on('Q')) lookups(*R->a, va); if (on('C') && va.size() + vb.size() < 24) rel_ops(); if (on('L')) links();
    in_const = 0; mprotect(mem, memlen, PROT_READ|PROT_WRITE);
  }
  static bool is_elem(const std::string &o, size_t i) {
    return ((o == "inse" || o == "insu" || o == "chc") && i == 0) || ((o == "insh" || o == "inuh" || o == "chch" || o == "insb" || o == "rpn") && i == 1) || o == "insr" || o == "inur" || (o == "ctr" && i >= 1) || o == "unl" || o == "del" || o == "cpy" || o == "swn"; }
  static bool is_key(const std::string &o, size_t i) { return (o == "chk" && i == 0) || (o == "chkh" && i == 1) || (o == "erak" && i == 0) || (o == "lk" && (i == 1 || i == 2)) || (o == "spd" && i == 0); }
  // bounds for the scapegoat tree's recorded maximum size (history variables; checked against the specification)
  void sg_ins(int w, int m) { if (m > gu[w]) gu[w] = m; gl[w] = m; }
  void sg_era(int w, int s, int alo, int ahi) { if (s <= 0) return; if (s < alo * gl[w] / 1000) gl[w] = gu[w] = s; else if (s < ahi * gu[w] / 1000 + 1 && s < gl[w]) gl[w] = s; }

  // The same state twice: check + commit once, plain unique insertion with the same hint once (everything lives in the region).
  bool twin_on(const Op &op) { return uq && asked('J') && Cfg::cfi && (op.o == "chc" || op.o == "chch" || op.o == "chk" || op.o == "chkh"); }
  std::vector<char> snap; void save() { snap.assign(mem, mem + memlen); } void restore() { memcpy(mem, snap.data(), memlen); }
  IV fate(C &c) { IV r = shape(c, trav(c)); if constexpr (kind == SG) { int x = c.balance_factor() < 0.62f ? 2 : 1; while (!c.empty()) { c.erase(x == 2 && c.size() % 2 ? --c.end() : c.begin()); IV t = trav(c); r.push_back(t.empty() ? 0 : (int)(std::find(t.begin(), t.end(), id(*c.root())) - t.begin()) + 1); } } return r; }   // what a hidden part of the state does later
  IV twin_plain(const Op &op, int &m, bool plain) { IV s2; m = 0; save();
    if constexpr (uq) { if (op.o == "chc") { if constexpr (wrap == 0) m = R->a->insert_unique(el(op.g[0])).second; else m = R->a->insert(el(op.g[0])).second; }
      else if (op.o == "chch" && plain) { if constexpr (wrap == 0) m = R->a->insert_unique(el(op.g[1])).second; else m = R->a->insert(el(op.g[1])).second; }
      else if (op.o == "chch") { size_t z = trav(*R->a).size(); if constexpr (wrap == 0) R->a->insert_unique(cat(*R->a, op.g[0]), el(op.g[1])); else R->a->insert(cat(*R->a, op.g[0]), el(op.g[1])); m = trav(*R->a).size() != z; } }
    s2 = fate(*R->a); restore(); return s2; }
  void twin_judge(const Op &op, int n, int m, const IV &s2, const std::string &src) { bool com = op.o == "chc" || op.o == "chch"; if (!com) { m = n; if (kind == SP) return; }
    save(); IV s1 = fate(*R->a); restore(); J j; j.t("t", "J").t("kd", KN[kind]).t("o", op.o).i("n", n).i("m", m).v("s1", s1).v("s2", s2); out.rec(j.str(), src); }

  bool dead;
  bool step(const Op &op, int v, int thr = 0) {
    IV args; Op cop = op; for (size_t i = 0; i < op.g.size(); ++i) if (is_elem(op.o, i)) args.push_back(op.g[i]);
    canon(args); for (size_t i = 0; i < op.g.size(); ++i) { if (is_elem(op.o, i)) cop.g[i] = can[op.g[i]]; else if (is_key(op.o, i)) cop.g[i] = ek(op.g[i]); }
    if (op.o == "lk" && gr && op.g[0] == 5) { }
    IV k; for (int x : order) k.push_back(ek(el(x).p.key));
    IV xa = aux(*R->a), xb = aux(*R->b);
    J j; j.t("t", "E").t("kd", KN[kind]).t("o", op.o).v("g", cop.g).v("k", k).i("na", (int)va.size()).i("nb", (int)vb.size()).i("th", thr).v("xa", xa).v("xb", xb);
    if (kind == SG) j.v("g1", IV{gl[0], gu[0]}).v("g2", IV{gl[1], gu[1]}).i("fp", fp);
    std::string src = src_prefix + show(op) + " v" + std::to_string(v) + (thr ? " throw" + std::to_string(thr) : "");
    set_pending(j.s + "\t" + src);
    std::vector<It> ia, ib; for (size_t i = 0; i < va.size(); ++i) ia.push_back(at(*R->a, (int)i)); for (size_t i = 0; i < vb.size(); ++i) ib.push_back(at(*R->b, (int)i)); It ea = R->a->end();
    std::string sp = src_prefix; src_prefix = src + " ;"; Res res; bool ok; long cp = n_copy + n_assign;
    bool tw = !thr && twin_on(op); int tm = 0, um = 0; IV ts, us; bool unh = tw && kind != SP && op.o == "chch"; if (tw) ts = twin_plain(op, tm, false); if (unh) us = twin_plain(op, um, true);   // a leaf position between two neighbours is unique: the hint must not matter
    if (thr) { throw_at = thr; try { ok = exec(op, v, res); } catch (Boom &) { ok = true; res.x = 1; } throw_at = 0; } else ok = exec(op, v, res);
    if (tw && ok) { twin_judge(op, res.n, tm, ts, src); if (unh) twin_judge(op, res.n, um, us, src); }
    src_prefix = sp;
    if (!ok) { clear_pending(); return false; }
#ifdef VH_ASSERTS
    if (res.fc > 0) res.fc = 0;
#endif
    out.executed++; out.opcount[op.o + "/" + std::to_string(v)]++;
    IV pa = va, pb = vb; va = trav(*R->a); vb = trav(*R->b); IV vc = trav(*R->c);
    if (!vc.empty()) { R->c->clear(); if (!res.hasc) { res.cc = vc; res.hasc = true; } }
    if (op.o == "merge" && res.x == 0 && v) res.cc.clear();
    j.v("a", cn(va)).v("b", cn(vb)).i("r", cn(res.r)).i("n", res.n).v("d", cn(res.d)).v("c", cn(res.cc)).i("bad", res.bad).i("x", res.x).i("fc", res.fc).i("cp", (int)(n_copy + n_assign - cp));
    j.v("ya", aux(*R->a)).v("yb", aux(*R->b)).v("za", res.za);
    if constexpr (kind == SP) j.i("rt", va.empty() ? 0 : cn(id(*R->a->croot())));
    IV it; std::map<int,int> alive; for (int x : va) alive[x] = 1; for (int x : vb) alive[x] = 2;
    if (op.o != "rel") { for (int w = 0; w < 2; ++w) { const IV &pp = w ? pb : pa; std::vector<It> &ii = w ? ib : ia; for (size_t i = 0; i < pp.size(); ++i) { if (!alive.count(pp[i])) { it.push_back(-1); continue; } It q = ii[i]; if (id(*q) != pp[i]) { it.push_back(-7); continue; } ++q; C &own = alive[pp[i]] == 1 ? *R->a : *R->b; it.push_back(q == own.end() ? 0 : cn(id(*q))); } } j.i("ee", ea == R->a->end()); }
    else { for (size_t i = 0; i < pa.size() + pb.size(); ++i) it.push_back(-1); j.i("ee", 1); }
    j.v("i", it);
    if constexpr (safe) { int lk = 0; for (int x : order) if (!alive.count(x) && !in(res.d, x)) lk += Cfg::is_linked(el(x)); j.i("lk", lk); } else j.i("lk", 0);
    retire(res, order);
    if (kind == SG) ghosts(op, pa, pb, xa, xb);
    if (kind == SG) j.v("h1", IV{gl[0], gu[0]}).v("h2", IV{gl[1], gu[1]});
    out.rec(j.str(), src);
    dead = kind == TR && autoun && (op.o == "unl" || op.o == "del");
    src_prefix = src + " ;"; observe_all(op.o == "reb" && !res.x, dead ? 'u' : 'a'); src_prefix = sp;
    clear_pending(); return true;
  }
  void ghosts(const Op &op, const IV &pa, const IV &pb, const IV &xa, const IV &xb) {
    int n0 = (int)pa.size(), n1 = (int)va.size(), m0 = (int)pb.size(), m1 = (int)vb.size(); int al = fp ? aux_al(xa) : 750, bl = fp ? aux_al(xb) : 750;
    if (op.o == "swap" || op.o == "mva") { std::swap(gl[0], gl[1]); std::swap(gu[0], gu[1]); return; }
    if (op.o == "clr" || op.o == "dtor") { gl[0] = gu[0] = 0; return; }
    if (op.o == "bf") { if (op.g[0] < aux_al(xa)) gl[0] = gu[0] = n1; return; }
    if (op.o == "ulm") return;
    if (n1 > n0) sg_ins(0, n1);
    for (int s = n0 - 1; s >= n1; --s) sg_era(0, s, al - 1, al + 1);
    for (int s = m0 - 1; s >= m1; --s) sg_era(1, s, std::min(al, bl) - 1, std::max(al, bl) + 1);
  }
  void retire(const Res &res, const IV &who) { for (int x : who) if (!in(va, x) && !in(vb, x)) { if (!safe) memset((void*)&Cfg::hook(el(x)), POISON, sizeof(HookT)); else if (in(res.d, x)) revive(el(x)); } }

  struct Cloner { Tree *s; IV *of; int *next; template<class Q> T *operator()(Q &t) const { tick(n_pred); int n = (*next)++; T &e = s->el(n); e.p.key = t.p.key; e.p.prio = t.p.prio; of->push_back(s->id(t)); return &e; } };
  struct CCloner : Cloner { T *operator()(const T &t) const { return Cloner::operator()(t); } }; struct NCloner : Cloner { T *operator()(T &t) const { return Cloner::operator()(t); } };
  IV pool() { IV r; for (int i = 1; i <= N; ++i) if (!in(va, i) && !in(vb, i)) r.push_back(i); return r; }
  void clone(int pre, int thr, int rv) {
    IV pl = pool(); if ((int)pl.size() < pre || (int)va.size() > SPN) return; std::stable_sort(pl.begin(), pl.end(), [&](int x, int y) { return ek(keys[x-1]) < ek(keys[y-1]); }); pl.resize(pre);
    C &t = *R->c; canon(pl); for (int i = 0; i < (int)va.size(); ++i) { order.push_back(N + 1 + i); can[N+1+i] = (int)order.size(); }
    for (int x : pl) t.push_back(el(x));
    J j; j.t("t", "K").i("na", (int)va.size()).i("nb", (int)vb.size()).i("q", pre).i("th", thr).i("tree", 1).v("xa", aux(*R->a));
    std::string src = src_prefix + "clone prefill=" + std::to_string(pre) + " throw=" + std::to_string(thr) + (rv ? " rvalue" : ""); set_pending(j.s + "\t" + src);
    IV of, d; int next = N + 1; bool bad = false; int x = 0; Disp ds; ds.s = this; ds.log = &d; ds.mode = 1; ds.bad = &bad;
    throw_at = thr;
    try { if (rv) { NCloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(boost::move(*R->a), c, ds); } else { CCloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(*R->a, c, ds); } } catch (Boom &) { x = 1; }
    throw_at = 0;
    IV tv = trav(t); std::string sp = src_prefix; src_prefix = src + " ;"; obs(t, tv, 'c'); phys(t, tv, 'c', x ? 0 : gu[0], 0); src_prefix = sp;
    IV sv = trav(*R->a); int lk = 0; if constexpr (safe) for (int i = 1; i <= N + SPN; ++i) if (!in(d, i) && !in(tv, i) && !in(va, i) && !in(vb, i)) lk += Cfg::is_linked(el(i));
    j.v("a", cn(sv)).v("c", cn(tv)).v("of", cn(of)).v("d", cn(d)).i("bad", bad).i("x", x).i("lk", lk).v("xc", aux(t)).v("s1", shape(*R->a, sv)).v("s2", shape(t, tv));
    out.rec(j.str(), src); out.executed++; out.opcount[rv ? "clone/rv" : "clone"]++;
    t.clear(); t.~C(); mk(R->cc, 3); for (int i = 1; i <= N + SPN; ++i) if (!in(va, i) && !in(vb, i)) { if (safe) { if (in(d, i)) revive(el(i)); } else memset((void*)&Cfg::hook(el(i)), POISON, sizeof(HookT)); }
    src_prefix = src + " ;"; observe_all(); src_prefix = sp; clear_pending();
  }

  // ---- enumeration
  int nk() { int m = 0; for (int k : keys) m = std::max(m, k); return m; }
  bool fits(int p, int e) { int x = ek(keys[e-1]); bool strict = wrap == 1; if (p > 0) { int y = ek(el(va[p-1]).p.key); if (strict ? !(y < x) : y > x) return false; } if (p < (int)va.size()) { int y = ek(el(va[p]).p.key); if (strict ? !(x < y) : x > y) return false; } return true; }
  void all_ops(std::vector<Op> &o) {
    int na = (int)va.size(); IV pl = pool(), pe; for (int x : pl) { bool dup = false; for (int y : pe) dup |= keys[y-1] == keys[x-1] && (kind != TR || el(x).p.prio == el(y).p.prio); if (!dup) pe.push_back(x); }
    for (int e : pe) { if (eq) o.push_back(Op("inse", IV{e})); if (uq) { o.push_back(Op("insu", IV{e})); o.push_back(Op("chc", IV{e})); }
      for (int p = 0; p <= na; ++p) { if (eq) o.push_back(Op("insh", IV{p, e})); if (uq) { o.push_back(Op("inuh", IV{p, e})); o.push_back(Op("chch", IV{p, e})); } if (fits(p, e)) o.push_back(Op("insb", IV{p, e})); }
      for (int p = 0; p < na; ++p) if (keys[e-1] == el(va[p]).p.key && el(e).p.prio == el(va[p]).p.prio) o.push_back(Op("rpn", IV{p, e})); }
    for (int z = 0; z < 2; ++z) { if (z == 0 ? !uq : !eq) continue; const char *nm = z == 0 ? "inur" : "insr"; o.push_back(Op(nm, IV())); if (pl.size() >= 2) { o.push_back(Op(nm, IV{pl[0], pl[1]})); o.push_back(Op(nm, IV{pl[1], pl[0]})); } if (pl.size() >= 3) o.push_back(Op(nm, IV{pl[2], pl[0], pl[1]}));
      IV g{z}; for (size_t i = 0; i < pl.size(); ++i) g.push_back(pl[i]); o.push_back(Op("ctr", g)); o.push_back(Op("merge", IV{z})); }
    int K = nk(); for (int k = 0; k <= K + 1; ++k) { if (uq) { o.push_back(Op("chk", IV{k})); for (int p = 0; p <= na; ++p) o.push_back(Op("chkh", IV{p, k})); }
      for (int d = 0; d < 3; ++d) o.push_back(Op("erak", IV{k, d})); for (int z = 0; z < 5; ++z) o.push_back(Op("lk", IV{z, k})); o.push_back(Op("lk", IV{6, k})); o.push_back(Op("spd", IV{k}));
      for (int k2 = 0; k2 <= K + 1; ++k2) if (ek(k) <= ek(k2)) for (int f = 0; f < 4; ++f) if (k != k2 || f) o.push_back(Op("lk", IV{5, k, k2, f})); }
    for (int d = 0; d < 3; ++d) { for (int i = 0; i < na; ++i) o.push_back(Op("era", IV{i, d})); for (int i = 0; i <= na; ++i) for (int j = i; j <= na; ++j) o.push_back(Op("eras", IV{i, j, d})); o.push_back(Op("clr", IV{d})); }
    o.push_back(Op("swap")); o.push_back(Op("mva")); o.push_back(Op("mvc")); o.push_back(Op("dtor")); o.push_back(Op("rel")); o.push_back(Op("ulm")); o.push_back(Op("reb"));
    for (int i = 0; i < na; ++i) { o.push_back(Op("rmn", IV{i})); o.push_back(Op("rebs", IV{i})); o.push_back(Op("spu", IV{i})); }
    if (kind == SG) { o.push_back(Op("bf", IV{600})); o.push_back(Op("bf", IV{900})); }
    IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); if (!pl.empty()) all.push_back(pl[0]);
    for (int x : all) { o.push_back(Op("unl", IV{x})); o.push_back(Op("del", IV{x})); for (int y : all) { o.push_back(Op("swn", IV{x, y})); o.push_back(Op("cpy", IV{x, y})); } }
  }
  static bool can_throw(const std::string &o) {
    if (!with_throws) return false;
#ifdef VH_ASSERTS
    return false;
#endif
    return o == "inse" || o == "insh" || o == "insr" || o == "insu" || o == "inuh" || o == "inur" || o == "chk" || o == "chkh" || o == "chc" || o == "chch" || o == "erak" || o == "lk" || o == "merge" || o == "ctr" || o == "spd" || (kind == TR && (o == "insb" || o == "era" || o == "eras")); }
  enum { MAXV = 3 };
  struct Rec { Op op; int v, thr; };
  std::string state_key() { std::string s; for (int w = 0; w < 2; ++w) { C &c = w ? *R->b : *R->a; NP h = c.end().pointed_node(); ser(NT::get_parent(h), s, 0); s += '|'; } return s; }
  void ser(NP n, std::string &s, int dep) { if (!n || dep > 60) { s += '.'; return; } auto vt = vtof(*R->a); T &t = *vt.to_value_ptr(n); s += '('; put(s, t.p.key); if (kind == TR) { s += '/'; put(s, t.p.prio); } if constexpr (kind == RB) if (NT::get_color(n) == NT::red()) s += 'r'; ser(NT::get_left(n), s, dep + 1); ser(NT::get_right(n), s, dep + 1); s += ')'; }
  static std::string show_path(const std::vector<Rec> &p) { std::string s; for (const Rec &r : p) s += show(r.op) + " v" + std::to_string(r.v) + (r.thr ? " throw" + std::to_string(r.thr) : "") + " ; "; return s; }
  void replay_path(const std::vector<Rec> &p) { for (const Rec &r : p) { Res res; IV pa = va, pb = vb, xa = aux(*R->a), xb = aux(*R->b); canon(IV()); throw_at = r.thr; try { exec(r.op, r.v, res); } catch (Boom &) {} throw_at = 0; va = trav(*R->a); vb = trav(*R->b); IV every; for (int i = 1; i <= N; ++i) every.push_back(i); R->c->clear(); retire(res, every); if (kind == SG) ghosts(r.op, pa, pb, xa, xb); } }

  // ---- misuse: every insertion of an element that is already linked (or not, as a control), and its destruction
  void misuse() {
    IV pl = pool(); IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); for (size_t i = 0; i < pl.size() && i < 1; ++i) all.push_back(pl[i]);
    int md = autoun ? 2 : safe ? 1 : 0; std::vector<char> done;
    auto rec = [&](const char *o, int v, int w, int lc, int u, char c, const std::string &what) { if (c == 'A') return; out.executed++; J j; j.t("t", "X").t("o", o).i("v", v).i("m", md).i("w", w).i("lc", lc).i("u", u).t("c", std::string(1, c)); out.rec(j.str(), src_prefix + what); };
    for (int x : all) { int w = in_(va, x) ? 1 : in_(vb, x) ? 2 : 0, lc = last_of_chain(x);
      rec("destroy", 0, w, lc, 0, probe([&] { HookT &h = Cfg::hook(el(x)); h.~HookT(); return true; }), " destroy element " + std::to_string(x));
      if (w && !md) continue;
      std::vector<Op> ops; misuse_ops(ops, x, w, pl);
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, w, lc, uniq(op, x), probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert linked: " + show(op) + " v" + std::to_string(v));
      if (w == 0 && md) { std::vector<Op> dup; duplicate_ops(dup, x); for (const Op &op : dup) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, 3, 0, uniq(op, x) || op.o == "inur", probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert twice: " + show(op) + " v" + std::to_string(v)); }
      if (w) rec("clone", 0, w, lc, 0, probe([&] { C &t = *R->c; IV d; bool bad = false; Disp ds; ds.s = this; ds.log = &d; ds.mode = 0; ds.bad = &bad; if (va.empty()) return false; t.clone_from(*R->a, [&](const T &) { return &el(x); }, ds); return true; }), " cloner returns linked element " + std::to_string(x));
    }
  }
  bool in_(const IV &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  int last_of_chain(int) { return 0; }
  bool present(int x) { for (int y : va) if (el(y).p.key == el(x).p.key) return true; return false; }
  int uniq(const Op &op, int x) { const std::string &o = op.o; return (o == "insu" || o == "inuh" || o == "inur" || o == "chc" || o == "chch") && present(x); }
  void misuse_ops(std::vector<Op> &o, int x, int w, const IV &pl) { int na = (int)va.size(); IV more; for (int y : pl) if (y != x && !(uq && keys[y-1] == keys[x-1])) more.push_back(y); (void)w;
    if (eq) o.push_back(Op("inse", IV{x})); if (uq) { o.push_back(Op("insu", IV{x})); o.push_back(Op("chc", IV{x})); }
    for (int p = 0; p <= na; ++p) { if (eq) o.push_back(Op("insh", IV{p, x})); if (uq) { o.push_back(Op("inuh", IV{p, x})); o.push_back(Op("chch", IV{p, x})); } if (fits(p, x)) o.push_back(Op("insb", IV{p, x})); }
    for (int z = 0; z < 2; ++z) { if (z == 0 ? !uq : !eq) continue; const char *nm = z == 0 ? "inur" : "insr"; o.push_back(Op(nm, IV{x})); o.push_back(Op("ctr", IV{z, x})); if (!more.empty()) { o.push_back(Op(nm, IV{more[0], x})); o.push_back(Op(nm, IV{x, more[0]})); o.push_back(Op("ctr", IV{z, more[0], x})); } } }
  void duplicate_ops(std::vector<Op> &o, int x) { if (eq) { o.push_back(Op("insr", IV{x, x})); o.push_back(Op("ctr", IV{1, x, x})); } if (uq) o.push_back(Op("inur", IV{x, x})); }

  void bfs(int n, const IV &k, long maxstates, long maxops) {
    std::vector<std::vector<Rec> > q; std::unordered_set<std::string> seen; q.push_back(std::vector<Rec>()); seen.insert(".|.|");
    build(n, k, n); src_prefix = "init ;"; set_pending("{\"t\":\"I\"\tinit"); observe_all(); clear_pending(); drop();
    size_t h = 0; for (; h < q.size() && (long)h < maxstates && out.executed < maxops; ++h) {
      std::vector<Rec> path = q[h]; std::vector<Op> ops; std::string pfx = show_path(path);
      build(n, k, n); replay_path(path); all_ops(ops); int na = (int)va.size(); src_prefix = pfx;
      src_prefix = pfx; if (asked('X')) misuse();
      for (int pre = 0; pre <= 2; ++pre) for (int thr = 0; thr <= (with_throws ? na : 0); ++thr) if (on('K')) { clone(pre, thr, 0); if (pre < 2) clone(pre, thr, 1); }
      bool fresh = true;
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) for (int thr = 0; thr < (can_throw(op.o) ? 12 : 1); ++thr) {
        if (!fresh) { drop(); build(n, k, n); replay_path(path); fresh = true; }
        src_prefix = pfx; long c0 = n_cmp + n_pred + n_eq; bool ok = step(op, v, thr); if (!ok) break; fresh = false;
        if (!dead) { std::string sk = state_key(); if (seen.insert(sk).second && va.size() + vb.size() <= (size_t)n) { std::vector<Rec> np = path; Rec r; r.op = op; r.v = v; r.thr = thr; np.push_back(r); q.push_back(np); } }
        if (thr && n_cmp + n_pred + n_eq - c0 < thr) break;
      }
      drop();
    }
    fprintf(stderr, "states %zu of %zu\n", h, q.size());
  }
  // preconditions of an operation proposed by the specification for another configuration
  bool valid(const Op &op) {
    const std::string &o = op.o; const IV &g = op.g; int na = (int)va.size(); IV pl = pool();
    for (size_t i = 0; i < g.size(); ++i) if (is_elem(o, i) && o != "unl" && o != "del" && o != "cpy" && o != "swn" && !in(pl, g[i])) return false;
    if (o == "insh" || o == "inuh" || o == "chkh" || o == "chch") return g[0] <= na;
    if (o == "insb") return g[0] <= na && fits(g[0], g[1]);
    if (o == "era" || o == "rmn" || o == "rebs" || o == "spu") return g[0] < na;
    if (o == "eras") return g[0] <= g[1] && g[1] <= na;
    if (o == "rpn") return g[0] < na && el(va[g[0]]).p.key == el(g[1]).p.key && el(va[g[0]]).p.prio == el(g[1]).p.prio;
    if (o == "lk" && g[0] == 5) return ek(g[1]) <= ek(g[2]) && (g[1] != g[2] || g[3]);
    return true; }
  void script(const IV &k, std::istream &in) {
    std::string line; long ln = 0; while (std::getline(in, line)) { ++ln; build((int)k.size(), k, (int)k.size()); std::string done = "";
      std::istringstream ls(line); std::string seg; while (std::getline(ls, seg, ';')) { std::istringstream ss(seg); std::string w; Op op; int v = -1, thr = 0; if (!(ss >> op.o)) continue;
        while (ss >> w) { if (w[0] == 'v') v = atoi(w.c_str() + 1); else if (w[0] == 't') thr = atoi(w.c_str() + 5); else op.g.push_back(atoi(w.c_str())); }
        src_prefix = done; bool ok = false; int used = v; dead = false; if (!valid(op)) continue;
        if (v >= 0) ok = step(op, v, thr); else for (int t = 0; t < MAXV && !ok; ++t) { used = (int)((ln * 7 + out.executed + t) % MAXV); ok = step(op, used, thr); }
        if (dead) break;
        done += show(op) + " v" + std::to_string(used) + (thr ? " throw" + std::to_string(thr) : "") + " ; "; }
      drop(); } }
  void random(int n, int nkk, unsigned seed, long budget) {
    Rng rg(seed); IV k; prios.clear(); for (int i = 0; i < n; ++i) { k.push_back(1 + rg.below(nkk)); prios.push_back(rg.below(n)); } build(n, k, n);
    std::string base = "random seed=" + std::to_string(seed) + " n=" + std::to_string(n) + " step="; int phase = 0, hot = 0, hp = 0, hdir = 0, hkind = 0;
    for (long s = 0; s < budget; ++s) {
      src_prefix = base + std::to_string(s) + " : "; if (asked('X') && s % 50 == 49) misuse(); dead = false; if (s % (n + 5) == 0) phase = rg.below(3);
      int na = (int)va.size(); IV pl = pool(); Op op; int c = rg.below(100), d = rg.below(3), i, j; int key = rg.below(nkk + 2), key2 = rg.below(nkk + 2); if (ek(key) > ek(key2)) std::swap(key, key2);
      auto pick = [&]() { return pl[rg.below((int)pl.size())]; };
      if (hot > 0) { --hot; IV ok; if (hp <= na) for (int x : pl) if (fits(hp, x)) ok.push_back(x); if (ok.empty()) hot = 0; else { int e = ok[rg.below((int)ok.size())]; if (asked('J')) for (int x : ok) if (hdir ? ek(keys[x-1]) < ek(keys[e-1]) : ek(keys[x-1]) > ek(keys[e-1])) e = x; op = Op(uq && asked('J') && hkind < 2 ? (hkind ? "chc" : "chch") : "insb", IV{hp, e}); if (op.o == "chc") op.g.erase(op.g.begin()); hp += hdir; } }   // chains of positional insertions at one place
      else if (rg.below(asked('J') ? 8 : 40) == 0) { hot = 5 + rg.below(20); hp = asked('J') && na && s % 2 ? (s % 4 < 2 ? na : 0) : rg.below(na + 1); hdir = rg.below(2); hkind = (int)(s % 3); }
      if (phase == 0 && c >= 40 && c < 62) c = rg.below(40); if (phase == 1 && c < 40 && rg.below(3)) c = 40 + rg.below(22);   // growing / shrinking phases
      if (!op.o.empty()) ;
      else if (c < 30) { if (pl.empty()) continue; int e = pick(), z = rg.below(7), p = rg.below(na + 1); if (rg.below(3) == 0) { int best = pl[0]; for (int x : pl) if (ek(keys[x-1]) > ek(keys[best-1])) best = x; e = best; }
        if (z == 0 || z == 1) op = Op(eq && (!uq || rg.below(2)) ? "inse" : "insu", IV{e}); else if (z == 2 || z == 3) op = Op(eq && (!uq || rg.below(2)) ? "insh" : "inuh", IV{p, e});
        else if (z == 4) op = Op(uq ? "chc" : "inse", IV{e}); else if (z == 5) { if (!uq) op = Op("insh", IV{p, e}); else op = Op("chch", IV{p, e}); } else { IV ok; for (int p2 = 0; p2 <= na; ++p2) if (fits(p2, e)) ok.push_back(p2); if (ok.empty()) continue; op = Op("insb", IV{ok[rg.below((int)ok.size())], e}); } }
      else if (c < 34) { IV g; int m = rg.below(std::min(9, (int)pl.size() + 1)); for (int z = 0; z < m; ++z) g.push_back(pl[z]); op = Op(eq && (!uq || rg.below(2)) ? "insr" : "inur", g); }
      else if (c < 36) { if (!uq) continue; if (rg.below(2)) op = Op("chk", IV{key}); else op = Op("chkh", IV{rg.below(na + 1), key}); }
      else if (c < 40) { op = Op("merge", IV{eq && (!uq || rg.below(2))}); }
      else if (c < 54) { if (!na) continue; op = Op("era", IV{rg.below(3) ? rg.below(na) : rg.below(2) * (na - 1), d}); }
      else if (c < 57) { i = rg.below(na + 1); j = std::min(na, i + rg.below(6)); op = Op("eras", IV{i, j, d}); }
      else if (c < 60) op = Op("erak", IV{key, d});
      else if (c < 62) { if (rg.below(6)) continue; op = Op(rg.below(2) ? "clr" : "ulm", IV{d}); if (op.o == "ulm") op.g.clear(); }
      else if (c < 72) { int z = rg.below(7); if (z == 5) { if (key == key2) op = Op("lk", IV{5, key, key2, 1 + rg.below(3)}); else op = Op("lk", IV{5, key, key2, rg.below(4)}); } else op = Op("lk", IV{z, key}); }
      else if (c < 78) { op = Op("swap"); } else if (c < 79) op = Op("mva"); else if (c < 80) op = Op("mvc"); else if (c < 81) { if (rg.below(4)) continue; op = Op("dtor"); }
      else if (c < 82) { if (kind == TR) continue; op = Op("reb"); } else if (c < 84) { if (!na) continue; op = Op("rebs", IV{rg.below(na)}); }
      else if (c < 87) { if (!na) continue; if (rg.below(2)) op = Op("spu", IV{rg.below(na)}); else op = Op("spd", IV{key}); }
      else if (c < 89) { if (kind != SG) continue; static const int al[] = { 550, 600, 700, 800, 900, 950 }; op = Op("bf", IV{al[rg.below(6)]}); }
      else if (c < 91) { int e = 1 + rg.below(n); op = Op(rg.below(2) ? "unl" : "del", IV{e}); }
      else if (c < 94) { op = Op("swn", IV{1 + rg.below(n), 1 + rg.below(n)}); } else if (c < 95) op = Op("rel");
      else if (c < 97) { if (!na || pl.empty()) continue; int p = rg.below(na), e = pick(); if (keys[e-1] != el(va[p]).p.key) { continue; } if (kind == TR) el(e).p.prio = el(va[p]).p.prio; op = Op("rpn", IV{p, e}); }
      else if (c < 98) { if (!na) continue; op = Op("rmn", IV{rg.below(na)}); }
      else { clone(rg.below(3), rg.below(3) ? 0 : rg.below(na + 1), rg.below(2)); continue; }
      int thr = can_throw(op.o) && rg.below(6) == 0 ? 1 + rg.below(12) : 0;
      int v = rg.below(MAXV); for (int t = 0; t < MAXV; ++t) if (step(op, (v + t) % MAXV, thr)) break;
      if (dead) { R->a->clear(); R->b->clear(); va.clear(); vb.clear(); }
      if (va.size() + vb.size() > (size_t)n) break;
    }
    drop(); prios.clear();
  }
};
#endif
