// Conformance driver for list and slist (all layouts).  See spec/SeqOps.tla for the record format.
#ifndef VH_SEQ_HPP
#define VH_SEQ_HPP
#include "common.hpp"
#include <sstream>
#include <fstream>
#include <iostream>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <boost/move/utility_core.hpp>
namespace bi = boost::intrusive;
using namespace vh;

struct Payload { int id, key; Payload():id(0),key(0){} Payload(const Payload &o):id(o.id),key(o.key){ ++n_copy; } Payload &operator=(const Payload &o){ id=o.id; key=o.key; ++n_assign; return *this; } };
template<class VP> struct ByHook { typedef bi::list_member_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<VP> > type; };

#define VALUE_OPS(T) \
  friend bool operator<(const T &x, const T &y) { tick(n_cmp); return x.p.key < y.p.key; } \
  friend bool operator>(const T &x, const T &y) { tick(n_cmp); return x.p.key > y.p.key; } \
  friend bool operator==(const T &x, const T &y) { tick(n_eq); return x.p.key == y.p.key; }

#include "seq_cfg.hpp"

template<class Cfg> struct Seq {
  typedef typename Cfg::T T; typedef typename Cfg::C C; typedef typename Cfg::VP VP;
  typedef typename C::iterator It; typedef typename C::const_iterator CIt;
  typedef bi::list<T, bi::member_hook<T, typename ByHook<VP>::type, &T::by>, bi::constant_time_size<false> > ByList;
  enum { isl = Cfg::is_list, safe = Cfg::safe, autoun = Cfg::autoun, cs = Cfg::const_size, cl = Cfg::cache_last, lin = Cfg::linear };
  struct Region { C *a, *b, *c; ByList by; T *e; alignas(16) char ca[sizeof(C)], cb[sizeof(C)], cc[sizeof(C)]; };
  char *mem; size_t memlen; int N, SP; IV keys; Region *R;

  size_t need() const { return sizeof(Region) + 64 + sizeof(T) * (N + SP) ; }
  C *mkC(void *p) { return Cfg::make(p); }
  T &el(int i) { return R->e[i-1]; }   // physical ids 1..N(+SP)
  void build(int n, const IV &k, int spare) {
    N = n; SP = spare; keys = k; memlen = (need() + 4095) / 4096 * 4096;
    mem = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    memset(mem, POISON, memlen);
    R = new(mem) Region; place();
    for (int i = 1; i <= N + SP; ++i) { new(&el(i)) T; init(i); poison(el(i)); revive(el(i)); R->by.push_back(el(i)); }
    mkC(R->ca); mkC(R->cb); mkC(R->cc); va.clear(); vb.clear();
  }
  void place() { R->a = (C*)R->ca; R->b = (C*)R->cb; R->c = (C*)R->cc; size_t o = (sizeof(Region) + 63) / 64 * 64; R->e = (T*)(mem + o); }
  void init(int i) { el(i).p.id = i; el(i).p.key = i <= N ? keys[i-1] : 0; }
  void poison(T &t) { typedef typename Cfg::HookT H; H &h = Cfg::hook(t); if (!Cfg::keep_vptr) { h.~H(); } memset((void*)&h, POISON, sizeof(H)); }
  void revive(T &t) { if (safe) { typedef typename Cfg::HookT H; new((void*)&Cfg::hook(t)) H; } }
  void drop() { R->by.clear(); R->a->clear(); R->b->clear(); R->c->clear(); R->a->~C(); R->b->~C(); R->c->~C(); munmap(mem, memlen); }
  void relocate() {
    char *nm = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    memcpy(nm, mem, memlen); mprotect(mem, memlen, PROT_NONE); char *old = mem; mem = nm; R = (Region*)mem; place(); munmap(old, memlen);
  }

  IV va, vb;                         // observed contents (physical ids)
  int id(const T &t) const { const T *b = R->e; long k = &t - b; if (k < 0 || k >= N + SP || (const char*)&t != (const char*)(b + k)) return -9; return (int)k + 1; }
  It at(C &c, int i) { It it = c.begin(); while (i--) ++it; return it; }
  CIt cat(const C &c, int i) { CIt it = c.begin(); while (i--) ++it; return it; }
  It before(C &c, int i) { if constexpr (!isl) { It it = c.before_begin(); while (i--) ++it; return it; } else return at(c, i); }
  IV trav(const C &c) { IV r; size_t lim = N + SP + 2; for (CIt i = c.begin(), e = c.end(); i != e; ++i) { r.push_back(id(*i)); if (r.size() > lim) break; } return r; }

  // ---- disposers
  struct Disp { Seq *s; IV *log; int mode; bool *bad;
    template<class P> void operator()(P q) const {
      T &t = *q; int i = s->id(t); log->push_back(i);
      if constexpr (safe) if (Cfg::is_linked(t)) *bad = true;
      if (mode == 1) { s->poison(t); }
      else if (mode == 2) { if constexpr (isl || cl) s->R->c->push_back(t); else { CIt p = s->R->c->cbefore_begin(), n = p; ++n; while (n != s->R->c->cend()) { p = n; ++n; } s->R->c->insert_after(p, t); } }
    } };
  struct Less { bool rev; bool operator()(const T &x, const T &y) const { tick(n_cmp); return rev ? y.p.key < x.p.key : x.p.key < y.p.key; } };
  struct EqP { int m; bool operator()(const T &x, const T &y) const { tick(n_pred); return m == 0 ? x.p.key == y.p.key : x.p.key/2 == y.p.key/2; } };
  struct MaskP { Seq *s; const std::map<int,int> *sel; bool operator()(const T &x) const { tick(n_pred); std::map<int,int>::const_iterator f = sel->find(s->id(x)); return f != sel->end() && f->second; } };
  struct Boomer {};
  struct PIt { // input iterator over elements
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
    Seq *s; const int *q; T &operator*() const { return s->el(*q); } PIt &operator++() { ++q; return *this; } PIt operator++(int){ PIt t=*this; ++q; return t; }
    bool operator==(const PIt &o) const { return q == o.q; } bool operator!=(const PIt &o) const { return q != o.q; } };
  PIt pit(const int *q) { PIt i; i.s = this; i.q = q; return i; }

  // canonical numbering of the current operation
  std::map<int,int> can; IV order;
  void canon(const IV &args) { can.clear(); order.clear(); auto add = [&](int x) { if (!can.count(x)) { order.push_back(x); can[x] = (int)order.size(); } };
    for (int x : va) add(x); for (int x : vb) add(x); for (int x : args) add(x); }
  int cn(int x) { if (x <= 0) return x; auto f = can.find(x); return f == can.end() ? -8 : f->second; }
  IV cn(const IV &v) { IV r; for (int x : v) r.push_back(cn(x)); return r; }

  enum { R_NONE = -1, R_BB = -2 };
  int rid(C &c, CIt i) { if (i == c.cend()) return 0; if constexpr (!isl) if (i == c.cbefore_begin()) return R_BB; return id(*i); }

  // Executes `op` (semantic name, args, variant) on the live world; returns false if not applicable.
  // Args referring to elements are physical ids.
  struct Res { int r; IV d, cc; bool hasc; bool bad; int x; Res():r(R_NONE),hasc(false),bad(false),x(0){} };

  bool exec(const Op &op, int v, Res &res) {
    C &a = *R->a, &b = *R->b; const IV &g = op.g; const std::string &o = op.o; bool ok = true;
    auto D = [&](int m) { Disp d; d.s = this; d.log = &res.d; d.mode = m; d.bad = &res.bad; return d; };
    if (o == "ins") { int p = g[0]; T &t = el(g[1]);
      switch (v) {
        case 0: res.r = rid(a, a.insert(at(a, p), t)); break;
        case 1: if (p != 0) return false; a.push_front(t); break;
        case 2: if (p != (int)va.size()) return false; if constexpr (isl || cl) { a.push_back(t); break; } else return false;
        case 3: if constexpr (!isl) { res.r = rid(a, a.insert_after(before(a, p), t)); break; } else return false;
        case 4: if constexpr (!isl && !cs && !cl && !Cfg::st) { res.r = rid(a, C::s_insert_after(before(a, p), t)); break; } else return false;
        case 5: if constexpr (isl) { res.r = rid(a, a.insert(cat(a, p), t)); break; } else return false;
        default: return false; } }
    else if (o == "insr") { int p = g[0]; const int *q = &g[0] + 1, *e = &g[0] + g.size();
      switch (v) {
        case 0: a.insert(at(a, p), pit(q), pit(e)); break;
        case 1: if constexpr (!isl) { a.insert_after(before(a, p), pit(q), pit(e)); break; } else return false;
        default: return false; } }
    else if (o == "era") { int i = g[0], d = g[1];
      if (d == 0) switch (v) {
        case 0: res.r = rid(a, a.erase(at(a, i))); break;
        case 1: if (i != 0) return false; a.pop_front(); break;
        case 2: if constexpr (isl) { if (i + 1 != (int)va.size()) return false; a.pop_back(); break; } else { res.r = rid(a, a.erase_after(before(a, i))); break; }
        case 3: if constexpr (!isl && !cs && !cl && !Cfg::st) { res.r = rid(a, C::s_erase_after(before(a, i))); break; } else return false;
        default: return false; }
      else switch (v) {
        case 0: res.r = rid(a, a.erase_and_dispose(at(a, i), D(d))); break;
        case 1: res.r = rid(a, a.erase_and_dispose(cat(a, i), D(d))); break;
        case 2: if (i != 0) return false; a.pop_front_and_dispose(D(d)); break;
        case 3: if constexpr (isl) { if (i + 1 != (int)va.size()) return false; a.pop_back_and_dispose(D(d)); break; } else { res.r = rid(a, a.erase_after_and_dispose(before(a, i), D(d))); break; }
        case 4: if constexpr (!isl && !cs && !cl && !Cfg::st) { res.r = rid(a, C::s_erase_after_and_dispose(before(a, i), D(d))); break; } else return false;
        default: return false; } }
    else if (o == "eras") { int i = g[0], j = g[1], d = g[2];
      if (d == 0) switch (v) {
        case 0: res.r = rid(a, a.erase(at(a, i), at(a, j))); break;
        case 1: res.r = rid(a, a.erase(at(a, i), at(a, j), j - i)); break;
        case 2: if constexpr (!isl) { res.r = rid(a, a.erase_after(before(a, i), at(a, j))); break; } else return false;
        case 3: if constexpr (!isl) { res.r = rid(a, a.erase_after(before(a, i), at(a, j), j - i)); break; } else return false;
        default: return false; }
      else switch (v) {
        case 0: res.r = rid(a, a.erase_and_dispose(at(a, i), at(a, j), D(d))); break;
        case 1: if constexpr (!isl) { res.r = rid(a, a.erase_after_and_dispose(before(a, i), at(a, j), D(d))); break; } else return false;
        case 2: if constexpr (!isl && !cs && !cl && !Cfg::st) { res.r = rid(a, C::s_erase_after_and_dispose(before(a, i), at(a, j), D(d))); break; } else return false;
        default: return false; } }
    else if (o == "clr") { int d = g[0]; if (v) return false; if (d == 0) a.clear(); else a.clear_and_dispose(D(d)); }
    else if (o == "asg") { int d = g[0]; if (v) return false; const int *q = &g[0] + 1, *e = &g[0] + g.size(); if (d == 0) a.assign(pit(q), pit(e)); else a.dispose_and_assign(D(d), pit(q), pit(e)); }
    else if (o == "spl") { int p = g[0], i = g[1], j = g[2]; int nb = (int)vb.size(); CIt l;
      switch (v) {
        case 0: if (i != 0 || j != nb) return false; a.splice(at(a, p), b); break;
        case 1: if (j != i + 1) return false; a.splice(at(a, p), b, at(b, i)); break;
        case 2: a.splice(at(a, p), b, at(b, i), at(b, j)); break;
        case 3: a.splice(at(a, p), b, at(b, i), at(b, j), j - i); break;
        case 4: if constexpr (!isl) { if (i != 0 || j != nb) return false; a.splice(at(a, p), b, &l); res.r = l == a.cbefore_begin() ? (int)R_BB : rid(a, l); break; } else return false;
        case 5: if constexpr (!isl) { if (i != 0 || j != nb) return false; a.splice_after(before(a, p), b, &l); res.r = l == a.cbefore_begin() ? (int)R_BB : rid(a, l); break; } else return false;
        case 6: if constexpr (!isl) { if (i != 0 || j != nb) return false; a.splice_after(before(a, p), b); break; } else return false;
        case 7: if constexpr (!isl) { if (j != i + 1) return false; a.splice_after(before(a, p), b, before(b, i)); break; } else return false;
        case 8: if constexpr (!isl) { if (j == i) return false; a.splice_after(before(a, p), b, before(b, i), before(b, j)); break; } else return false;
        case 9: if constexpr (!isl) { if (j == i) return false; a.splice_after(before(a, p), b, before(b, i), before(b, j), j - i); break; } else return false;
        case 10: if constexpr (!isl && !safe) { if (j == i) return false;   // take [i,j) out of b as a raw node range, then incorporate it
            typename C::node_ptr f = at(b, i).pointed_node(), bl = before(b, j).pointed_node(); b.erase_after(before(b, i), at(b, j));
            a.incorporate_after(before(a, p), f, bl, j - i); break; } else return false;
        default: return false; } }
    else if (o == "sspl") { int p = g[0], i = g[1], j = g[2];
      switch (v) {
        case 0: a.splice(at(a, p), a, at(a, i), at(a, j)); break;
        case 1: a.splice(at(a, p), a, at(a, i), at(a, j), j - i); break;
        case 2: if (j != i + 1) return false; a.splice(at(a, p), a, at(a, i)); break;
        case 3: if constexpr (!isl) { if (j == i) return false; a.splice_after(before(a, p), a, before(a, i), before(a, j)); break; } else return false;
        case 4: if constexpr (!isl) { if (j == i) return false; a.splice_after(before(a, p), a, before(a, i), before(a, j), j - i); break; } else return false;
        case 5: if constexpr (!isl) { if (j != i + 1) return false; a.splice_after(before(a, p), a, before(a, i)); break; } else return false;
        default: return false; } }
    else if (o == "merge") { int c = g[0]; CIt l;
      switch (v) {
        case 0: if (c) return false; a.merge(b); break;
        case 1: { Less q; q.rev = c; a.merge(b, q); break; }
        case 2: if constexpr (!isl) { Less q; q.rev = c; a.merge(b, q, &l); res.r = rid(a, l); break; } else return false;
        default: return false; } }
    else if (o == "sort") { int c = g[0];
      switch (v) { case 0: if (c) return false; a.sort(); break; case 1: { Less q; q.rev = c; a.sort(q); break; } default: return false; } }
    else if (o == "rev") { if (v) return false; a.reverse(); }
    else if (o == "shf") { if (v == 0) a.shift_forward(g[0]); else if (v == 1 && g[0] == 1) a.shift_forward(); else return false; }
    else if (o == "shb") { if (v == 0) a.shift_backwards(g[0]); else if (v == 1 && g[0] == 1) a.shift_backwards(); else return false; }
    else if (o == "unq") { int d = g[0], m = g[1]; EqP q; q.m = m;
      if (d == 0) { if (v == 0 && m == 0) a.unique(); else if (v == 1) a.unique(q); else return false; }
      else { if (v == 0) a.unique_and_dispose(q, D(d)); else if (v == 1 && m == 0) { if constexpr (Cfg::uad) a.unique_and_dispose(D(d)); else return false; } else return false; } }
    else if (o == "rmv") { int k = g[0], d = g[1];
      if (v == 0) { T x; x.p.key = k; if (d == 0) a.remove(x); else a.remove_and_dispose(x, D(d)); }
      else if (v == 1) { if (d) return false; T *x = 0; for (It i = a.begin(); i != a.end(); ++i) if (i->p.key == k) { x = &*i; break; } if (!x) return false; a.remove(*x); }
      else return false; }
    else if (o == "rmi") { int d = g[g.size()-1]; if (v) return false; std::map<int,int> sel; for (size_t i = 0; i + 1 < g.size(); ++i) sel[va[i]] = g[i]; MaskP q; q.s = this; q.sel = &sel;
      if (d == 0) a.remove_if(q); else a.remove_and_dispose_if(q, D(d)); }
    else if (o == "swap") { if (v == 0) a.swap(b); else if (v == 1) swap(a, b); else if (v == 2) b.swap(a); else return false; }
    else if (o == "mva") { if (v == 0) a = boost::move(b); else return false; }
    else if (o == "mvc") { if (v) return false; C t(boost::move(a)); res.hasc = true; res.cc = trav(t); obs_ext(t, res.cc); IV em = trav(a); if (!em.empty()) res.bad = true; obs_ext(a, em); t.swap(a); }
    else if (o == "ctr") { if (v) return false; const int *q = g.data(), *e = g.data() + g.size(); { C t(Cfg::template range<C>(pit(q), pit(e))); res.hasc = true; res.cc = trav(t); obs_ext(t, res.cc); t.clear(); } }
    else if (o == "dtor") { if (v) return false; alignas(C) char m[sizeof(C)]; C *t = mkC(m); t->swap(a); t->~C(); }
    else if (o == "unl") { if constexpr (autoun) { if (v == 0) Cfg::hook(el(g[0])).unlink(); else return false; } else return false; }
    else if (o == "del") { if constexpr (autoun) { if (v) return false; typedef typename Cfg::HookT H; H &h = Cfg::hook(el(g[0])); h.~H(); memset((void*)&h, POISON, sizeof h); new((void*)&h) H; } else return false; }
    else if (o == "cpy") { // copy-construct / assign objects: never links or unlinks
      if constexpr (Cfg::hookcopy) { typedef typename Cfg::HookT H; if (v == 0) { H h2(Cfg::hook(el(g[0]))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else if (v == 1) Cfg::hook(el(g[0])) = Cfg::hook(el(g[1])); else if (v == 2) { H h2(boost::move(Cfg::hook(el(g[0])))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else return false; } else return false; }
    else if (o == "swn") { if constexpr (Cfg::swapnodes) { if (v) return false; if (!safe) for (int z = 0; z < 2; ++z) if (std::find(va.begin(), va.end(), g[z]) == va.end() && std::find(vb.begin(), vb.end(), g[z]) == vb.end()) return false; Cfg::hook(el(g[0])).swap_nodes(Cfg::hook(el(g[1]))); } else return false; }
    else if (o == "rel") { if constexpr (Cfg::reloc) { if (v) return false; relocate(); } else return false; }
    else ok = false;
    return ok;
  }
  // functor index at which to throw is passed via throw_at by the caller
  static bool is_elem_arg(const std::string &o, size_t i) {
    return (o == "ins" && i == 1) || (o == "insr" && i >= 1) || (o == "asg" && i >= 1) || o == "ctr" || o == "unl" || o == "del" || o == "cpy" || o == "swn"; }

  std::string cfgname; long steps;
  // observation of a container against its forward traversal; every id is a position in it
  void obs_ext(C &c, const IV &fw) { obs(c, fw, 'x'); }
  std::string src_prefix;
  void obs(C &c, const IV &fw, char which) {
    if (!on('S')) return;
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) if (!pos.count(fw[i])) pos[fw[i]] = (int)i + 1;
    auto ps = [&](const T &t) { int x = id(t); auto f = pos.find(x); return f == pos.end() ? -9 : f->second; };
    const C &k = c; long lim = N + SP + 2; int n = (int)fw.size();
    long al0 = n_alloc; (void)al0;
    J j; j.t("t", "S").i("list", isl).i("cs", cs).i("n", n);
    IV f, cf; { long q = 0; for (It i = c.begin(); i != c.end() && q < lim; ++i, ++q) f.push_back(ps(*i)); q = 0; for (CIt i = k.cbegin(); i != k.cend() && q < lim; ++i, ++q) cf.push_back(ps(*i)); }
    j.v("fw", f).v("cf", cf);
    IV rv, crv, bw; if constexpr (isl) { long q = 0; for (typename C::reverse_iterator i = c.rbegin(); i != c.rend() && q < lim; ++i, ++q) rv.push_back(ps(*i));
      q = 0; for (typename C::const_reverse_iterator i = k.rbegin(); i != k.crend() && q < lim; ++i, ++q) crv.push_back(ps(*i));
      q = 0; for (CIt i = k.end(); i != k.begin() && q < lim; ++q) { --i; bw.push_back(ps(*i)); } }
    j.v("rv", rv).v("cr", crv).v("bw", bw);
    j.i("sz", (int)k.size()).i("em", k.empty());
    int fr = -1, bk = -1, cfr = -1, cbk = -1, lt = -1;
    if (n) { fr = ps(c.front()); cfr = ps(k.front()); if constexpr (isl || cl) { bk = ps(c.back()); cbk = ps(k.back()); } }
    if constexpr (!isl && cl) { CIt l1 = c.last(), l2 = k.last(), l3 = k.clast(); lt = n ? ps(*l1) : (l1 == k.cbefore_begin() ? 0 : -9); if (l1 != l2 || l2 != l3) lt = -9; }
    j.i("fr", fr).i("cfr", cfr).i("bk", bk).i("cbk", cbk).i("lt", lt);
    IV to, ct, st, pv; for (int x : fw) { if (x < 1 || x > N + SP) { to.push_back(-9); ct.push_back(-9); continue; } T &t = el(x); const T &kt = t; 
      It i = c.iterator_to(t); int s1 = ps(*i); It i2 = i++; if (!(i2 == c.iterator_to(t)) || ps(*asg(i2)) != ps(t)) s1 = -9; to.push_back(i == c.end() ? 0 : ps(*i)); if (s1 != (int)to.size()) to.back() = -7;
      CIt q = k.iterator_to(kt); ct.push_back(q != CIt(i2) || ps(*asg(q)) != ps(t) ? -7 : ps(*q));
      if constexpr (Cfg::s_to) { It q2 = C::s_iterator_to(t); CIt q3 = C::s_iterator_to(kt); st.push_back(q2 != i2 || q3 != q ? -7 : ps(*q2)); }
      if constexpr (!isl) { CIt p1 = c.previous(i2), p2 = k.previous(q), p3 = c.previous(c.cbefore_begin(), i2), p4 = k.previous(k.cbefore_begin(), q); int r = p1 == k.cbefore_begin() ? 0 : ps(*p1); if (p1 != p2 || p2 != p3 || p3 != p4) r = -7; pv.push_back(r); } }
    if constexpr (!isl) { CIt p1 = c.previous(c.end()), p2 = k.previous(k.end()); int r = p1 == k.cbefore_begin() ? 0 : ps(*p1); if (p1 != p2) r = -7; pv.push_back(r); }
    j.v("to", to).v("ct", ct).v("st", st).v("pv", pv);
    int ce = -1; if constexpr (Cfg::cfe) { ce = (&C::container_from_end_iterator(c.end()) == &c) && (&C::container_from_end_iterator(k.end()) == &c) ; }
    It v1 = It(), v2 = It(); CIt v3 = CIt(), v4 = CIt(); j.i("ce", ce).i("vi", v1 == v2 && v3 == v4 && !(v1 != v2));
    k.check();
    out.rec(j.str(), src_prefix + " obs " + which);
  }
  void links() { // link flags + bystander
    if constexpr (safe) { std::map<int,int> in; for (int x : va) in[x] = 1; for (int x : vb) in[x] = 1; int ml = 0, pl = 0, pool = 0; for (int i = 1; i <= N + SP; ++i) { bool l = Cfg::is_linked(el(i)); if (in.count(i)) ml += l; else { ++pool; pl += l; } }
      int ne = 0; if (lin) ne = !va.empty() + !vb.empty(); J j; j.t("t", "L").i("m", (int)in.size()).i("ml", ml).i("pl", pl).i("ne", ne); out.rec(j.str(), src_prefix + " linked"); }
    IV f, r; int lim = N + SP + 2; bool lk = true; for (typename ByList::iterator i = R->by.begin(); i != R->by.end() && lim--; ++i) { f.push_back(id(*i)); lk = lk && i->by.is_linked(); }
    lim = N + SP + 2; for (typename ByList::reverse_iterator i = R->by.rbegin(); i != R->by.rend() && lim--; ++i) r.push_back(id(*i));
    J j; j.t("t", "B").i("n", N + SP).v("f", f).v("r", r).i("lk", lk); out.rec(j.str(), src_prefix + " bystander");
  }
  void rel_ops() {
    const C &a = *R->a, &b = *R->b; IV ka, kb; for (int x : va) ka.push_back(el(x).p.key); for (int x : vb) kb.push_back(el(x).p.key);
    IV r; r.push_back(a == b); r.push_back(a != b); r.push_back(a < b); r.push_back(a > b); r.push_back(a <= b); r.push_back(a >= b); r.push_back(b == a); r.push_back(a == a); r.push_back(b < a);
    J j; j.t("t", "C").v("ka", ka).v("kb", kb).v("r", r); out.rec(j.str(), src_prefix + " compare");
  }
  void observe_all() {
    mprotect(mem, memlen, PROT_READ); in_const = 1;
    if (on('S')) { obs(*R->a, va, 'a'); obs(*R->b, vb, 'b'); } if (on('C') && va.size() + vb.size() < 24) rel_ops(); if (on('L')) links();
    in_const = 0; mprotect(mem, memlen, PROT_READ|PROT_WRITE);
  }

  // executes op on the live world and records the transition; false when not applicable
  bool step(const Op &op, int v, int thr = 0) {
    IV args; Op cop = op; for (size_t i = 0; i < op.g.size(); ++i) if (is_elem_arg(op.o, i)) args.push_back(op.g[i]);
    canon(args); for (size_t i = 0; i < op.g.size(); ++i) if (is_elem_arg(op.o, i)) cop.g[i] = can[op.g[i]];
    IV k; for (int x : order) k.push_back(el(x).p.key);
    J j; j.t("t", "E").t("o", op.o).v("g", cop.g).v("k", k).i("na", (int)va.size()).i("nb", (int)vb.size()).i("th", thr).i("nrm", !safe && !autoun).i("dp", autoun);
    std::string src = src_prefix + show(op) + " v" + std::to_string(v) + (thr ? " throw" + std::to_string(thr) : "");
    set_pending(j.s + "\t" + src);
    std::vector<It> ia; for (size_t i = 0; i < va.size(); ++i) ia.push_back(at(*R->a, (int)i)); std::vector<It> ib; for (size_t i = 0; i < vb.size(); ++i) ib.push_back(at(*R->b, (int)i));
    It ea = R->a->end();
    std::string sp = src_prefix; src_prefix = src + " ;";
    Res res; bool ok; long al = n_alloc, cp = n_copy, as = n_assign;
    long al2 = al;
    if (thr) { throw_at = thr; try { ok = exec(op, v, res); } catch (Boom &) { ok = true; res.x = 1; } throw_at = 0; }
    else { ok = exec(op, v, res); }
    al2 = n_alloc;
    src_prefix = sp;
    if (!ok) { clear_pending(); return false; }
    out.executed++; out.opcount[op.o + "/" + std::to_string(v)]++;
    IV pa = va, pb = vb; va = trav(*R->a); vb = trav(*R->b); IV vc = trav(*R->c);
    if (!vc.empty()) { R->c->clear(); if (!res.hasc) { res.cc = vc; res.hasc = true; } }
    j.v("a", cn(va)).v("b", cn(vb)).i("r", cn(res.r)).v("d", cn(res.d)).v("c", cn(res.cc)).i("bad", res.bad).i("x", res.x).i("cp", (int)(n_copy - cp + n_assign - as));
    (void)al; (void)al2;
    // saved iterators of surviving elements: element designated and successor
    IV it; std::map<int,int> alive; for (int x : va) alive[x] = 1; for (int x : vb) alive[x] = 2;
    if (op.o != "rel") {
      for (int w = 0; w < 2; ++w) { const IV &pp = w ? pb : pa; std::vector<It> &ii = w ? ib : ia; for (size_t i = 0; i < pp.size(); ++i) { if (!alive.count(pp[i])) { it.push_back(-1); continue; } It q = ii[i]; if (id(*q) != pp[i]) { it.push_back(-7); continue; } ++q; C &own = alive[pp[i]] == 1 ? *R->a : *R->b; it.push_back(q == own.end() ? 0 : cn(id(*q))); } }
      j.i("ee", ea == R->a->end());
    } else { for (size_t i = 0; i < pa.size() + pb.size(); ++i) it.push_back(-1); j.i("ee", 1); }
    j.v("i", it);
    // elements that left: check link state before poisoning
    if constexpr (safe) { int lk = 0; for (int x : order) if (!alive.count(x) && !(std::find(res.d.begin(), res.d.end(), x) != res.d.end())) lk += Cfg::is_linked(el(x)); j.i("lk", lk); } else j.i("lk", 0);
    for (int x : order) if (!alive.count(x)) { if (std::find(res.d.begin(), res.d.end(), x) != res.d.end() && !safe) {} if (!safe) { memset((void*)&Cfg::hook(el(x)), POISON, sizeof(typename Cfg::HookT)); } else if (std::find(res.d.begin(), res.d.end(), x) != res.d.end()) revive(el(x)); }
    out.rec(j.str(), src);
    src_prefix = src + " ;"; observe_all(); src_prefix = sp;
    clear_pending();
    if (va.size() > size_t(N) || vb.size() > size_t(N)) return true;
    return true;
  }

  // clone_from probe
  struct Cloner { Seq *s; IV *of; int *next; T *operator()(const T &t) const { tick(n_pred); int n = (*next)++; s->el(n).p.key = t.p.key; of->push_back(s->id(t)); return &s->el(n); } };
  struct NCloner { Seq *s; IV *of; int *next; T *operator()(T &t) const { tick(n_pred); int n = (*next)++; s->el(n).p.key = t.p.key; of->push_back(s->id(t)); return &s->el(n); } };
  void clone(int pre, int thr, int rv) {   // a is the source; c is prefilled with `pre` pool elements
    IV pool; for (int i = 1; i <= N; ++i) if (std::find(va.begin(), va.end(), i) == va.end() && std::find(vb.begin(), vb.end(), i) == vb.end()) pool.push_back(i);
    if ((int)pool.size() < pre || (int)va.size() > SP) return; pool.resize(pre);
    C &t = *R->c; canon(pool); for (int i = 0; i < (int)va.size(); ++i) { order.push_back(N + 1 + i); can[N+1+i] = (int)order.size(); }
    for (int i = pre; i-- > 0;) t.push_front(el(pool[i]));
    J j; j.t("t", "K").i("na", (int)va.size()).i("nb", (int)vb.size()).i("q", pre).i("th", thr).i("rv", rv);
    std::string src = src_prefix + "clone prefill=" + std::to_string(pre) + " throw=" + std::to_string(thr) + (rv ? " rvalue" : ""); set_pending(j.s + "\t" + src);
    IV of, d; int next = N + 1; bool bad = false; int x = 0; Disp ds; ds.s = this; ds.log = &d; ds.mode = 1; ds.bad = &bad;
    throw_at = thr;
    try { if (rv) { if constexpr (Cfg::rvclone) { NCloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(boost::move(*R->a), c, ds); } } else { Cloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(*R->a, c, ds); } } catch (Boom &) { x = 1; }
    throw_at = 0;
    IV tv = trav(t); std::string sp = src_prefix; src_prefix = src + " ;"; obs(t, tv, 'c'); src_prefix = sp;
    IV sv = trav(*R->a);
    int lk = 0; if constexpr (safe) for (int i = 1; i <= N + SP; ++i) if (std::find(d.begin(), d.end(), i) == d.end() && std::find(tv.begin(), tv.end(), i) == tv.end() && std::find(va.begin(), va.end(), i) == va.end() && std::find(vb.begin(), vb.end(), i) == vb.end()) lk += Cfg::is_linked(el(i));
    j.v("a", cn(sv)).v("c", cn(tv)).v("of", cn(of)).v("d", cn(d)).i("bad", bad).i("x", x).i("lk", lk);
    out.rec(j.str(), src); out.executed++; out.opcount[rv ? "clone/rv" : "clone"]++;
    // clean up
    { It i = t.begin(); t.clear(); (void)i; }
    for (int i = 1; i <= N + SP; ++i) if (std::find(va.begin(), va.end(), i) == va.end() && std::find(vb.begin(), vb.end(), i) == vb.end()) { if constexpr (safe) { if (std::find(d.begin(), d.end(), i) != d.end()) revive(el(i)); } else memset((void*)&Cfg::hook(el(i)), POISON, sizeof(typename Cfg::HookT)); }
    src_prefix = src + " ;"; observe_all(); src_prefix = sp; clear_pending();
  }

  // ---------------------------------------------------------------- enumeration
  bool sorted(const IV &v, bool rev) { for (size_t i = 1; i < v.size(); ++i) { int x = el(v[i-1]).p.key, y = el(v[i]).p.key; if (rev ? x < y : y < x) return false; } return true; }
  IV pool() { IV r; for (int i = 1; i <= N; ++i) if (std::find(va.begin(), va.end(), i) == va.end() && std::find(vb.begin(), vb.end(), i) == vb.end()) r.push_back(i); return r; }
  void all_ops(std::vector<Op> &o, bool full) {
    int na = (int)va.size(), nb = (int)vb.size(); IV pl = pool();
    // one pool element per key suffices
    IV pe; for (int x : pl) { bool dup = false; for (int y : pe) dup |= keys[y-1] == keys[x-1]; if (!dup) pe.push_back(x); }
    for (int p = 0; p <= na; ++p) { for (int e : pe) o.push_back(Op("ins", IV{p, e})); o.push_back(Op("insr", IV{p})); if (pl.size() >= 1) o.push_back(Op("insr", IV{p, pl[0]})); if (pl.size() >= 2) o.push_back(Op("insr", IV{p, pl[0], pl[1]})); }
    for (int d = 0; d < 3; ++d) {
      for (int i = 0; i < na; ++i) o.push_back(Op("era", IV{i, d}));
      for (int i = 0; i <= na; ++i) for (int j = i; j <= na; ++j) o.push_back(Op("eras", IV{i, j, d}));
      o.push_back(Op("clr", IV{d})); o.push_back(Op("asg", IV{d})); if (pl.size() >= 1) o.push_back(Op("asg", IV{d, pl[0]})); if (pl.size() >= 2) o.push_back(Op("asg", IV{d, pl[1], pl[0]}));
      for (int m = 0; m < 2; ++m) o.push_back(Op("unq", IV{d, m}));
      for (int k = 1; k <= 3; ++k) o.push_back(Op("rmv", IV{k, d}));
      if (na <= 5) for (int m = 0; m < (1 << na); ++m) { IV g; for (int i = 0; i < na; ++i) g.push_back(m >> i & 1); g.push_back(d); o.push_back(Op("rmi", g)); }
    }
    for (int p = 0; p <= na; ++p) for (int i = 0; i <= nb; ++i) for (int j = i; j <= nb; ++j) o.push_back(Op("spl", IV{p, i, j}));
    for (int p = 0; p <= na; ++p) for (int i = 0; i <= na; ++i) for (int j = i; j <= na; ++j) if (p <= i || p >= j) o.push_back(Op("sspl", IV{p, i, j}));
    for (int c = 0; c < 2; ++c) { if (sorted(va, c) && sorted(vb, c)) o.push_back(Op("merge", IV{c})); o.push_back(Op("sort", IV{c})); }
    o.push_back(Op("rev")); for (int n = 0; n <= 2 * na + 1; ++n) { o.push_back(Op("shf", IV{n})); o.push_back(Op("shb", IV{n})); }
    o.push_back(Op("swap")); o.push_back(Op("mva")); o.push_back(Op("mvc")); o.push_back(Op("dtor")); o.push_back(Op("ctr", pl.size() > 2 ? IV(pl.begin(), pl.begin() + 2) : pl)); o.push_back(Op("rel"));
    IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); if (!pl.empty()) all.push_back(pl[0]);
    for (int x : all) { o.push_back(Op("unl", IV{x})); o.push_back(Op("del", IV{x})); for (int y : all) { o.push_back(Op("swn", IV{x, y})); o.push_back(Op("cpy", IV{x, y})); } }
    (void)full;
  }
  static bool can_throw(const std::string &o) { return with_throws && ( o == "merge" || o == "sort" || o == "unq" || o == "rmv" || o == "rmi"); }
  enum { MAXV = 11 };
  struct Rec { Op op; int v, thr; };
  std::string state_key() { std::string s; for (int x : va) { put(s, el(x).p.key); s += ','; } s += '|'; for (int x : vb) { put(s, el(x).p.key); s += ','; } return s; }
  static std::string show_path(const std::vector<Rec> &p) { std::string s; for (const Rec &r : p) { s += show(r.op) + " v" + std::to_string(r.v) + (r.thr ? " throw" + std::to_string(r.thr) : "") + " ; "; } return s; }
  void replay_path(const std::vector<Rec> &p) { for (const Rec &r : p) { Res res; throw_at = r.thr; try { exec(r.op, r.v, res); } catch (Boom &) {} throw_at = 0; va = trav(*R->a); vb = trav(*R->b); fix(res); R->c->clear(); } }
  void fix(const Res &res) { for (int i = 1; i <= N; ++i) if (std::find(va.begin(), va.end(), i) == va.end() && std::find(vb.begin(), vb.end(), i) == vb.end()) { if (!safe) memset((void*)&Cfg::hook(el(i)), POISON, sizeof(typename Cfg::HookT)); else if (std::find(res.d.begin(), res.d.end(), i) != res.d.end()) { typedef typename Cfg::HookT H; revive(el(i)); } } }

  // ---- misuse: every insertion of an element that is already linked (or not, as a control), and its destruction
  void misuse() {
    IV pl = pool(); IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); for (size_t i = 0; i < pl.size() && i < 1; ++i) all.push_back(pl[i]);
    int md = autoun ? 2 : safe ? 1 : 0; std::vector<char> done;
    auto rec = [&](const char *o, int v, int w, int lc, int u, char c, const std::string &what) { if (c == 'A') return; out.executed++; J j; j.t("t", "X").t("o", o).i("v", v).i("m", md).i("w", w).i("lc", lc).i("u", u).t("c", std::string(1, c)); out.rec(j.str(), src_prefix + what); };
    for (int x : all) { int w = in_(va, x) ? 1 : in_(vb, x) ? 2 : 0, lc = last_of_chain(x);
      rec("destroy", 0, w, lc, 0, probe([&] { typename Cfg::HookT &h = Cfg::hook(el(x)); typedef typename Cfg::HookT H; h.~H(); return true; }), " destroy element " + std::to_string(x));
      if (w && !md) continue;
      std::vector<Op> ops; misuse_ops(ops, x, w, pl);
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, w, lc, uniq(op, x), probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert linked: " + show(op) + " v" + std::to_string(v));
      if (w == 0 && md) { std::vector<Op> dup; duplicate_ops(dup, x); for (const Op &op : dup) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, 3, lin && op.o != "insr" ? 1 : lin && op.g[0] == (int)va.size(), uniq(op, x) || op.o == "inur", probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert twice: " + show(op) + " v" + std::to_string(v)); }
      if (w) rec("clone", 0, w, lc, 0, probe([&] { C &t = *R->c; IV d; bool bad = false; Disp ds; ds.s = this; ds.log = &d; ds.mode = 0; ds.bad = &bad; if (va.empty()) return false; t.clone_from(*R->a, [&](const T &) { return &el(x); }, ds); return true; }), " cloner returns linked element " + std::to_string(x));
    }
  }
  bool in_(const IV &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  int last_of_chain(int x) { return lin && ((!va.empty() && va.back() == x) || (!vb.empty() && vb.back() == x)); }
  int uniq(const Op &, int) { return 0; }
  void misuse_ops(std::vector<Op> &o, int x, int w, const IV &pl) { int na = (int)va.size(); IV more; for (int y : pl) if (y != x) more.push_back(y);
    for (int p = 0; p <= na; ++p) { o.push_back(Op("ins", IV{p, x})); o.push_back(Op("insr", IV{p, x})); if (!more.empty()) { o.push_back(Op("insr", IV{p, more[0], x})); o.push_back(Op("insr", IV{p, x, more[0]})); } }
    o.push_back(Op("ctr", IV{x})); if (!more.empty()) o.push_back(Op("ctr", IV{more[0], x})); if (w != 1) { o.push_back(Op("asg", IV{0, x})); if (!more.empty()) o.push_back(Op("asg", IV{0, more[0], x})); } }
  void duplicate_ops(std::vector<Op> &o, int x) { for (int p = 0; p <= (int)va.size(); ++p) o.push_back(Op("insr", IV{p, x, x})); o.push_back(Op("ctr", IV{x, x})); o.push_back(Op("asg", IV{0, x, x})); }

  void bfs(int n, const IV &k, long maxstates) {
    std::vector<std::vector<Rec> > q; std::unordered_set<std::string> seen; q.push_back(std::vector<Rec>()); seen.insert("|");
    build(n, k, n); src_prefix = "init ;"; set_pending("{\"t\":\"I\"\tinit"); observe_all(); clear_pending(); drop();
    for (size_t h = 0; h < q.size() && (long)h < maxstates; ++h) {
      std::vector<Rec> path = q[h]; std::vector<Op> ops; std::string pfx = show_path(path);
      build(n, k, n); replay_path(path); all_ops(ops, true); int na = (int)va.size();
      src_prefix = pfx; if (asked('X')) misuse();
      src_prefix = pfx;
      for (int pre = 0; pre <= 2; ++pre) for (int thr = 0; thr <= (with_throws ? na : 0); ++thr) if (on('K')) { clone(pre, thr, 0); if constexpr (Cfg::rvclone) clone(pre, thr, 1); }
      bool fresh = true; 
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) for (int thr = 0; thr < (can_throw(op.o) ? 14 : 1); ++thr) {
        if (!fresh) { drop(); build(n, k, n); replay_path(path); fresh = true; }
        src_prefix = pfx; long c0 = n_cmp + n_pred + n_eq;
        bool ok = step(op, v, thr); if (!ok) break; fresh = false;
        std::string sk = state_key(); if (seen.insert(sk).second && va.size() <= (size_t)n && vb.size() <= (size_t)n) { std::vector<Rec> np = path; Rec r; r.op = op; r.v = v; r.thr = thr; np.push_back(r); q.push_back(np); }
        if (thr && n_cmp + n_pred + n_eq - c0 < thr) break;   // no functor call left to throw from
      }
      drop();
    }
    fprintf(stderr, "states %zu\n", q.size());
  }
  // one behaviour per line: "op args [vN] [throwN] ; op ..." (element arguments are object numbers)
  void script(const IV &k, std::istream &in) {
    std::string line; long ln = 0; while (std::getline(in, line)) { ++ln; build((int)k.size(), k, (int)k.size()); std::string done = "";
      std::istringstream ls(line); std::string seg; while (std::getline(ls, seg, ';')) { std::istringstream ss(seg); std::string w; Op op; int v = -1, thr = 0; if (!(ss >> op.o)) continue; 
        while (ss >> w) { if (w[0] == 'v') v = atoi(w.c_str() + 1); else if (w[0] == 't') thr = atoi(w.c_str() + 5); else op.g.push_back(atoi(w.c_str())); }
        src_prefix = done; bool ok = false; int used = v;
        if (v >= 0) ok = step(op, v, thr); else for (int t = 0; t < MAXV && !ok; ++t) { used = (int)((ln * 7 + out.executed + t) % MAXV); ok = step(op, used, thr); }
        done += show(op) + " v" + std::to_string(used) + (thr ? " throw" + std::to_string(thr) : "") + " ; "; }
      drop(); } }
  void random(int n, int nk, unsigned seed, long budget) {
    Rng rg(seed); IV k; for (int i = 0; i < n; ++i) k.push_back(1 + rg.below(nk)); build(n, k, n); std::string hist;
    src_prefix = "random seed=" + std::to_string(seed) + " n=" + std::to_string(n) + " step=";
    std::string base = src_prefix;
    for (long s = 0; s < budget; ++s) {
      src_prefix = base + std::to_string(s) + " : "; if (asked('X') && s % 50 == 49) misuse();
      int na = (int)va.size(), nb = (int)vb.size(); IV pl = pool(); Op op; int c = rg.below(100); int d = rg.below(3);
      auto el1 = [&]() { return pl.empty() ? 0 : pl[rg.below((int)pl.size())]; };
      auto rng2 = [&](int m, int &i, int &j) { i = rg.below(m + 1); j = rg.below(m + 1); if (i > j) std::swap(i, j); };
      int i, j;
      if (c < 24) { if (pl.empty()) continue; op = Op("ins", IV{rg.below(3) ? rg.below(na + 1) : rg.below(2) * na, el1()}); }
      else if (c < 34) { IV g{rg.below(na + 1)}; int m = rg.below(std::min(7, (int)pl.size() + 1)); for (int z = 0; z < m; ++z) g.push_back(pl[z]); op = Op("insr", g); }
      else if (c < 42) { if (!na) continue; op = Op("era", IV{rg.below(3) ? rg.below(na) : rg.below(2) * (na - 1), d}); }
      else if (c < 46) { rng2(na, i, j); if (j - i > 5) j = i + rg.below(5); op = Op("eras", IV{i, j, d}); }
      else if (c < 54) { rng2(nb, i, j); if (rg.below(4) == 0) { i = 0; j = nb; } op = Op("spl", IV{rg.below(na + 1), i, j}); }
      else if (c < 58) { rng2(na, i, j); int p = rg.below(na + 1); if (p > i && p < j) continue; op = Op("sspl", IV{p, i, j}); }
      else if (c < 62) { int z = rg.below(2); if (!(sorted(va, z) && sorted(vb, z))) op = Op("sort", IV{z}); else op = Op("merge", IV{z}); }
      else if (c < 67) op = Op("sort", IV{rg.below(2)});
      else if (c < 70) op = Op("rev");
      else if (c < 75) op = Op(rg.below(2) ? "shf" : "shb", IV{rg.below(2 * na + 2)});
      else if (c < 77) op = Op("unq", IV{d, rg.below(2)});
      else if (c < 79) op = Op("rmv", IV{1 + rg.below(nk), d});
      else if (c < 82) { IV g; for (int z = 0; z < na; ++z) g.push_back(rg.below(4) == 0); g.push_back(d); op = Op("rmi", g); }
      else if (c < 88) op = Op("swap"); else if (c < 89) op = Op("mva"); else if (c < 90) op = Op("mvc");
      else if (c < 91) { if (rg.below(3)) continue; op = Op("clr", IV{d}); } else if (c < 92) { if (rg.below(3)) continue; op = Op("dtor"); }
      else if (c < 93) { IV g{d}; int m = rg.below(std::min(9, (int)pl.size() + 1)); for (int z = 0; z < m; ++z) g.push_back(pl[z]); op = Op("asg", g); }
      else if (c < 95) { int e = 1 + rg.below(n); op = Op(rg.below(2) ? "unl" : "del", IV{e}); }
      else if (c < 97) { op = Op("swn", IV{1 + rg.below(n), 1 + rg.below(n)}); }
      else if (c < 98) op = Op("rel");
      else { clone(rg.below(3), rg.below(3) ? 0 : rg.below(na + 1), Cfg::rvclone ? rg.below(2) : 0); continue; }
      int thr = can_throw(op.o) && rg.below(6) == 0 ? 1 + rg.below(2 * na + 1) : 0;
      int v = rg.below(MAXV); for (int t = 0; t < MAXV; ++t) if (step(op, (v + t) % MAXV, thr)) break;
      if (va.size() > (size_t)n || vb.size() > (size_t)n) break;
    }
    drop();
  }
};
#endif
