// Conformance driver for the unordered containers: hashtable, unordered_set, unordered_multiset.
// See spec/HashOps.tla for the operations, spec/HashConform.tla for records.
#ifndef VH_HASH_HPP
#define VH_HASH_HPP
#include "common.hpp"
#include <sstream>
#include <fstream>
#include <iostream>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <boost/move/utility_core.hpp>
namespace bi = boost::intrusive;
using namespace vh;

struct Payload { int id, key, val; Payload():id(0),key(0),val(0){} Payload(const Payload &o):id(o.id),key(o.key),val(o.val){ ++n_copy; } Payload &operator=(const Payload &o){ id=o.id; key=o.key; val=o.val; ++n_assign; return *this; } };
template<class VP> struct ByHook { typedef bi::list_member_hook<bi::link_mode<bi::safe_link>, bi::void_pointer<VP> > type; };
static int g_salt[8];      // state of the hasher with tag t
static bool g_big;         // hashes with bits above 2^32
// hash of a key: keys 1 and 3 collide fully, 1 and 2 only modulo 2, 4, 8
inline int base_hash(int k) { static const int T0[] = { 4, 1, 9, 1, 6, 3, 12, 7, 17, 2 }; return k >= 0 && k < 10 ? T0[k] : (k * 7) % 31; }
inline std::size_t hash_of(int k, int tag) { std::size_t h = (std::size_t)(base_hash(k) + 5 * g_salt[tag]); if (g_big) h |= (std::size_t)(base_hash(k) % 4) << 32; return h; }
inline int spec_hash(int k, int tag) { return base_hash(k) + 5 * g_salt[tag] + (g_big ? base_hash(k) % 4 : 0); }   // as the specification sees it: both halves added
#define VALUE_OPS(T) \
  friend bool operator==(const T &x, const T &y) { tick(n_eq); return x.p.key == y.p.key && x.p.val == y.p.val; } \
  friend bool operator<(const T &x, const T &y) { tick(n_eq); return x.p.key * 10 + x.p.val < y.p.key * 10 + y.p.val; } \
  friend std::size_t hash_value(const T &x) { tick(n_hash); return hash_of(x.p.key, 0); }
struct HK { int k; };
inline int kv(int k) { return k; } inline int kv(const HK &k) { return k.k; } template<class T> inline int kv(const T &t) { return t.p.key; }
struct Hsh { int tag; explicit Hsh(int t = 0):tag(t){} template<class X> std::size_t operator()(const X &x) const { tick(n_hash); return hash_of(kv(x), tag); } };
struct Eql { int tag; explicit Eql(int t = 0):tag(t){} template<class X, class Y> bool operator()(const X &x, const Y &y) const { tick(n_eq); return kv(x) == kv(y); } };
template<class T> struct KOf { typedef int type; const int &operator()(const T &t) const { return t.p.key; } };
#include "hash_cfg.hpp"

template<class V, class K, class H, class E, class B, class S, std::size_t F> bi::hashtable_impl<V, K, H, E, B, S, F> base_of(bi::hashtable_impl<V, K, H, E, B, S, F> *);
template<class Cfg> struct Hash {
  typedef typename Cfg::T T; typedef typename Cfg::C C; typedef typename Cfg::VP VP; typedef typename Cfg::HookT HookT;
  typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::local_iterator LIt; typedef typename C::const_local_iterator CLIt;
  typedef typename C::bucket_type BK; typedef typename C::bucket_traits BT; typedef typename C::bucket_ptr BP;
  typedef bi::list<T, bi::member_hook<T, typename ByHook<VP>::type, &T::by>, bi::constant_time_size<false> > ByList;
  enum { wrap = Cfg::wrap, safe = Cfg::safe, autoun = Cfg::autoun, cs = Cfg::const_size, kov = Cfg::kov, mode = Cfg::mode, lin = Cfg::lin, store = Cfg::store, mkey = Cfg::mk && wrap != 1, inc = mode == INC };
  enum { uq = wrap != 2, eq = wrap != 1, NA = 5, NBK = 34 };
  struct Region { C *a, *b, *c; ByList by; T *e; alignas(16) char ca[sizeof(C)], cb[sizeof(C)], cc[sizeof(C)]; alignas(16) char arr[NA][NBK * sizeof(BK)]; };
  char *mem; size_t memlen; int N, SPN; IV keys; Region *R;
  static const IV &counts(bool large) { static IV m[4][2]; if (m[0][0].empty()) { m[MOD][0] = IV{2, 6, 3}; m[MOD][1] = IV{1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 27}; m[P2][0] = IV{4, 1, 2}; m[P2][1] = IV{1, 2, 4, 8, 16, 32}; m[INC][0] = IV{2, 4, 8}; m[INC][1] = IV{1, 2, 4, 8, 16, 32}; m[FM][0] = IV{3, 7}; m[FM][1] = IV{3, 7, 11, 17, 29}; } return m[mode][large]; }

  T &el(int i) { return R->e[i-1]; }
  BK *arr(int q) { return (BK*)R->arr[q]; }
  BT bt(int q, int n) { return BT(BP(arr(q)), (std::size_t)(n + lin)); }
  int array_of(C &c) { BK *p = boost::movelib::to_raw_pointer(c.bucket_pointer()); for (int q = 0; q < NA; ++q) if (arr(q) == p) return q; return -1; }
  void fresh(int q) { memset((void*)arr(q), POISON, NBK * sizeof(BK)); for (int i = 0; i < NBK; ++i) new(arr(q) + i) BK; }
  int free_array(int skip = 0) { for (int q = 0; q < NA; ++q) if (q != array_of(*R->a) && q != array_of(*R->b) && q != array_of(*R->c) && !skip--) return q; return -1; }
  C *mk(void *p, int tag, int q, int n) { fresh(q); if constexpr (Cfg::st) return new(p) C(bt(q, n), Hsh(tag), Eql(tag), Cfg::vt()); else if constexpr (Cfg::custom) return new(p) C(bt(q, n), Hsh(tag), Eql(tag)); else return new(p) C(bt(q, n)); }
  int n0, n1, n2;    // initial bucket counts
  void build(int n, const IV &k, int spare) {
    N = n; SPN = spare; keys = k; memlen = (sizeof(Region) + 64 + sizeof(T) * (N + SPN) + 4095) / 4096 * 4096;
    mem = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memset(mem, POISON, memlen);
    R = new(mem) Region; place(); memset(g_salt, 0, sizeof g_salt); g_big = Cfg::bigh;
    for (int i = 1; i <= N + SPN; ++i) { new(&el(i)) T; init(i); poison(el(i)); revive(el(i)); R->by.push_back(el(i)); }
    mk(R->ca, 1, 0, n0); mk(R->cb, 2, 1, n1); mk(R->cc, 3, 2, n2); va.clear(); vb.clear();
  }
  void place() { R->a = (C*)R->ca; R->b = (C*)R->cb; R->c = (C*)R->cc; size_t o = (sizeof(Region) + 63) / 64 * 64; R->e = (T*)(mem + o); }
  void init(int i) { T &t = el(i); t.p.id = i; t.p.key = i <= N ? keys[i-1] : 0; t.p.val = Cfg::finer && i <= N ? i % 2 : 0; }
  void poison(T &t) { HookT &h = Cfg::hook(t); h.~HookT(); memset((void*)&h, POISON, sizeof(HookT)); }
  void revive(T &t) { if (safe) new((void*)&Cfg::hook(t)) HookT; }
  void drop() { R->by.clear(); R->a->clear(); R->b->clear(); R->c->clear(); R->a->~C(); R->b->~C(); R->c->~C(); munmap(mem, memlen); }
  void relocate() { char *nm = (char*)mmap(0, memlen, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memcpy(nm, mem, memlen); mprotect(mem, memlen, PROT_NONE); char *old = mem; mem = nm; R = (Region*)mem; place(); munmap(old, memlen); }

  IV va, vb;
  int id(const T &t) const { const T *b = R->e; long k = &t - b; if (k < 0 || k >= N + SPN || (const char*)&t != (const char*)(b + k)) return -9; return (int)k + 1; }
  It at(C &c, int i) { It it = c.begin(); while (i--) ++it; return it; }
  CIt cat(const C &c, int i) { CIt it = c.begin(); while (i--) ++it; return it; }
  template<class CC> IV trav(const CC &c) { IV r; size_t lim = N + SPN + 2; for (CIt i = c.begin(), e = c.end(); i != e; ++i) { r.push_back(id(*i)); if (r.size() > lim) break; } return r; }
  std::vector<IV> bks(const C &c) { std::vector<IV> v; size_t lim = N + SPN + 2; for (size_t n = 0; n < (size_t)c.bucket_count() && n < NBK; ++n) { IV r; for (CLIt i = c.begin(n), e = c.end(n); i != e; ++i) { r.push_back(id(*i)); if (r.size() > lim) break; } v.push_back(r); } return v; }
  bool in(const IV &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  template<class CC> IV aux(const CC &c) { IV r; if constexpr (Cfg::custom) { r.push_back(c.hash_function().tag); r.push_back(c.key_eq().tag); } else { r.push_back(0); r.push_back(0); } return r; }
  template<class CC> int htag(const CC &c) { return aux(c)[0]; }

  struct Disp { Hash *s; IV *log; int mode; bool *bad;
    template<class P> void operator()(P q) const { T &t = *q; int i = s->id(t); log->push_back(i);
      if constexpr (safe) if (Cfg::is_linked(t)) *bad = true;
      if (mode == 1) s->poison(t); else if (mode == 2) { long ta = throw_at; throw_at = 0; s->put(*s->R->c, t); throw_at = ta; } } };
  void put(C &c, T &t) { if constexpr (wrap == 0) c.insert_equal(t); else c.insert(t); }
  struct PIt { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
    Hash *s; const int *q; T &operator*() const { return s->el(*q); } PIt &operator++() { ++q; return *this; } PIt operator++(int){ PIt t=*this; ++q; return t; }
    bool operator==(const PIt &o) const { return q == o.q; } bool operator!=(const PIt &o) const { return q != o.q; } };
  PIt pit(const int *q) { PIt i; i.s = this; i.q = q; return i; }

  std::map<int,int> can; IV order;
  void canon(const IV &args) { can.clear(); order.clear(); auto add = [&](int x) { if (!can.count(x)) { order.push_back(x); can[x] = (int)order.size(); } }; for (int x : va) add(x); for (int x : vb) add(x); for (int x : args) add(x); }
  int cn(int x) { if (x <= 0) return x; auto f = can.find(x); return f == can.end() ? -8 : f->second; }
  IV cn(const IV &v) { IV r; for (int x : v) r.push_back(cn(x)); return r; }
  std::vector<IV> cn(const std::vector<IV> &v) { std::vector<IV> r; for (const IV &x : v) r.push_back(cn(x)); return r; }
  // an iterator's element; -7 if it does not continue as the traversal from the beginning does
  int rid(const C &c, CIt i) { int lim = N + SPN + 2; if (i == c.cend()) return 0; int x = id(*i); CIt q = c.cbegin(); while (q != c.cend() && id(*q) != x && lim--) ++q; if (q == c.cend() || lim < 0) return -9;
    for (;; ++q, ++i) { bool e1 = q == c.cend(), e2 = i == c.cend(); if (e1 || e2) return e1 && e2 ? x : -7; if (!(q == i) || id(*q) != id(*i) || !lim--) return -7; } }

  struct Res { int r, n; IV d, cc, za; bool bad; int x, fc, nh; Res():r(-1),n(-1),bad(false),x(0),fc(-1),nh(-1){} };
  typedef typename C::insert_commit_data ICD;
  struct KeyArg { T t; int k; KeyArg(int kk):k(kk) { t.p.key = kk; } };
#define KEY(ka) keyarg(ka, std::integral_constant<bool, kov>())
  static const int &keyarg(const KeyArg &a, std::true_type) { return a.k; } static const T &keyarg(const KeyArg &a, std::false_type) { return a.t; }
  Hsh hh(const C &c) { return Hsh(htag(c)); }   // heterogeneous functors inducing the container's hash and equality
  std::pair<It,bool> check(C &c, int k, ICD &d, int v) { KeyArg ka(k); HK hk; hk.k = k;
    if constexpr (wrap == 0) return v == 0 ? c.insert_unique_check(KEY(ka), d) : c.insert_unique_check(hk, hh(c), Eql(), d);
    else return v == 0 ? c.insert_check(KEY(ka), d) : c.insert_check(hk, hh(c), Eql(), d); }
  It commit(C &c, T &t, const ICD &d, bool fast) { if constexpr (wrap == 0) return fast ? c.insert_unique_fast_commit(t, d) : c.insert_unique_commit(t, d); else return fast ? c.insert_fast_commit(t, d) : c.insert_commit(t, d); }
  long fcalls() { return n_hash + n_eq + n_cmp; }
  bool exec(const Op &op, int v, Res &res) {
    C &a = *R->a, &b = *R->b; const IV &g = op.g; const std::string &o = op.o;
    auto D = [&](int m) { Disp d; d.s = this; d.log = &res.d; d.mode = m; d.bad = &res.bad; return d; };
    auto par = [&](std::pair<It,bool> p) { res.r = rid(a, p.first); res.n = p.second; };
    const int *q0 = g.data(), *q1 = g.data() + g.size();
    if (o == "ins") { if constexpr (eq) { if (v) return false; T &t = el(g[0]); if constexpr (wrap) res.r = rid(a, a.insert(t)); else res.r = rid(a, a.insert_equal(t)); return true; } }
    else if (o == "insr") { if constexpr (eq) { if (v) return false; if constexpr (wrap) a.insert(pit(q0), pit(q1)); else a.insert_equal(pit(q0), pit(q1)); return true; } }
    else if (o == "insu") { if constexpr (uq) { if (v) return false; T &t = el(g[0]); if constexpr (wrap) par(a.insert(t)); else par(a.insert_unique(t)); return true; } }
    else if (o == "inur") { if constexpr (uq) { if (v) return false; if constexpr (wrap) a.insert(pit(q0), pit(q1)); else a.insert_unique(pit(q0), pit(q1)); return true; } }
    else if (o == "chk") { if constexpr (uq) { if (v > 1) return false; ICD d; par(check(a, g[0], d, v)); if (res.n) res.r = -1; return true; } }
    else if (o == "chc") { if constexpr (uq) { if (v > 3) return false; T &t = el(g[0]); ICD d; par(check(a, t.p.key, d, v & 1)); if (res.n) { long c0 = fcalls(); res.r = rid(a, commit(a, t, d, v >> 1)); res.fc = (int)(fcalls() - c0); } return true; } }
    else if (o == "chrc") { if constexpr (uq) { if (v > 1) return false; T &t = el(g[0]); ICD d; par(check(a, t.p.key, d, v)); if (res.n) { int q = g[1] ? free_array() : array_of(a); if (g[1]) fresh(q); a.rehash(bt(q, g[2])); long c0 = fcalls(); res.r = rid(a, commit(a, t, d, false)); res.fc = (int)(fcalls() - c0); } return true; } }
    else if (o == "era") { int i = g[0], d = g[1]; if (v > 1) return false; if (d == 0) { if (v == 0) a.erase(cat(a, i)); else a.erase(at(a, i)); } else { if (v == 0) a.erase_and_dispose(cat(a, i), D(d)); else a.erase_and_dispose(at(a, i), D(d)); } return true; }
    else if (o == "eras") { if (v) return false; int i = g[0], j = g[1], d = g[2]; if (d == 0) a.erase(cat(a, i), cat(a, j)); else a.erase_and_dispose(cat(a, i), cat(a, j), D(d)); return true; }
    else if (o == "erak") { int d = g[1]; KeyArg ka(g[0]); HK hk; hk.k = g[0];
      if (d == 0) { if (v == 0) res.n = (int)a.erase(KEY(ka)); else if (v == 1) res.n = (int)a.erase(hk, hh(a), Eql()); else return false; }
      else { if (v == 0) res.n = (int)a.erase_and_dispose(KEY(ka), D(d)); else if (v == 1) res.n = (int)a.erase_and_dispose(hk, hh(a), Eql(), D(d)); else return false; } return true; }
    else if (o == "clr") { if (v) return false; if (g[0] == 0) a.clear(); else a.clear_and_dispose(D(g[0])); return true; }
    else if (o == "lk") { if (v > 1) return false; KeyArg ka(g[1]); HK hk; hk.k = g[1]; std::pair<It,It> p;
      switch (g[0]) {
        case 0: res.r = rid(a, v ? a.find(hk, hh(a), Eql()) : a.find(KEY(ka))); break;
        case 1: res.n = (int)(v ? a.count(hk, hh(a), Eql()) : a.count(KEY(ka))); break;
        case 2: p = v ? a.equal_range(hk, hh(a), Eql()) : a.equal_range(KEY(ka)); res.r = rid(a, p.first); res.n = rid(a, p.second); if (res.n > 0) res.n = cn(res.n); break;
        case 3: res.n = (int)(v ? a.bucket(hk, hh(a)) : a.bucket(KEY(ka))); break;
        default: return false; } return true; }
    else if (o == "swap") { if (v == 0) a.swap(b); else if (v == 1) b.swap(a); else return false; return true; }
    else if (o == "mva") { if (v) return false; a = boost::move(b); return true; }
    else if (o == "mvc") { if (v) return false; C t(boost::move(a)); res.cc = trav(t); res.za = aux(t); obs(t, res.cc, 'x'); if (t.size() && !a.empty()) res.bad = true; a = boost::move(t); return true; }
    else if (o == "ctr") { if (v) return false; int m = g[0]; if (m == 0 && !uq) return false; if (m == 1 && !eq) return false; int q = free_array(), n = counts(false)[g.size() % counts(false).size()]; fresh(q);
      auto run = [&](auto &t) { res.cc = trav(t); obs(t, res.cc, 'x'); t.clear(); };
      if constexpr (Cfg::st) { if constexpr (wrap == 0) { decltype(base_of((C*)0)) t(m == 0, pit(q0 + 1), pit(q1), bt(q, n), Hsh(1), Eql(1), Cfg::vt()); run(t); } else { C t(pit(q0 + 1), pit(q1), bt(q, n), Hsh(1), Eql(1), Cfg::vt()); run(t); } } else if constexpr (wrap == 0) { decltype(base_of((C*)0)) t(m == 0, pit(q0 + 1), pit(q1), bt(q, n), Hsh(1), Eql(1)); run(t); } else if constexpr (Cfg::custom) { C t(pit(q0 + 1), pit(q1), bt(q, n), Hsh(1), Eql(1)); run(t); } else { C t(pit(q0 + 1), pit(q1), bt(q, n)); run(t); } return true; }
    else if (o == "dtor") { if (v) return false; int n = (int)a.bucket_count(), t = htag(a), q = array_of(a); a.~C(); mk(R->ca, t, q, n); return true; }
    else if (o == "rhs") { if (v) return false; int q = g[0] ? free_array() : array_of(a); if (g[0]) fresh(q); long h0 = n_hash; a.rehash(bt(q, g[1])); res.nh = (int)(n_hash - h0); return true; }
    else if (o == "frh") { if (v) return false; g_salt[htag(a)] = g[0]; a.full_rehash(); return true; }
    else if (o == "irg") { if constexpr (inc) { if (v == 0) res.n = a.incremental_rehash(); else if (v == 1) res.n = a.incremental_rehash(true); else return false; return true; } }
    else if (o == "irs") { if constexpr (inc) { if (v) return false; res.n = a.incremental_rehash(false); return true; } }
    else if (o == "irt") { if constexpr (inc) { if (v) return false; int q = g[0] ? free_array() : array_of(a); if (g[0]) fresh(q); long c0 = fcalls(); BT nb(bt(q, g[1])); res.n = a.incremental_rehash(nb); res.fc = (int)(fcalls() - c0); return true; } }
    else if (o == "unl") { if constexpr (autoun) { if (v) return false; Cfg::hook(el(g[0])).unlink(); return true; } }
    else if (o == "del") { if constexpr (autoun) { if (v) return false; HookT &h = Cfg::hook(el(g[0])); h.~HookT(); memset((void*)&h, POISON, sizeof h); new((void*)&h) HookT; return true; } }
    else if (o == "cpy") { if constexpr (Cfg::hookcopy) { if (v == 0) { HookT h2(Cfg::hook(el(g[0]))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else if (v == 1) Cfg::hook(el(g[0])) = Cfg::hook(el(g[1])); else if (v == 2) { HookT h2(boost::move(Cfg::hook(el(g[0])))); if constexpr (safe) if (h2.is_linked()) res.bad = true; } else return false; return true; } }
    else if (o == "rel") { if constexpr (Cfg::reloc) { if (v) return false; relocate(); return true; } }
    return false;
  }

  std::string src_prefix;
  // ---- observations
  IV hashes(const IV &fw, int tag) { IV r; for (int x : fw) r.push_back(x >= 1 && x <= N + SPN ? spec_hash(el(x).p.key, tag) : -1); return r; }
  template<class CC> void obs(CC &c, const IV &fw, char which) {
    if (!on('S')) return;
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) if (!pos.count(fw[i])) pos[fw[i]] = (int)i + 1;
    auto ps = [&](const T &t) { int x = id(t); auto f = pos.find(x); return f == pos.end() ? -9 : f->second; };
    const CC &k = c; long lim = N + SPN + 2; int n = (int)fw.size(); int bc = (int)k.bucket_count();
    J j; j.t("t", "H").i("m", mode).i("n", n).i("bc", bc).i("sp", (int)k.split_count());
    IV f, cf; { long q = 0; for (It i = c.begin(); i != c.end() && q < lim; ++i, ++q) f.push_back(ps(*i)); q = 0; for (CIt i = k.cbegin(); i != k.cend() && q < lim; ++i, ++q) cf.push_back(ps(*i)); }
    j.v("fw", f).v("cf", cf).i("sz", (int)k.size()).i("em", k.empty());
    std::vector<IV> bk, ck; IV bs; for (int b = 0; b < bc && b < NBK; ++b) { IV x, y; long q = 0; for (LIt i = c.begin(b); i != c.end(b) && q < lim; ++i, ++q) x.push_back(ps(*i)); q = 0; for (CLIt i = k.cbegin(b); i != k.cend(b) && q < lim; ++i, ++q) y.push_back(ps(*i)); bk.push_back(x); ck.push_back(y); bs.push_back((int)k.bucket_size(b)); }
    j.vv("bk", bk).vv("ck", ck).v("bs", bs);
    IV to, ct, li, kb; for (int x : fw) { if (x < 1 || x > N + SPN) { to.push_back(-9); continue; } T &t = el(x); const T &kt = t;
      It i = c.iterator_to(t); int s1 = ps(*i); It i2 = i++; if (!(i2 == c.iterator_to(t)) || ps(*asg(i2)) != ps(t)) s1 = -9; to.push_back(i == c.end() ? 0 : ps(*i)); if (s1 != (int)to.size()) to.back() = -7;
      CIt q = k.iterator_to(kt); ct.push_back(q != CIt(i2) || ps(*asg(q)) != ps(t) ? -7 : ps(*q));
      int b = (int)k.bucket(keyarg2(t)); kb.push_back(b); if (b < 0 || b >= bc) { li.push_back(-9); continue; }
      LIt l = c.local_iterator_to(t), l2 = l; CLIt l3 = k.local_iterator_to(kt), l4 = l3; if constexpr (!Cfg::st) { l2 = CC::s_local_iterator_to(t); l4 = CC::s_local_iterator_to(kt); } bool ok = l == l2 && ps(*asg(l)) == ps(t) && ps(*asg(l3)) == ps(t) && l3 == l4 && ps(*l) == (int)li.size() + 1 && ps(*l3) == ps(*l); ++l; ++l3; li.push_back(!ok ? -7 : l == c.end(b) ? (l3 == k.cend(b) ? 0 : -6) : ps(*l)); }
    j.v("to", to).v("ct", ct).v("li", li).v("kb", kb).v("h", hashes(fw, htag(k)));
    IV ks; for (int x : fw) ks.push_back(x >= 1 && x <= N + SPN ? el(x).p.key : -1); j.v("k", ks);
    It v1 = It(), v2 = It(); CIt v3 = CIt(), v4 = CIt(); j.i("vi", v1 == v2 && v3 == v4 && !(v1 != v2));
    k.check();
    out.rec(j.str(), src_prefix + " obs " + which);
  }
  const typename C::key_type &keyarg2(const T &t) { if constexpr (kov) return t.p.key; else return t; }
  void lookups(const C &k, const IV &fw) {   // const lookups, against all keys around the contents
    std::map<int,int> pos; for (size_t i = 0; i < fw.size(); ++i) pos[fw[i]] = (int)i + 1;
    auto ps = [&](CIt i) { int x = rid(k, i); if (x <= 0) return x; auto f = pos.find(x); return f == pos.end() ? -9 : f->second; };
    IV ks; for (int x : fw) ks.push_back(x >= 1 ? el(x).p.key : 0);
    int mx = 0; for (int y : keys) mx = std::max(mx, y);
    for (int key = 0; key <= mx + 1 && key < 14; ++key) { KeyArg ka(key); HK hk; hk.k = key;
      J j; j.t("t", "Q").i("m", mode).v("ks", ks).i("q", key).i("h", spec_hash(key, htag(k))).i("bc", (int)k.bucket_count()).i("sp", (int)k.split_count());
      IV r, h; r.push_back((int)k.count(KEY(ka))); r.push_back(ps(k.find(KEY(ka)))); std::pair<CIt,CIt> p = k.equal_range(KEY(ka)); r.push_back(ps(p.first)); r.push_back(ps(p.second)); r.push_back((int)k.bucket(KEY(ka)));
      h.push_back((int)k.count(hk, hh(k), Eql())); h.push_back(ps(k.find(hk, hh(k), Eql()))); p = k.equal_range(hk, hh(k), Eql()); h.push_back(ps(p.first)); h.push_back(ps(p.second)); h.push_back((int)k.bucket(hk, hh(k)));
      j.v("r", r).v("g", h); out.rec(j.str(), src_prefix + " lookup"); }
  }
  void links() {
    if constexpr (safe) { std::map<int,int> in; for (int x : va) in[x] = 1; for (int x : vb) in[x] = 1; int ml = 0, pl = 0; for (int i = 1; i <= N + SPN; ++i) { bool l = Cfg::is_linked(el(i)); if (in.count(i)) ml += l; else pl += l; }
      int ne = 0; if (lin) for (C *c : { R->a, R->b }) for (size_t b = 0; b < (size_t)c->bucket_count(); ++b) ne += c->begin(b) != c->end(b); J j; j.t("t", "L").i("m", (int)in.size()).i("ml", ml).i("pl", pl).i("ne", ne); out.rec(j.str(), src_prefix + " linked"); }
    IV f, r; int lim = N + SPN + 2; bool lk = true; for (typename ByList::iterator i = R->by.begin(); i != R->by.end() && lim--; ++i) { f.push_back(id(*i)); lk = lk && i->by.is_linked(); }
    lim = N + SPN + 2; for (typename ByList::reverse_iterator i = R->by.rbegin(); i != R->by.rend() && lim--; ++i) r.push_back(id(*i));
    J j; j.t("t", "B").i("n", N + SPN).v("f", f).v("r", r).i("lk", lk); out.rec(j.str(), src_prefix + " bystander");
  }
  void rel_ops() { const C &a = *R->a, &b = *R->b; IV ka, kb; for (int x : va) if (x >= 1) ka.push_back(el(x).p.key * 10 + el(x).p.val); for (int x : vb) if (x >= 1) kb.push_back(el(x).p.key * 10 + el(x).p.val);
    J j; j.t("t", "M").v("ka", ka).v("kb", kb); std::string src = src_prefix + " compare"; std::string p = j.s + "\t" + src; set_pending(p);
    IV r; r.push_back(a == b); r.push_back(a != b); r.push_back(b == a); r.push_back(a == a); IV l; if constexpr (wrap == 0) { l.push_back(a < b); l.push_back(a > b); l.push_back(a <= b); l.push_back(a >= b); }
    j.v("r", r).v("l", l); out.rec(j.str(), src); set_pending("{\"t\":\"I\"\t" + src_prefix); }
  void observe_all() {
    mprotect(mem, memlen, PROT_READ); in_const = 1;
    if (on('S')) { obs(*R->a, va, 'a'); obs(*R->b, vb, 'b'); } if (on('Q')) lookups(*R->a, va); if (on('C') && va.size() + vb.size() < 24) rel_ops(); if (on('L')) links();
    in_const = 0; mprotect(mem, memlen, PROT_READ|PROT_WRITE);
  }
  static bool is_elem(const std::string &o, size_t i) { return ((o == "ins" || o == "insu" || o == "chc" || o == "chrc") && i == 0) || o == "insr" || o == "inur" || (o == "ctr" && i >= 1) || o == "unl" || o == "del" || o == "cpy"; }
  static bool reorders(const std::string &o) { return o == "rhs" || o == "frh" || o == "irg" || o == "irs" || o == "irt" || o == "chrc" || o == "swap" || o == "mva" || o == "mvc" || o == "rel" || o == "dtor"; }
  int slot(int q, int qa, int qb) { return q == qa ? 1 : q == qb ? 2 : q < 0 ? -1 : 3; }
  bool step(const Op &op, int v, int thr = 0) {
    IV args; Op cop = op; for (size_t i = 0; i < op.g.size(); ++i) if (is_elem(op.o, i)) args.push_back(op.g[i]);
    canon(args); for (size_t i = 0; i < op.g.size(); ++i) if (is_elem(op.o, i)) cop.g[i] = can[op.g[i]];
    IV k; for (int x : order) k.push_back(el(x).p.key);
    IV xa = aux(*R->a), xb = aux(*R->b); int qa = array_of(*R->a), qb = array_of(*R->b);
    J j; j.t("t", "E").i("m", mode).t("o", op.o).v("g", cop.g).v("k", k).vv("pa", cn(bks(*R->a))).vv("pb", cn(bks(*R->b))).i("sa", (int)R->a->split_count()).i("sb", (int)R->b->split_count()).v("ha", hashes(order, xa[0])).v("hb", hashes(order, xb[0])).i("th", thr).v("xa", xa).v("xb", xb).i("kh", op.o == "lk" ? spec_hash(op.g[1], xa[0]) : 0).i("fl", store + 2 * mkey + 4 * lin + 8 * Cfg::copybt);
    std::string src = src_prefix + show(op) + " v" + std::to_string(v) + (thr ? " throw" + std::to_string(thr) : "");
    set_pending(j.s + "\t" + src);
    std::vector<It> ia, ib; for (It i = R->a->begin(); i != R->a->end(); ++i) ia.push_back(i); for (It i = R->b->begin(); i != R->b->end(); ++i) ib.push_back(i); It ea = R->a->end();
    std::string sp = src_prefix; src_prefix = src + " ;"; Res res; bool ok; long cp = n_copy + n_assign;
    if (thr) { throw_at = thr; try { ok = exec(op, v, res); } catch (Boom &) { ok = true; res.x = 1; } throw_at = 0; } else ok = exec(op, v, res);
    src_prefix = sp;
    if (!ok) { clear_pending(); return false; }
    out.executed++; out.opcount[op.o + "/" + std::to_string(v)]++;
#ifdef VH_ASSERTS
    res.fc = -1; res.nh = -1;
#endif
    IV pa = va, pb = vb; va = trav(*R->a); vb = trav(*R->b); IV vc = trav(*R->c);
    if (!vc.empty()) { R->c->clear(); res.cc = vc; }
    j.vv("a", cn(bks(*R->a))).vv("b", cn(bks(*R->b))).v("fa", cn(va)).v("fb", cn(vb)).i("r", cn(res.r)).i("n", res.n).v("d", cn(res.d)).v("c", cn(res.cc)).i("bad", res.bad).i("x", res.x).i("fc", res.fc).i("nh", res.nh).i("cp", (int)(n_copy + n_assign - cp));
    j.i("ta", (int)R->a->split_count()).i("tb", (int)R->b->split_count()).v("ya", aux(*R->a)).v("yb", aux(*R->b)).v("za", res.za).v("hn", hashes(order, htag(*R->a)));
    j.v("ar", IV{slot(array_of(*R->a), qa, qb), slot(array_of(*R->b), qa, qb)});
    IV it; std::map<int,int> alive; for (int x : va) alive[x] = 1; for (int x : vb) alive[x] = 2;
    if (op.o != "rel") for (int w = 0; w < 2; ++w) { const IV &pp = w ? pb : pa; std::vector<It> &ii = w ? ib : ia; for (size_t i = 0; i < pp.size(); ++i) { if (!alive.count(pp[i])) { it.push_back(-1); continue; } It q = ii[i]; if (id(*q) != pp[i]) { it.push_back(-7); continue; } if (reorders(op.o)) { it.push_back(-1); continue; } ++q; C &own = alive[pp[i]] == 1 ? *R->a : *R->b; it.push_back(q == own.end() ? 0 : cn(id(*q))); } }
    else for (size_t i = 0; i < pa.size() + pb.size(); ++i) it.push_back(-1);
    j.i("ee", reorders(op.o) || ea == R->a->end()).v("i", it);
    if constexpr (safe) { int lk = 0; for (int x : order) if (!alive.count(x) && !in(res.d, x)) lk += Cfg::is_linked(el(x)); j.i("lk", lk); } else j.i("lk", 0);
    retire(res, order);
    out.rec(j.str(), src);
    src_prefix = src + " ;"; observe_all(); src_prefix = sp;
    clear_pending(); return true;
  }
  // objects and buckets that are no longer in use must not be referenced any more
  void retire(const Res &res, const IV &who) {
    for (int x : who) if (!in(va, x) && !in(vb, x)) { if (!safe) memset((void*)&Cfg::hook(el(x)), POISON, sizeof(HookT)); else if (in(res.d, x)) revive(el(x)); }
    for (int q = 0; q < NA; ++q) { int used = 0; C *cs_[3] = { R->a, R->b, R->c }; for (C *c : cs_) if (array_of(*c) == q) used = (int)c->bucket_count() + lin; memset((void*)(arr(q) + used), POISON, (NBK - used) * sizeof(BK)); } }

  struct Cloner { Hash *s; IV *of; int *next; template<class Q> T *operator()(Q &t) const { tick(n_pred); int n = (*next)++; T &e = s->el(n); e.p.key = t.p.key; e.p.val = t.p.val; of->push_back(s->id(t)); return &e; } };
  struct CCloner : Cloner { T *operator()(const T &t) const { return Cloner::operator()(t); } }; struct NCloner : Cloner { T *operator()(T &t) const { return Cloner::operator()(t); } };
  IV pool() { IV r; for (int i = 1; i <= N; ++i) if (!in(va, i) && !in(vb, i)) r.push_back(i); return r; }
  int clone(int pre, int qn, int thr, int rv) {
    IV pl = pool(); if ((int)pl.size() < pre || (int)va.size() > SPN) return 0; pl.resize(pre); if (wrap == 1 && pre == 2 && keys[pl[0]-1] == keys[pl[1]-1]) return 0;
    int cq = array_of(*R->c); R->c->~C(); mk(R->cc, 3, cq, qn); g_salt[3] = pre % 2;
    C &t = *R->c; if constexpr (inc) for (int st = rv ? qn : pre == 1 ? qn / 4 + 1 : 0; st > 0; --st) t.incremental_rehash(true);
    canon(pl); for (int i = 0; i < (int)va.size(); ++i) { order.push_back(N + 1 + i); can[N+1+i] = (int)order.size(); }
    for (int x : pl) put(t, el(x));
    IV k; for (int x : va) k.push_back(el(x).p.key);
    J j; j.t("t", "K").i("m", mode).i("na", (int)va.size()).i("nb", (int)vb.size()).i("q", pre).i("th", thr).v("xa", aux(*R->a)).i("bc", (int)t.bucket_count()).i("sp", (int)t.split_count()).v("k", k).v("h", hashes(va, htag(*R->a)));
    std::string src = src_prefix + "clone prefill=" + std::to_string(pre) + " buckets=" + std::to_string(qn) + " throw=" + std::to_string(thr) + (rv ? " rvalue" : ""); set_pending(j.s + "\t" + src);
    IV of, d; int next = N + 1; bool bad = false; int x = 0; Disp ds; ds.s = this; ds.log = &d; ds.mode = 1; ds.bad = &bad; long t0 = n_pred + n_hash + n_eq;
    throw_at = thr;
    try { if (rv) { NCloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(boost::move(*R->a), c, ds); } else { CCloner c; c.s = this; c.of = &of; c.next = &next; t.clone_from(*R->a, c, ds); } } catch (Boom &) { x = 1; }
    throw_at = 0; int used = (int)(n_pred + n_hash + n_eq - t0);
    IV tv = trav(t); std::string sp = src_prefix; src_prefix = src + " ;"; obs(t, tv, 'c'); if (on('Q') && !x) lookups(t, tv); src_prefix = sp;
    IV sv = trav(*R->a); int lk = 0; if constexpr (safe) for (int i = 1; i <= N + SPN; ++i) if (!in(d, i) && !in(tv, i) && !in(va, i) && !in(vb, i)) lk += Cfg::is_linked(el(i));
    j.v("a", cn(sv)).vv("c", cn(bks(t))).v("fc", cn(tv)).v("of", cn(of)).v("d", cn(d)).i("bad", bad).i("x", x).i("lk", lk).v("xc", aux(t)).i("tc", (int)t.split_count()).i("bn", (int)t.bucket_count());
    out.rec(j.str(), src); out.executed++; out.opcount[rv ? "clone/rv" : "clone"]++;
    t.clear(); t.~C(); g_salt[3] = 0; mk(R->cc, 3, cq, n2); for (int i = 1; i <= N + SPN; ++i) if (!in(va, i) && !in(vb, i)) { if (safe) { if (in(d, i)) revive(el(i)); } else memset((void*)&Cfg::hook(el(i)), POISON, sizeof(HookT)); }
    src_prefix = src + " ;"; observe_all(); src_prefix = sp; clear_pending(); return used;
  }

  // ---- enumeration
  int nk() { int m = 0; for (int k : keys) m = std::max(m, k); return m; }
  void all_ops(std::vector<Op> &o) {
    int na = (int)va.size(); IV pl = pool(), pe; for (int x : pl) { bool dup = false; for (int y : pe) dup |= keys[y-1] == keys[x-1] && el(x).p.val == el(y).p.val; if (!dup) pe.push_back(x); }
    for (int e : pe) { if (eq) o.push_back(Op("ins", IV{e})); if (uq) { o.push_back(Op("insu", IV{e})); o.push_back(Op("chc", IV{e})); for (int n : counts(false)) for (int q = 0; q < 2; ++q) o.push_back(Op("chrc", IV{e, q, n})); } }
    for (int z = 0; z < 2; ++z) { if (z == 0 ? !uq : !eq) continue; const char *nm = z == 0 ? "inur" : "insr"; o.push_back(Op(nm, IV())); if (pl.size() >= 2) { o.push_back(Op(nm, IV{pl[0], pl[1]})); o.push_back(Op(nm, IV{pl[1], pl[0]})); } if (pl.size() >= 3) o.push_back(Op(nm, IV{pl[2], pl[0], pl[1]}));
      IV g{z}; for (size_t i = 0; i < pl.size(); ++i) g.push_back(pl[i]); o.push_back(Op("ctr", g)); }
    int K = nk(); for (int k = 0; k <= K + 1; ++k) { if (uq) o.push_back(Op("chk", IV{k})); for (int d = 0; d < 3; ++d) o.push_back(Op("erak", IV{k, d})); for (int z = 0; z < 4; ++z) o.push_back(Op("lk", IV{z, k})); }
    for (int d = 0; d < 3; ++d) { for (int i = 0; i < na; ++i) o.push_back(Op("era", IV{i, d})); for (int i = 0; i <= na; ++i) for (int j = i; j <= na; ++j) o.push_back(Op("eras", IV{i, j, d})); o.push_back(Op("clr", IV{d})); }
    o.push_back(Op("swap")); o.push_back(Op("mva")); o.push_back(Op("mvc")); o.push_back(Op("dtor")); o.push_back(Op("rel")); o.push_back(Op("irg")); o.push_back(Op("irs"));
    for (int n : counts(false)) for (int q = 0; q < 2; ++q) { o.push_back(Op("rhs", IV{q, n})); o.push_back(Op("irt", IV{q, n})); }
    if (inc) for (int q = 0; q < 2; ++q) { o.push_back(Op("rhs", IV{q, 1})); o.push_back(Op("irt", IV{q, 1})); }
    for (int s = 0; s < 2; ++s) o.push_back(Op("frh", IV{Cfg::custom ? s : 0}));
    IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); if (!pl.empty()) all.push_back(pl[0]);
    for (int x : all) { o.push_back(Op("unl", IV{x})); o.push_back(Op("del", IV{x})); for (int y : all) o.push_back(Op("cpy", IV{x, y})); }
  }
  static bool can_throw(const std::string &o) {
    if (!with_throws) return false;
#ifdef VH_ASSERTS
    return false;
#endif
    return o == "ins" || o == "insr" || o == "insu" || o == "inur" || o == "chk" || o == "chc" || o == "chrc" || o == "erak" || o == "lk" || o == "ctr" || o == "rhs" || o == "frh" || o == "irg"; }
  enum { MAXV = 4 };
  struct Rec { Op op; int v, thr; };
  std::string state_key() { std::string s; for (int w = 0; w < 2; ++w) { C &c = w ? *R->b : *R->a; put(s, (int)c.split_count()); s += '/'; put(s, g_salt[htag(c)]); for (const IV &b : bks(c)) { s += '|'; for (int x : b) { if (x < 1) { s += '?'; continue; } put2(s, el(x).p.key * 10 + el(x).p.val); } } s += ';'; } return s; }
  static void put(std::string &s, int v) { vh::put(s, v); } static void put2(std::string &s, int v) { vh::put(s, v); s += ','; }
  static std::string show_path(const std::vector<Rec> &p) { std::string s; for (const Rec &r : p) s += show(r.op) + " v" + std::to_string(r.v) + (r.thr ? " throw" + std::to_string(r.thr) : "") + " ; "; return s; }
  void replay_path(const std::vector<Rec> &p) { for (const Rec &r : p) { Res res; canon(IV()); throw_at = r.thr; try { exec(r.op, r.v, res); } catch (Boom &) {} throw_at = 0; va = trav(*R->a); vb = trav(*R->b); IV every; for (int i = 1; i <= N; ++i) every.push_back(i); R->c->clear(); retire(res, every); } }
  void initial(int z) { const IV &c = counts(false); n0 = c[z % c.size()]; n1 = c[(z + 1) % c.size()]; n2 = c[0]; }

  // ---- misuse: every insertion of an element that is already linked (or not, as a control), and its destruction
  void misuse() {
    IV pl = pool(); IV all; for (int x : va) all.push_back(x); for (int x : vb) all.push_back(x); for (size_t i = 0; i < pl.size() && i < 1; ++i) all.push_back(pl[i]);
    int md = autoun ? 2 : safe ? 1 : 0; std::vector<char> done;
    auto rec = [&](const char *o, int v, int w, int lc, int u, char c, const std::string &what) { if (c == 'A') return; out.executed++; J j; j.t("t", "X").t("o", o).i("v", v).i("m", md).i("w", w).i("lc", lc).i("u", u).t("c", std::string(1, c)); out.rec(j.str(), src_prefix + what); };
    for (int x : all) { int w = in_(va, x) ? 1 : in_(vb, x) ? 2 : 0, lc = last_of_chain(x);
      rec("destroy", 0, w, lc, 0, probe([&] { HookT &h = Cfg::hook(el(x)); h.~HookT(); return true; }), " destroy element " + std::to_string(x));
      if (w && !md) continue;
      std::vector<Op> ops; misuse_ops(ops, x, w, pl);
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, w, lc, uniq(op, x), probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert linked: " + show(op) + " v" + std::to_string(v));
      if (w == 0 && md) { std::vector<Op> dup; duplicate_ops(dup, x); for (const Op &op : dup) for (int v = 0; v < MAXV; ++v) rec(op.o.c_str(), v, 3, lin, uniq(op, x) || op.o == "inur", probe([&] { Res r; canon(IV()); return exec(op, v, r); }), " insert twice: " + show(op) + " v" + std::to_string(v)); }
      if (w) rec("clone", 0, w, lc, 0, probe([&] { C &t = *R->c; IV d; bool bad = false; Disp ds; ds.s = this; ds.log = &d; ds.mode = 0; ds.bad = &bad; if (va.empty()) return false; t.clone_from(*R->a, [&](const T &) { return &el(x); }, ds); return true; }), " cloner returns linked element " + std::to_string(x));
    }
  }
  bool in_(const IV &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  int last_of_chain(int x) { if (!lin) return 0; for (C *c : { R->a, R->b }) for (const IV &b : bks(*c)) if (!b.empty() && b.back() == x) return 1; return 0; }
  bool present(int x) { for (int y : va) if (el(y).p.key == el(x).p.key) return true; return false; }
  int uniq(const Op &op, int x) { const std::string &o = op.o; return (o == "insu" || o == "inur" || o == "chc" || o == "chrc") && present(x); }
  void misuse_ops(std::vector<Op> &o, int x, int w, const IV &pl) { IV more; for (int y : pl) if (y != x && !(uq && keys[y-1] == keys[x-1])) more.push_back(y); (void)w;
    if (eq) o.push_back(Op("ins", IV{x})); if (uq) { o.push_back(Op("insu", IV{x})); o.push_back(Op("chc", IV{x})); if (!present(x)) o.push_back(Op("chrc", IV{x, 1, (int)R->a->bucket_count()})); }
    for (int z = 0; z < 2; ++z) { if (z == 0 ? !uq : !eq) continue; const char *nm = z == 0 ? "inur" : "insr"; o.push_back(Op(nm, IV{x})); o.push_back(Op("ctr", IV{z, x})); if (!more.empty()) { o.push_back(Op(nm, IV{more[0], x})); o.push_back(Op(nm, IV{x, more[0]})); o.push_back(Op("ctr", IV{z, more[0], x})); } } }
  void duplicate_ops(std::vector<Op> &o, int x) { if (eq) { o.push_back(Op("insr", IV{x, x})); o.push_back(Op("ctr", IV{1, x, x})); } if (uq) o.push_back(Op("inur", IV{x, x})); }

  void bfs(int n, const IV &k, long maxstates, long maxops) {
    std::vector<std::vector<Rec> > q; std::unordered_set<std::string> seen; q.push_back(std::vector<Rec>()); initial(0); std::string om = obs_mask; obs_mask = "E";
    build(n, k, n); seen.insert(state_key()); obs_mask = om; src_prefix = "init ;"; set_pending("{\"t\":\"I\"\tinit"); observe_all(); clear_pending(); drop();
    size_t h = 0; for (; h < q.size() && (long)h < maxstates && out.executed < maxops; ++h) {
      std::vector<Rec> path = q[h]; std::vector<Op> ops; std::string pfx = show_path(path);
      build(n, k, n); replay_path(path); all_ops(ops); src_prefix = pfx;
      src_prefix = pfx; if (asked('X')) misuse();
      if (on('K')) for (int qn : counts(false)) for (int pre = 0; pre <= 2; ++pre) for (int thr = 0; thr < (with_throws ? 40 : 1); ++thr) { int used = clone(pre, qn, thr, 0); if (pre < 2 && (!thr || pre)) clone(pre, qn, thr, 1); if (thr && used < thr) break; }
      bool fr = true;
      for (const Op &op : ops) for (int v = 0; v < MAXV; ++v) for (int thr = 0; thr < (can_throw(op.o) ? 20 : 1); ++thr) {
        if (!fr) { drop(); build(n, k, n); replay_path(path); fr = true; }
        src_prefix = pfx; long c0 = n_hash + n_eq + n_cmp; bool ok = step(op, v, thr); if (!ok) break; fr = false;
        { std::string sk = state_key(); if (seen.insert(sk).second && va.size() + vb.size() <= (size_t)n) { std::vector<Rec> np = path; Rec r; r.op = op; r.v = v; r.thr = thr; np.push_back(r); q.push_back(np); } }
        if (thr && n_hash + n_eq + n_cmp - c0 < thr) break;
      }
      drop();
    }
    fprintf(stderr, "states %zu of %zu\n", h, q.size());
  }
  bool count_ok(int n) { return in(counts(false), n) || in(counts(true), n); }
  bool valid(const Op &op) {
    const std::string &o = op.o; const IV &g = op.g; int na = (int)va.size(); IV pl = pool();
    for (size_t i = 0; i < g.size(); ++i) if (is_elem(o, i) && o != "unl" && o != "del" && o != "cpy" && !in(pl, g[i])) return false;
    if (o == "era") return g[0] < na;
    if (o == "eras") return g[0] <= g[1] && g[1] <= na;
    if (o == "rhs" || o == "irt") return count_ok(g[1]);
    if (o == "chrc") return count_ok(g[2]);
    if (o == "frh") return Cfg::custom || !g[0];
    return true; }
  void script(const IV &k, std::istream &in) {
    std::string line; long ln = 0; while (std::getline(in, line)) { ++ln; initial((int)ln); build((int)k.size(), k, (int)k.size()); std::string done = "script start=" + std::to_string(ln % 12) + " : ";
      std::istringstream ls(line); std::string seg; while (std::getline(ls, seg, ';')) { std::istringstream ss(seg); std::string w; Op op; int v = -1, thr = 0; if (!(ss >> op.o)) continue;
        while (ss >> w) { if (w[0] == 'v') v = atoi(w.c_str() + 1); else if (w[0] == 't') thr = atoi(w.c_str() + 5); else op.g.push_back(atoi(w.c_str())); }
        src_prefix = done; bool ok = false; int used = v; if (!valid(op)) continue;
        if (v >= 0) ok = step(op, v, thr); else for (int t = 0; t < MAXV && !ok; ++t) { used = (int)((ln * 7 + out.executed + t) % MAXV); ok = step(op, used, thr); }
        if (ok) done += show(op) + " v" + std::to_string(used) + (thr ? " throw" + std::to_string(thr) : "") + " ; "; }
      drop(); } }
  void random(int n, int nkk, unsigned seed, long budget) {
    Rng rg(seed); IV k; for (int i = 0; i < n; ++i) k.push_back(1 + rg.below(nkk)); const IV &cl = counts(true); n0 = cl[rg.below((int)cl.size())]; n1 = cl[rg.below((int)cl.size())]; n2 = cl[0]; build(n, k, n);
    std::string base = "random seed=" + std::to_string(seed) + " n=" + std::to_string(n) + " step="; int phase = 0;
    for (long s = 0; s < budget; ++s) {
      src_prefix = base + std::to_string(s) + " : "; if (asked('X') && s % 50 == 49) misuse(); if (s % (n + 5) == 0) phase = rg.below(3);
      int na = (int)va.size(); IV pl = pool(); Op op; int c = rg.below(100), d = rg.below(3), i, j; int key = rg.below(nkk + 2); int bc = cl[rg.below((int)cl.size())], q = rg.below(2);
      auto pick = [&]() { return pl[rg.below((int)pl.size())]; };
      if (phase == 0 && c >= 36 && c < 58) c = rg.below(36); if (phase == 1 && c < 36 && rg.below(3)) c = 36 + rg.below(22);
      if (inc && rg.below(2)) { int b0 = (int)R->a->bucket_count(); bc = rg.below(2) ? b0 * 2 : b0 / 2; if (bc < 1 || bc > 32) bc = b0; }
      if ((on('K') || on('k')) && s % 8 == 7) { int b0 = (int)R->a->bucket_count(), b = rg.below(3) ? b0 : b0 / 2; if (count_ok(b)) clone(rg.below(2), b, 0, rg.below(2)); }   // structural copies: as many buckets, or half as many
      if (c < 26) { if (pl.empty()) continue; int z = rg.below(4); op = Op(eq && (!uq || rg.below(2)) ? "ins" : z == 0 ? "insu" : z < 3 ? "chc" : "chrc", IV{pick()}); if (op.o == "chrc") { op.g.push_back(q); op.g.push_back(bc); } }
      else if (c < 34) { IV g; int m = rg.below(std::min(9, (int)pl.size() + 1)); for (int z = 0; z < m; ++z) g.push_back(pl[z]); op = Op(eq && (!uq || rg.below(2)) ? "insr" : "inur", g); }
      else if (c < 36) { if (!uq) continue; op = Op("chk", IV{key}); }
      else if (c < 48) { if (!na) continue; op = Op("era", IV{rg.below(3) ? rg.below(na) : rg.below(2) * (na - 1), d}); }
      else if (c < 53) { i = rg.below(na + 1); j = std::min(na, i + rg.below(6)); op = Op("eras", IV{i, j, d}); }
      else if (c < 57) op = Op("erak", IV{key, d});
      else if (c < 58) { if (rg.below(6)) continue; op = Op("clr", IV{d}); }
      else if (c < 64) op = Op("lk", IV{rg.below(4), key});
      else if (c < 67) op = Op("swap"); else if (c < 68) op = Op("mva"); else if (c < 69) op = Op("mvc"); else if (c < 70) { if (rg.below(4)) continue; op = Op("dtor"); }
      else if (c < 78) op = Op("rhs", IV{q, bc}); else if (c < 81) op = Op("frh", IV{Cfg::custom ? rg.below(3) : 0});
      else if (c < 85) op = Op("irg"); else if (c < 89) op = Op("irs"); else if (c < 93) op = Op("irt", IV{q, bc});
      else if (c < 95) { int e = 1 + rg.below(n); op = Op(rg.below(2) ? "unl" : "del", IV{e}); }
      else if (c < 96) op = Op("cpy", IV{1 + rg.below(n), 1 + rg.below(n)}); else if (c < 97) op = Op("rel");
      else { if (on('K')) clone(rg.below(3), bc, rg.below(3) || !with_throws ? 0 : rg.below(3 * na + 1), rg.below(2)); continue; }
      int thr = can_throw(op.o) && rg.below(8) == 0 ? 1 + rg.below(12) : 0;
      int v = rg.below(MAXV); for (int t = 0; t < MAXV; ++t) if (step(op, (v + t) % MAXV, thr)) break;
      if (va.size() + vb.size() > (size_t)n) break;
    }
    drop();
  }
};
#endif
