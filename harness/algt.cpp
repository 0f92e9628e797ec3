// Node algorithms of trees (bstree, rbtree, avltree, sgtree, splaytree, treap) applied directly to user nodes
// through user-defined node traits: two headers, n nodes, every reachable state x every operation.
#include "common.hpp"
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
#include <boost/intrusive/sgtree_algorithms.hpp>
#include <boost/intrusive/splaytree_algorithms.hpp>
#include <boost/intrusive/treap_algorithms.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <deque>
namespace bi = boost::intrusive;
using namespace vh;
template<class P> struct Nd { typedef typename bi::pointer_traits<P>::template rebind_pointer<Nd>::type ptr; ptr p, l, r; int x; };
template<class P> struct Tr {
  typedef Nd<P> node; typedef typename node::ptr node_ptr; typedef typename bi::pointer_traits<node_ptr>::template rebind_pointer<const node>::type const_node_ptr;
  static node_ptr get_parent(const_node_ptr n) { ++n_node; return n->p; } static void set_parent(node_ptr n, node_ptr q) { ++n_node; n->p = q; }
  static node_ptr get_left(const_node_ptr n) { ++n_node; return n->l; } static void set_left(node_ptr n, node_ptr q) { ++n_node; n->l = q; }
  static node_ptr get_right(const_node_ptr n) { ++n_node; return n->r; } static void set_right(node_ptr n, node_ptr q) { ++n_node; n->r = q; }
  typedef int color; static color black() { return 0; } static color red() { return 1; } static color get_color(const_node_ptr n) { return n->x; } static void set_color(node_ptr n, color c) { n->x = c; }
  typedef int balance; static balance zero() { return 0; } static balance positive() { return 1; } static balance negative() { return -1; } static balance get_balance(const_node_ptr n) { return n->x; } static void set_balance(node_ptr n, balance c) { n->x = c; }
};
typedef boost::interprocess::offset_ptr<void> OffV;
enum { BS, RB, AVL, SG, SP, TR };
template<int K, class T> struct AlgoOf;
template<class T> struct AlgoOf<BS, T> { typedef bi::bstree_algorithms<T> type; };
template<class T> struct AlgoOf<RB, T> { typedef bi::rbtree_algorithms<T> type; };
template<class T> struct AlgoOf<AVL, T> { typedef bi::avltree_algorithms<T> type; };
template<class T> struct AlgoOf<SG, T> { typedef bi::sgtree_algorithms<T> type; };
template<class T> struct AlgoOf<SP, T> { typedef bi::splaytree_algorithms<T> type; };
template<class T> struct AlgoOf<TR, T> { typedef bi::treap_algorithms<T> type; };
#define TA(name, kk, pp) struct name { enum { k = kk }; static const char *n() { return #kk; } typedef pp P; };
TA(abs_raw, BS, void *) TA(abs_off, BS, OffV) TA(arb_raw, RB, void *) TA(arb_off, RB, OffV) TA(aavl_raw, AVL, void *) TA(aavl_off, AVL, OffV)
TA(asg_raw, SG, void *) TA(asg_off, SG, OffV) TA(asp_raw, SP, void *) TA(asp_off, SP, OffV) TA(atr_raw, TR, void *) TA(atr_off, TR, OffV)
#ifndef CFG
#define CFG abs_raw
#endif
template<class F> struct Alg {
  typedef Tr<typename F::P> T; typedef typename T::node N; typedef typename T::node_ptr NP; typedef typename T::const_node_ptr CP;
  typedef typename AlgoOf<F::k, T>::type A; enum { K = F::k };
  enum { MAXN = 64 };
  struct St { IV p, l, r, x; int m1, m2; bool operator==(const St &o) const { return p == o.p && l == o.l && r == o.r && x == o.x && m1 == o.m1 && m2 == o.m2; } };
  N nd[2 * MAXN + 4]; int n, tot; St s, post; IV ky, pr; Rng g; std::size_t mx[3]; IV seq[3];
  explicit Alg(unsigned sd):n(0),tot(0),g(sd) {}
  NP at(int i) { return i ? NP(&nd[i]) : NP(); }
  CP cat(int i) { return CP(at(i)); }
  int id(CP p) { if (!p) return 0; const N *q = &*p; return q >= nd + 1 && q <= nd + tot ? (int)(q - nd) : -1; }
  NP H(int h) { return at(n + h); }
  void load() { for (int i = 1; i <= tot; ++i) { nd[i].p = at(s.p[i]); nd[i].l = at(s.l[i]); nd[i].r = at(s.r[i]); nd[i].x = s.x[i]; } mx[1] = (std::size_t)s.m1; mx[2] = (std::size_t)s.m2; }
  void save(St &t) { t.p.assign(tot + 1, 0); t.l = t.r = t.x = t.p; for (int i = 1; i <= tot; ++i) { t.p[i] = id(nd[i].p); t.l[i] = id(nd[i].l); t.r[i] = id(nd[i].r); t.x[i] = nd[i].x; } t.m1 = (int)mx[1]; t.m2 = (int)mx[2]; }
  // in-order sequence of a saved tree; empty result with ok = false when it is not a tree
  bool walk(const St &t, int i, int par, IV &out, int fuel) { if (i == 0) return true; if (i < 1 || i > n || fuel <= 0 || t.p[i] != par) return false; if (!walk(t, t.l[i], i, out, fuel - 1)) return false; out.push_back(i); if ((int)out.size() > n) return false; return walk(t, t.r[i], i, out, fuel - 1); }
  bool inorder(const St &t, int h, IV &out) { out.clear(); return walk(t, t.p[n + h], n + h, out, n + 1); }
  struct Key { int k; }; struct Prio { int k; };
  struct Cmp { Alg *a; int key(Key k) const { return k.k; } int key(CP p) const { return a->ky[a->id(p)]; } template<class X, class Y> bool operator()(const X &x, const Y &y) const { ++n_cmp; return key(x) < key(y); } };
  struct PCmp { Alg *a; int key(Prio k) const { return k.k; } int key(CP p) const { return a->pr[a->id(p)]; } template<class X, class Y> bool operator()(const X &x, const Y &y) const { return key(x) < key(y); } };
  struct HAlpha { std::size_t operator()(std::size_t v) const { std::size_t h = 0; double x = 1; while (x * 4 / 3 <= (double)v) { x = x * 4 / 3; ++h; } return h; } };
  struct AMax { std::size_t operator()(std::size_t v) const { return v * 3 / 4; } };
  struct Disp { Alg *a; IV *d; void operator()(NP p) const { d->push_back(a->id(p)); } };
  struct Cloner { Alg *a; IV *of; int *next; int th; NP operator()(NP p) const { of->push_back(a->id(p)); if (th && (int)of->size() == th) throw Boom(); int i = (*next)++; a->ky[i] = a->ky[a->id(p)]; a->pr[i] = a->pr[a->id(p)]; return a->at(i); } };
  Cmp cmp() { return Cmp{this}; } PCmp pcmp() { return PCmp{this}; } HAlpha ha() { return HAlpha(); } AMax am() { return AMax(); }
  template<class V> static IV rest(const V &v) { return IV(v.begin() + 1, v.end()); }
  std::deque<St> todo; std::unordered_set<std::string> known; bool explore; bool follow; // follow: random walk keeps the post state
  template<class Fn> void op(const char *o, const IV &a, Fn f, bool keep = true) {
    load(); std::string src(F::n()); src += " "; src += o; for (int x : a) { src += ' '; put(src, x); } src += " on "; put(src, rest(s.p)); put(src, rest(s.l)); put(src, rest(s.r));
    J j; j.t("t", "T").t("k", F::n()).t("o", o).v("g", a).i("n", n).v("ky", IV(ky.begin() + 1, ky.begin() + n + 1)).v("pr", IV(pr.begin() + 1, pr.begin() + n + 1)).v("p", rest(s.p)).v("l", rest(s.l)).v("r", rest(s.r)).v("x", rest(s.x)).v("m", IV{s.m1, s.m2});
    set_pending(j.s + "\t" + src); ++out.executed; ++out.opcount[o];
    IV res, d; n_node = n_cmp = 0; f(res, d); long w = n_node, c = n_cmp;
    save(post); j.v("P", rest(post.p)).v("L", rest(post.l)).v("R", rest(post.r)).v("X", rest(post.x)).v("M", IV{post.m1, post.m2}).v("v", res).v("d", d).v("w", IV{(int)w, (int)c});
    out.rec(j.str(), src); clear_pending();
    if (keep && explore) push(post);
    changed = keep && !(post == s);
  }
  bool changed;
  bool norm(St &t) { // unlinked nodes are initialised again
    IV a, b; if (!inorder(t, 1, a) || !inorder(t, 2, b)) return false;
    std::vector<char> in(n + 1, 0); for (int x : a) in[x] = 1; for (int x : b) { if (in[x]) return false; in[x] = 1; }
    for (int i = 1; i <= tot; ++i) if (i > n + 2 || (i <= n && !in[i])) { t.p[i] = t.l[i] = t.r[i] = 0; t.x[i] = 0; }
    return true;
  }
  static void app(std::string &k, const IV &v) { for (int x : v) k += (char)(x + 2); }
  void push(const St &t0) { St t = t0; if (!norm(t)) return; std::string k; app(k, t.p); app(k, t.l); app(k, t.r); app(k, t.x); if (K == SG) { put(k, t.m1); k += ','; put(k, t.m2); } if (known.insert(k).second) todo.push_back(t); }
  void start(const IV &keys, const IV &prios) {
    n = (int)keys.size(); tot = 2 * n + 2; ky.assign(tot + 1, 0); pr = ky; for (int i = 0; i < n; ++i) { ky[i + 1] = keys[i]; pr[i + 1] = prios[i]; }
    s.p.assign(tot + 1, 0); s.l = s.r = s.x = s.p; s.m1 = s.m2 = 0; load(); for (int h = 1; h <= 2; ++h) A::init_header(H(h)); for (int i = 1; i <= n; ++i) A::init(at(i)); save(s); norm(s);
  }
  bool want(int q) { if (stop) return false; return q < 0 || g.below(q) == 0; }
  bool stop;
  int sz(int h) { return (int)seq[h].size(); }
  // ---- the signatures differ by kind
  NP ieu(int h, int x) { if constexpr (K == SG) return A::insert_equal_upper_bound(H(h), at(x), cmp(), sz(h), ha(), mx[h]); else if constexpr (K == TR) return A::insert_equal_upper_bound(H(h), at(x), cmp(), pcmp()); else return A::insert_equal_upper_bound(H(h), at(x), cmp()); }
  NP iel(int h, int x) { if constexpr (K == SG) return A::insert_equal_lower_bound(H(h), at(x), cmp(), sz(h), ha(), mx[h]); else if constexpr (K == TR) return A::insert_equal_lower_bound(H(h), at(x), cmp(), pcmp()); else return A::insert_equal_lower_bound(H(h), at(x), cmp()); }
  NP ieh(int h, int q, int x) { if constexpr (K == SG) return A::insert_equal(H(h), at(q), at(x), cmp(), sz(h), ha(), mx[h]); else if constexpr (K == TR) return A::insert_equal(H(h), at(q), at(x), cmp(), pcmp()); else return A::insert_equal(H(h), at(q), at(x), cmp()); }
  NP insb(int h, int q, int x) { if constexpr (K == SG) return A::insert_before(H(h), at(q), at(x), sz(h), ha(), mx[h]); else if constexpr (K == TR) return A::insert_before(H(h), at(q), at(x), pcmp()); else return A::insert_before(H(h), at(q), at(x)); }
  void pub(int h, int x) { if constexpr (K == SG) A::push_back(H(h), at(x), sz(h), ha(), mx[h]); else if constexpr (K == TR) A::push_back(H(h), at(x), pcmp()); else A::push_back(H(h), at(x)); }
  void puf(int h, int x) { if constexpr (K == SG) A::push_front(H(h), at(x), sz(h), ha(), mx[h]); else if constexpr (K == TR) A::push_front(H(h), at(x), pcmp()); else A::push_front(H(h), at(x)); }
  IV iuc(int h, int q, int x) { // q: 0 without hint
    typename A::insert_commit_data cd; std::pair<NP, bool> r; Key k = {ky[x]}; Prio p = {pr[x]}; (void)p;
    if constexpr (K == TR) r = q ? A::insert_unique_check(H(h), at(q), k, cmp(), p, pcmp(), cd) : A::insert_unique_check(H(h), k, cmp(), p, pcmp(), cd);
    else r = q ? A::insert_unique_check(H(h), at(q), k, cmp(), cd) : A::insert_unique_check(H(h), k, cmp(), cd);
    if (r.second) { if constexpr (K == SG) A::insert_unique_commit(H(h), at(x), cd, sz(h), ha(), mx[h]); else A::insert_unique_commit(H(h), at(x), cd); }
    return {r.second ? 0 : id(r.first), r.second ? 1 : 0};
  }
  IV era(int h, int x) { if constexpr (K == SG) return {id(A::erase(H(h), at(x), sz(h), mx[h], am()))}; else if constexpr (K == TR) return {id(A::erase(H(h), at(x), pcmp()))}; else if constexpr (K == SP || K == BS) { A::erase(H(h), at(x)); return {x}; } else return {id(A::erase(H(h), at(x)))}; }
  IV tru(int a, int b, int x) { if constexpr (K == SG) return {A::transfer_unique(H(a), cmp(), sz(a), mx[a], H(b), at(x), sz(b), mx[b], ha(), am())}; else if constexpr (K == TR) return {A::transfer_unique(H(a), cmp(), pcmp(), H(b), at(x))}; else return {A::transfer_unique(H(a), cmp(), H(b), at(x))}; }
  IV tre(int a, int b, int x) { if constexpr (K == SG) A::transfer_equal(H(a), cmp(), sz(a), mx[a], H(b), at(x), sz(b), mx[b], ha(), am()); else if constexpr (K == TR) A::transfer_equal(H(a), cmp(), pcmp(), H(b), at(x)); else A::transfer_equal(H(a), cmp(), H(b), at(x)); return {1}; }
  CP ch(int h) { return cat(n + h); }
#define OP(name, args, body, keep) do { if (want(q)) { op(name, IV args, [&](IV &v, IV &d) { (void)v; (void)d; body; }, keep); if (follow && changed) { stop = true; return; } } } while (0)
  void ops(int q) {
    stop = false; if (!inorder(s, 1, seq[1]) || !inorder(s, 2, seq[2])) return;
    IV where(n + 1, 0); for (int h = 1; h <= 2; ++h) for (int x : seq[h]) where[x] = h;
    for (int h = 1; h <= 2; ++h) {
      const IV &S = seq[h]; int L = (int)S.size(), hd = n + h;
      OP("qh", ({h}), v = (IV{id(A::begin_node(ch(h))), id(A::end_node(ch(h))), id(A::root_node(ch(h))), (int)A::size(ch(h)), A::is_header(ch(h)), id(A::get_header(ch(h)))}), false);
      for (int k = 0; k <= 5; ++k) if (q < 0 || k == 0) {
        Key kk = {q < 0 ? k : g.below(9)};
        OP("qk", ({h, kk.k}), (std::pair<NP, NP>()); auto e = A::equal_range(ch(h), kk, cmp()); auto e2 = A::lower_bound_range(ch(h), kk, cmp());
           v = (IV{id(A::find(ch(h), kk, cmp())), id(A::lower_bound(ch(h), kk, cmp())), id(A::upper_bound(ch(h), kk, cmp())), id(e.first), id(e.second), id(e2.first), id(e2.second), (int)A::count(ch(h), kk, cmp())}), false);
        for (int k2 = kk.k; k2 <= (q < 0 ? 5 : kk.k + 4); ++k2) for (int f = kk.k == k2 ? 1 : 0; f < 4; ++f) { Key hi = {k2}; OP("qb", ({h, kk.k, k2, f}), auto e = A::bounded_range(ch(h), kk, hi, cmp(), f & 1, f & 2); v = (IV{id(e.first), id(e.second)}), false); }
        if constexpr (K == SP) {
          OP("spd", ({h, kk.k}), bool found = false; int r = id(A::splay_down(H(h), kk, cmp(), &found)); v = (IV{r, found}), true);
          OP("skf", ({h, kk.k}), v = (IV{id(A::find(H(h), kk, cmp()))}), true); OP("skl", ({h, kk.k}), v = (IV{id(A::lower_bound(H(h), kk, cmp()))}), true); OP("sku", ({h, kk.k}), v = (IV{id(A::upper_bound(H(h), kk, cmp()))}), true);
          OP("ske", ({h, kk.k}), auto e = A::equal_range(H(h), kk, cmp()); v = (IV{id(e.first), id(e.second)}), true); OP("skr", ({h, kk.k}), auto e = A::lower_bound_range(H(h), kk, cmp()); v = (IV{id(e.first), id(e.second)}), true);
          OP("skc", ({h, kk.k}), v = (IV{(int)A::count(H(h), kk, cmp())}), true);
          for (int f = 1; f < 4; ++f) { Key hi = {kk.k + f - 1}; OP("skb", ({h, kk.k, hi.k, f}), auto e = A::bounded_range(H(h), kk, hi, cmp(), f & 1, f & 2); v = (IV{id(e.first), id(e.second)}), true); }
        }
      }
      OP("inith", ({h}), A::init_header(H(h)), false);
      OP("clr", ({h}), A::clear_and_dispose(H(h), (Disp{this, &d})), true);
      OP("drain", ({h}), while (NP p = A::unlink_leftmost_without_rebalance(H(h))) { d.push_back(id(p)); if ((int)d.size() > n) break; }, true);
      for (int th = 0; th <= L; ++th) if (th == 0 || with_throws) { int other = 3 - h; OP("cln", ({h, other, th}), int nx = n + 3; IV of; try { A::clone(ch(h), H(other), (Cloner{this, &of, &nx, th}), (Disp{this, &d})); v.push_back(1); } catch (Boom &) { v.push_back(0); } v.insert(v.end(), of.begin(), of.end()), false); }
      if constexpr (K == BS || K == SG || K == SP) { OP("reb", ({h}), A::rebalance(H(h)), true); }
      for (int i = 0; i < L; ++i) { int x = S[i];
        if constexpr (K == BS || K == SG || K == SP) { OP("rebs", ({h, x}), v = (IV{id(A::rebalance_subtree(at(x)))}), true); }
        OP("qn", ({h, x}), v = (IV{id(A::get_header(cat(x))), A::is_header(cat(x)), id(A::next_node(at(x))), i ? id(A::prev_node(at(x))) : -1, id(A::minimum(at(x))), id(A::maximum(at(x))), (int)A::depth(cat(x)), A::inited(cat(x)), A::unique(cat(x)), id(A::prev_node(H(h)))}), false);
        OP("era", ({h, x}), v = era(h, x), true);
        if constexpr (K == TR) { OP("unl", ({h, x}), A::unlink(at(x), pcmp()), true); } else if constexpr (K != SG) { OP("unl", ({h, x}), A::unlink(at(x)), true); }
        OP("tru", ({3 - h, h, x}), v = tru(3 - h, h, x), true);
        OP("tre", ({3 - h, h, x}), v = tre(3 - h, h, x), true);
        if constexpr (K == SP) { OP("spu", ({h, x}), A::splay_up(at(x), H(h)), true); }
        for (int y = 1; y <= n; ++y) if (!where[y] && ky[y] == ky[x] && (K != TR || pr[y] == pr[x])) { OP("rpn2", ({h, x, y}), A::replace_node(at(x), at(y)), true); OP("rpn3", ({h, x, y}), A::replace_node(at(x), H(h), at(y)), true); }
      }
      for (int x = 1; x <= n; ++x) if (!where[x]) {
        OP("ieu", ({h, x}), v = (IV{id(ieu(h, x))}), true); OP("iel", ({h, x}), v = (IV{id(iel(h, x))}), true);
        OP("iuc", ({h, 0, x}), v = iuc(h, 0, x), true);
        for (int i = 0; i <= L; ++i) { int y = i < L ? S[i] : hd; bool fits = (i == 0 || ky[S[i - 1]] <= ky[x]) && (i == L || ky[x] <= ky[S[i]]);
          OP("ieh", ({h, y, x}), v = (IV{id(ieh(h, y, x))}), true); OP("iuc", ({h, y, x}), v = iuc(h, y, x), true);
          if (fits) { OP("insb", ({h, y, x}), v = (IV{id(insb(h, y, x))}), true); if (i == 0) { OP("puf", ({h, x}), puf(h, x), true); } if (i == L) { OP("pub", ({h, x}), pub(h, x), true); } } }
      }
    }
    OP("swt", ({1, 2}), A::swap_tree(H(1), H(2)); std::swap(mx[1], mx[2]), true);
    OP("swt", ({2, 1}), A::swap_tree(H(2), H(1)); std::swap(mx[1], mx[2]), true);
    OP("swt", ({1, 1}), A::swap_tree(H(1), H(1)), true);
    for (int x = 1; x <= n; ++x) {
      OP("init", ({x}), A::init(at(x)); v = (IV{A::inited(cat(x)), A::unique(cat(x))}), false);
      for (int y = 1; y <= n; ++y) if (where[x] && where[y]) { bool keep = ky[x] == ky[y] && (K != TR || pr[x] == pr[y]);
        OP("swn4", ({where[x], x, where[y], y}), A::swap_nodes(at(x), H(where[x]), at(y), H(where[y])), keep); OP("swn2", ({where[x], x, where[y], y}), A::swap_nodes(at(x), at(y)), keep); }
    }
  }
  void bfs(int m, const std::string &prof, long cap) {
    static const int pri[] = {2, 1, 2, 3, 1, 2, 5, 4, 3};
    IV k, p; for (int i = 0; i < m; ++i) { k.push_back(prof.empty() ? 1 + i / 2 : prof[i] - '0'); p.push_back(pri[i]); }
    explore = true; follow = false; start(k, p); push(s); long c = 0;
    while (!todo.empty() && c++ < cap) { s = todo.front(); todo.pop_front(); ops(-1); }
    fprintf(stderr, "states %zu left %zu\n", known.size(), todo.size());
  }
  void random(int m, int keys, long rounds) {
    explore = false; follow = true;
    while (rounds > 0) {
      IV k, p; for (int i = 0; i < m; ++i) { k.push_back(1 + g.below(keys)); p.push_back(1 + g.below(keys)); }
      start(k, p);
      for (int step = 0; step < 12 * m && rounds > 0; ++step, --rounds) {
        // mostly grow at first
        int x = 1 + g.below(n); inorder(s, 1, seq[1]); inorder(s, 2, seq[2]); bool in = false; for (int h = 1; h <= 2; ++h) in |= std::find(seq[h].begin(), seq[h].end(), x) != seq[h].end();
        if (!in && g.below(3)) { int h = 1 + (g.below(4) == 0); stop = false; op("ieu", IV{h, x}, [&](IV &v, IV &) { v = IV{id(ieu(h, x))}; }); } else ops(60 + 6 * m);
        if (post.p.size() == s.p.size() && changed && norm(post)) s = post;
        changed = false;
      }
    }
  }
};
#define STR1(x) #x
#define STR(x) STR1(x)
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = a.file.empty() ? stdout : fopen(a.file.c_str(), "w"); out.cfg = STR(CFG); install_handlers();
  static Alg<CFG> s(a.seed);
  if (a.mode == "bfs") s.bfs(a.n, a.profile, a.budget); else s.random(a.n, a.keys, a.budget);
  return finish();
}
