// Node algorithms of rings and chains (circular_list_algorithms, circular_slist_algorithms, linear_slist_algorithms)
// applied directly to user nodes through user-defined node traits: every state of n nodes x every operation.
#include "common.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <functional>
namespace bi = boost::intrusive;
using namespace vh;
template<class P> struct Nd { typedef typename bi::pointer_traits<P>::template rebind_pointer<Nd>::type ptr; ptr nx, pv; };
template<class P> struct Tr {
  typedef Nd<P> node; typedef typename node::ptr node_ptr; typedef typename bi::pointer_traits<node_ptr>::template rebind_pointer<const node>::type const_node_ptr;
  static node_ptr get_next(const_node_ptr n) { ++n_node; return n->nx; } static void set_next(node_ptr n, node_ptr x) { ++n_node; n->nx = x; }
  static node_ptr get_previous(const_node_ptr n) { ++n_node; return n->pv; } static void set_previous(node_ptr n, node_ptr x) { ++n_node; n->pv = x; }
};
typedef boost::interprocess::offset_ptr<void> OffV;
enum { CL, CS, LS };
struct cl { enum { k = CL }; static const char *n() { return "cl"; } typedef void *P; };
struct cl_off { enum { k = CL }; static const char *n() { return "cl"; } typedef OffV P; };
struct cs { enum { k = CS }; static const char *n() { return "cs"; } typedef void *P; };
struct cs_off { enum { k = CS }; static const char *n() { return "cs"; } typedef OffV P; };
struct ls { enum { k = LS }; static const char *n() { return "ls"; } typedef void *P; };
struct ls_off { enum { k = LS }; static const char *n() { return "ls"; } typedef OffV P; };
#ifndef CFG
#define CFG cl
#endif
template<class F> struct Alg {
  typedef Tr<typename F::P> T; typedef typename T::node N; typedef typename T::node_ptr NP;
  N nd[40]; int n; IV nx, pv; Rng g; long left;
  explicit Alg(unsigned s):n(0),g(s),left(0) {}
  NP at(int i) { return i ? NP(&nd[i]) : NP(); }
  int id(NP p) { if (!p) return 0; N *q = &*p; return q >= nd + 1 && q <= nd + n ? (int)(q - nd) : -1; }
  void load() { for (int i = 1; i <= n; ++i) { nd[i].nx = at(nx[i]); nd[i].pv = at(pv[i]); } }
  bool in(int i) const { return nx[i] != 0; }
  IV ring(int p) const { IV r; int i = p; do { r.push_back(i); i = nx[i]; } while (i && i != p && r.size() <= 40); return r; }  // also chains
  bool same(int a, int b) const { IV r = ring(a); return std::find(r.begin(), r.end(), b) != r.end(); }
  template<class Fn> void op(const char *o, const IV &a, Fn f) {
    load(); std::string s(F::n()); s += " "; s += o; for (int x : a) { s += ' '; put(s, x); } s += " on "; IV p(nx.begin() + 1, nx.end()); put(s, p);
    J j; j.t("t", "A").t("k", F::n()).t("o", o).v("g", a).v("a", p).v("ap", F::k == CL ? IV(pv.begin() + 1, pv.end()) : IV());
    set_pending(j.s + "\t" + s); ++out.executed; ++out.opcount[o];
    IV res, d; n_node = 0; f(res, d); long w = n_node;
    IV b, bp; for (int i = 1; i <= n; ++i) { b.push_back(id(nd[i].nx)); if (F::k == CL) bp.push_back(id(nd[i].pv)); }
    j.v("b", b).v("bp", bp).v("r", res).v("d", d).i("w", (int)w); out.rec(j.str(), s); clear_pending();
  }
  struct Disp { Alg *a; IV *d; void operator()(NP p) const { d->push_back(a->id(p)); Tr<typename F::P>::set_next(p, NP()); } };
  struct Pred { Alg *a; int mask; int *calls; int th; bool operator()(NP p) const { if (++*calls == th) throw Boom(); return mask >> a->id(p) & 1; } };
  void partition(int b, int e, int m, int th, std::integral_constant<int, CL>) { typedef bi::circular_list_algorithms<T> A;
    op("part", {b, e, m, th}, [&](IV &r, IV &) { int c = 0; typename A::stable_partition_info i; try { A::stable_partition(at(b), at(e), Pred{this, m * 2, &c, th}, i); r = {(int)i.num_1st_partition, (int)i.num_2nd_partition, id(i.beg_2st_partition)}; } catch (Boom &) { r = {-1}; } }); }
  template<class A> void partition_s(int b, int e, int m, int th) {
    op("part", {b, e, m, th}, [&](IV &r, IV &) { int c = 0; typename A::stable_partition_info i; try { A::stable_partition(at(b), at(e), Pred{this, m * 2, &c, th}, i); r = {(int)i.num_1st_partition, (int)i.num_2nd_partition, id(i.beg_2st_partition), id(i.new_last_node)}; } catch (Boom &) { r = {-1}; } }); }
  void partition(int b, int e, int m, int th, std::integral_constant<int, CS>) { partition_s<bi::circular_slist_algorithms<T> >(b, e, m, th); }
  void partition(int b, int e, int m, int th, std::integral_constant<int, LS>) { partition_s<bi::linear_slist_algorithms<T> >(b, e, m, th); }
  // q selects operations: with q < 0 all of them, otherwise each with probability 1/q
  bool want(int q) { return q < 0 || g.below(q) == 0; }
  void parts(int b, int e, const IV &mid, int q) { int all = 0; for (int x : mid) all |= 1 << (x - 1);
    for (int m = 0; m < (1 << n) && n < 12; ++m) { if ((m & ~all) || !want(q < 0 ? q : 300)) continue; partition(b, e, m, 0, std::integral_constant<int, F::k>()); if (with_throws) for (int th = 1; th <= (int)mid.size(); ++th) partition(b, e, m, th, std::integral_constant<int, F::k>()); } }
  void ops(int q) { ops(q, std::integral_constant<int, F::k>()); }
  void ops(int q, std::integral_constant<int, CL>) {
    typedef bi::circular_list_algorithms<T> A;
    for (int a = 1; a <= n; ++a) {
      if (want(q)) op("init", {a}, [&](IV &r, IV &) { A::init(at(a)); r = {A::inited(at(a))}; });
      if (want(q)) op("inited", {a}, [&](IV &r, IV &) { r = {A::inited(at(a))}; });
      if (want(q)) op("inith", {a}, [&](IV &r, IV &) { A::init_header(at(a)); r = {A::is_empty(at(a))}; });
      if (want(q)) op("unique", {a}, [&](IV &r, IV &) { r = {A::unique(at(a))}; });
      for (int x = 1; x <= n; ++x) if (want(q)) op("swap", {a, x}, [&](IV &, IV &) { A::swap_nodes(at(a), at(x)); });
      if (!in(a)) continue;
      IV R = ring(a); int L = (int)R.size();
      if (want(q)) op("isempty", {a}, [&](IV &r, IV &) { r = {A::is_empty(at(a))}; });
      if (want(q)) op("count", {a}, [&](IV &r, IV &) { r = {(int)A::count(at(a))}; });
      if (want(q)) op("unlink", {a}, [&](IV &r, IV &) { r = {id(A::unlink(at(a)))}; });
      if (want(q)) op("rev", {a}, [&](IV &, IV &) { A::reverse(at(a)); });
      for (int k = 0; k <= 2 * L + 1; ++k) if (want(q)) { op("mvb", {a, k}, [&](IV &, IV &) { A::move_backwards(at(a), k); }); op("mvf", {a, k}, [&](IV &, IV &) { A::move_forward(at(a), k); }); }
      for (int x = 1; x <= n; ++x) if (!in(x)) { if (want(q)) op("lnkb", {a, x}, [&](IV &, IV &) { A::link_before(at(a), at(x)); }); if (want(q)) op("lnka", {a, x}, [&](IV &, IV &) { A::link_after(at(a), at(x)); }); }
      for (int j = 0; j < L; ++j) {
        int e = R[j]; IV mid(R.begin(), R.begin() + j);
        if (want(q)) op("dist", {a, e}, [&](IV &r, IV &) { r = {(int)A::distance(at(a), at(e))}; });
        if (want(q)) op("unlinkr", {a, e}, [&](IV &, IV &) { A::unlink(at(a), at(e)); });
        parts(a, e, mid, q);
        for (int p = 1; p <= n; ++p) if (in(p) && (p == a || std::find(mid.begin(), mid.end(), p) == mid.end()) && want(q)) op("xfer", {p, a, e}, [&](IV &, IV &) { A::transfer(at(p), at(a), at(e)); });
      }
      for (int p = 1; p <= n; ++p) if (in(p) && want(q)) op("xfer1", {p, a}, [&](IV &, IV &) { A::transfer(at(p), at(a)); });
    }
  }
  template<class A> void common(int a, int q) {
    if (want(q)) op("init", {a}, [&](IV &r, IV &) { A::init(at(a)); r = {A::inited(at(a))}; });
    if (want(q)) op("inited", {a}, [&](IV &r, IV &) { r = {A::inited(at(a))}; });
    if (want(q)) op("inith", {a}, [&](IV &r, IV &) { A::init_header(at(a)); r = {A::is_empty(at(a))}; });
    if (want(q)) op("isempty", {a}, [&](IV &r, IV &) { r = {A::is_empty(at(a))}; });
    if (want(q)) op("unique", {a}, [&](IV &r, IV &) { r = {A::unique(at(a))}; });
    if (want(q)) op("sent", {a}, [&](IV &r, IV &) { A::set_sentinel(at(a)); r = {A::is_sentinel(at(a))}; });
    if (want(q)) op("issent", {a}, [&](IV &r, IV &) { r = {A::is_sentinel(at(a))}; });
    if (want(q)) op("endn", {a}, [&](IV &r, IV &) { r = {id(A::end_node(at(a)))}; });
  }
  // operations shared by rings and chains; for chains e == 0 is the end
  template<class A> void ranges(int a, int q) {
    IV R = ring(a); int L = (int)R.size(); bool lin = F::k == LS;
    if (want(q)) op("count", {a}, [&](IV &r, IV &) { r = {(int)A::count(at(a))}; });
    if (nx[a] && want(q)) op("unla", {a}, [&](IV &, IV &) { A::unlink_after(at(a)); });
    if (nx[a] && nx[a] != a && want(q)) op("unlad", {a}, [&](IV &, IV &d) { A::unlink_after_and_dispose(at(a), Disp{this, &d}); });
    if (want(q)) op("detach", {a}, [&](IV &r, IV &d) { r = {(int)A::detach_and_dispose(at(a), Disp{this, &d})}; });
    for (int x = 1; x <= n; ++x) if (x != a && free_node(x) && want(q)) { op("lnka", {a, x}, [&](IV &, IV &) { A::link_after(at(a), at(x)); }); op("inc", {a, x, x}, [&](IV &, IV &) { A::incorporate_after(at(a), at(x), at(x)); }); }
    // a range of the ring or chain: (a, e) for e after a (or a again / the end), (a, e] for transfers
    for (int j = 1; j <= L; ++j) {
      int e = j < L ? R[j] : (lin ? 0 : a); IV mid(R.begin() + 1, R.begin() + j);
      if (want(q)) op("unlar", {a, e}, [&](IV &, IV &) { A::unlink_after(at(a), at(e)); });
      if (want(q)) op("unlard", {a, e}, [&](IV &r, IV &d) { r = {(int)A::unlink_after_and_dispose(at(a), at(e), Disp{this, &d})}; });
      if (j < L || lin) if (want(q)) op("dist", {a, e}, [&](IV &r, IV &) { r = {(int)A::distance(at(a), at(e))}; });
      if (want(q)) op("prevn", {a, e}, [&](IV &r, IV &) { r = {id(A::get_previous_node(at(a), at(e)))}; });
      parts(a, e, mid, q);
      if (j < L) for (int p = 1; p <= n; ++p) if (member(p) && std::find(mid.begin(), mid.end(), p) == mid.end() && want(q)) op("xfer", {p, a, e}, [&](IV &, IV &) { A::transfer_after(at(p), at(a), at(e)); });
    }
    if (want(q)) op("dist", {a, a}, [&](IV &r, IV &) { r = {(int)A::distance(at(a), at(a))}; });
    for (int p = 1; p <= n; ++p) if (member(p) && !connected(p, a) && want(q)) op("xferall", {p, a}, [&](IV &, IV &) { A::transfer_after(at(p), at(a)); });
    for (int p = 1; p <= n; ++p) if (member(p) && want(q)) op("xfer", {p, a, a}, [&](IV &, IV &) { A::transfer_after(at(p), at(a), at(a)); });
  }
  bool isolated(int x) const { for (int i = 1; i <= n; ++i) if (nx[i] == x && i != x) return false; return true; }
  bool free_node(int x) const { return F::k == LS ? nx[x] == 0 && isolated(x) : nx[x] == 0; }
  bool member(int x) const { return F::k == LS || nx[x] != 0; }
  bool connected(int a, int b) const { return F::k == LS ? same(a, b) || same(b, a) : same(a, b); }
  void ops(int q, std::integral_constant<int, CS>) {
    typedef bi::circular_slist_algorithms<T> A;
    for (int a = 1; a <= n; ++a) {
      common<A>(a, q);
      for (int x = 1; x <= n; ++x) if (want(q)) op("swap", {a, x}, [&](IV &, IV &) { A::swap_nodes(at(a), at(x)); });
      if (want(q)) op("unlink", {a}, [&](IV &, IV &) { A::unlink(at(a)); });
      if (!in(a)) continue;
      IV R = ring(a); int L = (int)R.size();
      ranges<A>(a, q);
      if (want(q)) op("prev", {a}, [&](IV &r, IV &) { r = {id(A::get_previous_node(at(a))), id(A::get_previous_previous_node(at(a)))}; });
      for (int j = 0; j < L; ++j) if (want(q)) op("prevprev", {a, R[j]}, [&](IV &r, IV &) { r = {id(A::get_previous_previous_node(at(a), at(R[j])))}; });
      for (int x = 1; x <= n; ++x) if (!in(x) && want(q)) op("lnkb", {a, x}, [&](IV &, IV &) { A::link_before(at(a), at(x)); });
      if (want(q)) op("rev", {a}, [&](IV &, IV &) { A::reverse(at(a)); });
      for (int k = 0; k <= 2 * L + 1; ++k) if (want(q)) { op("mvb", {a, k}, [&](IV &r, IV &) { r = {id(A::move_backwards(at(a), k))}; }); op("mvf", {a, k}, [&](IV &r, IV &) { r = {id(A::move_forward(at(a), k))}; }); }
    }
  }
  void ops(int q, std::integral_constant<int, LS>) {
    typedef bi::linear_slist_algorithms<T> A;
    for (int a = 1; a <= n; ++a) {
      common<A>(a, q); IV R = ring(a); int L = (int)R.size();
      ranges<A>(a, q);
      for (int x = 1; x <= n; ++x) if (!connected(a, x) && want(q)) op("swapt", {a, x}, [&](IV &, IV &) { A::swap_trailing_nodes(at(a), at(x)); });
      if (!isolated(a)) continue;   // the rest takes the first node of a chain
      if (want(q)) op("rev", {a}, [&](IV &r, IV &) { r = {id(A::reverse(at(a)))}; });
      for (int k = 0; k <= 2 * L + 1; ++k) if (want(q)) { op("mvb", {a, k}, [&](IV &r, IV &) { auto p = A::move_first_n_backwards(at(a), k); r = {id(p.first), id(p.second)}; }); op("mvf", {a, k}, [&](IV &r, IV &) { auto p = A::move_first_n_forward(at(a), k); r = {id(p.first), id(p.second)}; }); }
    }
    if (want(q)) op("rev", {0}, [&](IV &r, IV &) { r = {id(A::reverse(NP()))}; });
  }
  // all states: injective partial next functions whose orbits are rings (circular) or chains (linear)
  void states(int i) {
    if (i > n) { fix(); ops(-1); return; }
    for (int x = 0; x <= n; ++x) {
      bool used = false; for (int k = 1; k < i; ++k) if (x && nx[k] == x) used = true;
      if (used) continue; nx[i] = x; if (i < n || valid()) states(i + 1);
    }
  }
  bool valid() const {
    for (int i = 1; i <= n; ++i) { if (F::k == LS) { int p = i, s = 0; while (p && s <= n) { p = nx[p]; ++s; } if (s > n) return false; } else if (nx[i]) { bool has = false; for (int k = 1; k <= n; ++k) has |= nx[k] == i; if (!has) return false; } else for (int k = 1; k <= n; ++k) if (nx[k] == i) return false; }
    return true;
  }
  void fix() { for (int i = 1; i <= n; ++i) pv[i] = 0; for (int i = 1; i <= n; ++i) if (nx[i]) pv[nx[i]] = i; }
  void bfs(int m) { for (n = 1; n <= m; ++n) { nx.assign(n + 1, 0); pv.assign(n + 1, 0); states(1); } }
  void random(int m, long rounds) {
    n = m; while (rounds-- > 0) {
      nx.assign(n + 1, 0); pv.assign(n + 1, 0); IV perm; for (int i = 1; i <= n; ++i) perm.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[g.below(i + 1)]);
      int i = 0; while (i < n) { int l = 1 + g.below(n); if (i + l > n) l = n - i; if (g.below(6) == 0) { ++i; continue; } for (int k = 0; k < l; ++k) nx[perm[i + k]] = k + 1 < l ? perm[i + k + 1] : (F::k == LS ? 0 : perm[i]); i += l; }
      fix(); ops(20);
    }
  }
};
#define STR1(x) #x
#define STR(x) STR1(x)
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = a.file.empty() ? stdout : fopen(a.file.c_str(), "w"); out.cfg = STR(CFG); install_handlers();
  static Alg<CFG> s(a.seed);
  if (a.mode == "bfs") s.bfs(a.n); else s.random(a.n, a.budget);
  return finish();
}
