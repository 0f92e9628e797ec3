#include "work.hpp"
static bool deep = false; static Rng rng(1);
static std::vector<int> sizes() { std::vector<int> v = {0, 1, 2, 5, 16, 61, 250, 1000}; if (deep) { v.push_back(3000); v.push_back(7000); } return v; }
// keys: 0 ascending, 1 descending, 2 few different keys, 3 random
static int key_at(int mode, int i, int n) { return mode == 0 ? 2 * i : mode == 1 ? 2 * (n - i) : mode == 2 ? i * 7 % 3 : rng.below(4 * n + 1); }
template<class C> int len(C &c) { int n = 0; for (auto i = c.begin(); i != c.end(); ++i) ++n; return n; }
template<class C> typename C::iterator at(C &c, int p) { auto i = c.begin(); while (p-- > 0) ++i; return i; }

// ---------------------------------------------------------------- lists
template<class X> struct Env { typedef typename X::C C; typedef typename X::T T; std::vector<T> pool; C a, b; int n, m;
  Env(int n_, int m_, int mode = 0):pool(n_ + m_ + 600),n(n_),m(m_) { for (size_t i = 0; i < pool.size(); ++i) pool[i].key.k = 0;
    for (int i = 0; i < n; ++i) { pool[i].key.k = key_at(mode, i, n); } for (int i = 0; i < m; ++i) pool[n + i].key.k = key_at(mode, i, m) + (mode == 0);
    typename C::iterator la = X::tail(a), lb = X::tail(b); for (int i = 0; i < n; ++i) la = X::add(a, la, pool[i]); for (int i = 0; i < m; ++i) lb = X::add(b, lb, pool[n + i]); }
  T *fresh(int i = 0) { return &pool[n + m + i]; } };
template<class X> void const_seq(int n) {
  typedef Env<X> E; typedef typename X::C C;
  { E e(n, 0); const C &c = e.a; volatile int s = 0;
    meas(R("begin", n), [&]{ c.begin(); c.cbegin(); e.a.begin(); }); meas(R("end", n), [&]{ c.end(); c.cend(); e.a.end(); }); meas(R("size", n), [&]{ s = (int)c.size(); }); meas(R("empty", n), [&]{ s = c.empty(); });
    if (n) meas(R("front", n), [&]{ e.a.front(); c.front(); }); if (n) meas(R("iter", n), [&]{ e.a.iterator_to(e.pool[n / 2]); c.iterator_to(e.pool[n - 1]); C::s_iterator_to(e.pool[0]); });
    if constexpr (!X::li) meas(R("cfe", n), [&]{ C::container_from_end_iterator(e.a.end()); }); meas(R("walk", n), [&]{ for (auto i = c.begin(); i != c.end(); ++i) s = i->prio; }); }
  for (int m : {0, 1, 3, 200}) {
    { E e(n, m); meas(R("swap", n).M(m), [&]{ e.a.swap(e.b); }); } { E e(n, m); meas(R("mva", n).M(m), [&]{ e.a = std::move(e.b); }); } { E e(n, m); std::vector<char> buf(sizeof(C)); C *c = 0; meas(R("mvc", n), [&]{ c = new(buf.data()) C(std::move(e.a)); }); meas(R("dtor", n), [&]{ c->~C(); }); }
    { E e(n, m); meas(R("asg", n).M(m), [&]{ e.a.assign(e.pool.begin() + n + m, e.pool.begin() + n + m + 100 % (m + 1)); }); }
    { E e(n, m); meas(R("asgd", n).M(m), [&]{ e.a.dispose_and_assign(Disp(), e.pool.begin() + n + m, e.pool.begin() + n + m + 100 % (m + 1)); }); }
    { E e(n, m); int used = 0; meas(R("clone", n).M(m), [&]{ e.a.clone_from(e.b, [&](const typename X::T &) { return e.fresh(used++); }, Disp()); }); e.a.clear(); }
    for (int md = 0; md < 4; ++md) { E e(n, m, md); e.a.sort(); e.b.sort(); meas(R("merge", n).M(m), [&]{ e.a.merge(e.b); }); e.a.clear(); }
    for (int md = 0; md < 4; ++md) { E e(n, m, md); e.a.sort(); e.b.sort(); meas(R("merge", n).M(m), [&]{ e.a.merge(e.b, [](const typename X::T &x, const typename X::T &y) { ++n_cmp; return x.key.k < y.key.k; }); }); e.a.clear(); }
  }
  { E e(n, 0); meas(R("clear", n), [&]{ e.a.clear(); }); } { E e(n, 0); meas(R("clrd", n), [&]{ e.a.clear_and_dispose(Disp()); }); }
  { std::vector<typename X::T> pool(n + 1); std::vector<char> buf(sizeof(C)); C *c = 0; meas(R("ctr", n), [&]{ c = new(buf.data()) C(pool.begin(), pool.begin() + n); }); meas(R("dtor", n), [&]{ c->~C(); }); }
  for (int md = 0; md < 4; ++md) { { E e(n, 0, md); meas(R("sort", n), [&]{ e.a.sort(); }); } { E e(n, 0, md); meas(R("sort", n), [&]{ e.a.sort([](const typename X::T &x, const typename X::T &y) { ++n_cmp; return x.key.k < y.key.k; }); }); }
    { E e(n, 0, md); meas(R("rev", n), [&]{ e.a.reverse(); }); }
    { E e(n, 0, md); meas(R("rmi", n), [&]{ e.a.remove_if(Pred{3}); }); } { E e(n, 0, md); meas(R("rmi", n), [&]{ e.a.remove_and_dispose_if(Pred{2}, Disp()); }); }
    { E e(n, 0, md); e.fresh()->key.k = 2; meas(R("rmv", n), [&]{ e.a.remove(*e.fresh()); }); } { E e(n, 0, md); e.fresh()->key.k = 1; meas(R("rmv", n), [&]{ e.a.remove_and_dispose(*e.fresh(), Disp()); }); }
    { E e(n, 0, md); meas(R("unq", n), [&]{ e.a.unique(); }); } { E e(n, 0, md); meas(R("unqp", n), [&]{ e.a.unique(Pred2()); }); } { E e(n, 0, md); meas(R("unq", n), [&]{ e.a.unique_and_dispose(Disp()); }); } { E e(n, 0, md); meas(R("unqp", n), [&]{ e.a.unique_and_dispose(Pred2(), Disp()); }); } }
  for (int k : {0, 1, 2, 7, 40, 300}) { { E e(n, 0); meas(R("shf", n).D(k), [&]{ e.a.shift_forward(k); }); } { E e(n, 0); meas(R("shb", n).D(k), [&]{ e.a.shift_backwards(k); }); } }
  { E e(n, 0); meas(R("puf", n), [&]{ e.a.push_front(*e.fresh()); }); if (n) meas(R("pof", n), [&]{ e.a.pop_front(); }); if (n) meas(R("pof", n), [&]{ e.a.pop_front_and_dispose(Disp()); }); }
  for (int q = 0; q < 4; ++q) { int p = q == 0 ? 0 : q == 1 ? n / 2 : q == 2 ? n : n - 1; if (p < 0) continue;
    { E e(n, 0); auto i = at(e.a, p); meas(R("ins", n).P(p), [&]{ e.a.insert(i, *e.fresh()); }); }
    for (int m : {0, 1, 3, 200}) { E e(n, 0); auto i = at(e.a, p); meas(R("insr", n).M(m).P(p), [&]{ e.a.insert(i, e.pool.begin() + n, e.pool.begin() + n + m); }); }
    if (p < n) { { E e(n, 0); auto i = at(e.a, p); meas(R("era", n).P(p), [&]{ e.a.erase(i); }); } { E e(n, 0); auto i = at(e.a, p); meas(R("era", n).P(p), [&]{ e.a.erase_and_dispose(i, Disp()); }); } }
    for (int d : {0, 1, 3, 60, 1000}) { int l = clampi(p + d, n), dd = l - p;
      { E e(n, 0); auto i = at(e.a, p), j = at(e.a, l); meas(R("eras", n).P(p).D(dd), [&]{ e.a.erase(i, j); }); } { E e(n, 0); auto i = at(e.a, p), j = at(e.a, l); meas(R("erasn", n).P(p).D(dd), [&]{ e.a.erase(i, j, dd); }); }
      { E e(n, 0); auto i = at(e.a, p), j = at(e.a, l); meas(R("erasd", n).P(p).D(dd), [&]{ e.a.erase_and_dispose(i, j, Disp()); }); } 
      for (int to : {0, 2, 100}) { E e(n, 100); auto i = at(e.a, p), j = at(e.a, l), t = at(e.b, to); meas(R("splr", 100).M(n).P(to).D(dd).Kk(p), [&]{ e.b.splice(t, e.a, i, j); }); e.b.clear(); }
      for (int to : {0, 2, 100}) { E e(n, 100); auto i = at(e.a, p), j = at(e.a, l), t = at(e.b, to); meas(R("splrn", 100).M(n).P(to).D(dd).Kk(p), [&]{ e.b.splice(t, e.a, i, j, dd); }); e.b.clear(); }
      if (p < n) for (int to : {0, 2, 100}) { E e(n, 100); auto i = at(e.a, p), t = at(e.b, to); meas(R("spli", 100).M(n).P(to).Kk(p), [&]{ e.b.splice(t, e.a, i); }); e.b.clear(); } }
    for (int m : {0, 1, 200}) { E e(n, m); auto i = at(e.a, p); meas(R("spl", n).M(m).P(p), [&]{ e.a.splice(i, e.b); }); e.a.clear(); } }
}
template<class X> void work(std::integral_constant<int, 0>) {   // list
  typedef Env<X> E; typedef typename X::C C; g_kind = "list";
  for (int n : sizes()) { const_seq<X>(n);
    { E e(n, 0); const C &c = e.a; meas(R("begin", n), [&]{ c.rbegin(); c.rend(); e.a.rbegin(); e.a.rend(); c.crbegin(); }); if (n) meas(R("back", n), [&]{ e.a.back(); c.back(); }); meas(R("puf", n), [&]{ e.a.push_back(*e.fresh()); }); if (n) meas(R("pof", n), [&]{ e.a.pop_back(); }); if (n) meas(R("pof", n), [&]{ e.a.pop_back_and_dispose(Disp()); }); } }
}
template<class C> typename C::iterator before_(C &c, int p) { auto i = c.before_begin(); while (p-- > 0) ++i; return i; }
template<class X, bool CL> struct LastOps { static void go(int) {} };
template<class X> struct LastOps<X, true> { static void go(int n) { typedef Env<X> E; typedef typename X::C C; E e(n, 0); const C &c = e.a;
  if (n) meas(R("back", n), [&]{ e.a.back(); c.back(); }); meas(R("last", n), [&]{ e.a.last(); c.last(); c.clast(); }); meas(R("puf", n), [&]{ e.a.push_back(*e.fresh()); }); } };
template<class X> void work(std::integral_constant<int, 1>) {   // slist
  typedef Env<X> E; typedef typename X::C C; g_kind = "slist";
  for (int n : sizes()) { const_seq<X>(n); LastOps<X, X::cl>::go(n);
    { E e(n, 0); const C &c = e.a; meas(R("begin", n), [&]{ e.a.before_begin(); c.before_begin(); c.cbefore_begin(); }); }
    for (int q = 0; q < 4; ++q) { int p = q == 0 ? 0 : q == 1 ? n / 2 : q == 2 ? n : n - 1; if (p < 0) continue;
      { E e(n, 0); auto i = before_(e.a, p); meas(R("insa", n).P(p), [&]{ e.a.insert_after(i, *e.fresh()); }); }
      for (int m : {0, 1, 3, 200}) { E e(n, 0); auto i = before_(e.a, p); meas(R("insar", n).M(m).P(p), [&]{ e.a.insert_after(i, e.pool.begin() + n, e.pool.begin() + n + m); }); }
      { E e(n, 0); auto i = at(e.a, p); meas(R("prev", n).P(p), [&]{ e.a.previous(i); }); } { E e(n, 0); auto i = at(e.a, p), b = before_(e.a, p / 2); meas(R("prevf", n).P(p).D(p - p / 2), [&]{ e.a.previous(b, i); }); }
      if (p < n) { { E e(n, 0); auto i = before_(e.a, p); meas(R("eraa", n).P(p), [&]{ e.a.erase_after(i); }); } { E e(n, 0); auto i = before_(e.a, p); meas(R("eraa", n).P(p), [&]{ e.a.erase_after_and_dispose(i, Disp()); }); } }
      for (int d : {0, 1, 3, 60, 1000}) { int l = clampi(p + d, n), dd = l - p;
        { E e(n, 0); auto i = before_(e.a, p), j = at(e.a, l); meas(R("erasa", n).P(p).D(dd), [&]{ e.a.erase_after(i, j); }); } { E e(n, 0); auto i = before_(e.a, p), j = at(e.a, l); meas(R("erasan", n).P(p).D(dd), [&]{ e.a.erase_after(i, j, dd); }); }
        { E e(n, 0); auto i = before_(e.a, p), j = at(e.a, l); meas(R("erasd0", n).P(p).D(dd), [&]{ e.a.erase_after_and_dispose(i, j, Disp()); }); }
        for (int to : {0, 2, 100}) { { E e(n, 100); auto i = before_(e.a, p), j = before_(e.a, l), t = before_(e.b, to); meas(R("splar", 100).M(n).P(to).D(dd).Kk(p), [&]{ e.b.splice_after(t, e.a, i, j); }); e.b.clear(); }
          { E e(n, 100); auto i = before_(e.a, p), j = before_(e.a, l), t = before_(e.b, to); meas(R("splarn", 100).M(n).P(to).D(dd).Kk(p), [&]{ e.b.splice_after(t, e.a, i, j, dd); }); e.b.clear(); }
          if (p < n) { E e(n, 100); auto i = before_(e.a, p), t = before_(e.b, to); meas(R("splai", 100).M(n).P(to).Kk(p), [&]{ e.b.splice_after(t, e.a, i); }); e.b.clear(); } } }
      for (int m : {0, 1, 200}) { { E e(n, m); auto i = before_(e.a, p); meas(R("spla", n).M(m).P(p), [&]{ e.a.splice_after(i, e.b); }); e.a.clear(); }
        { E e(n, m); auto i = before_(e.a, p); typename C::const_iterator l; meas(R("splal", n).M(m).P(p), [&]{ e.a.splice_after(i, e.b, &l); }); e.a.clear(); } } } }
}
#include "work_tree.hpp"
#include "work_hash.hpp"
typedef CP<void> CV;
#define LX(name, KIND, HOOK, TPL, LM, CS, CL, LI, OPTS) struct name { typedef bi::HOOK<bi::void_pointer<CV>, bi::link_mode<bi::LM> > H; typedef Val<H> T; typedef bi::TPL<T, bi::constant_time_size<CS> OPTS> C; enum { kind = KIND, nl = bi::LM == bi::normal_link, cs = CS, cl = CL, li = LI, x = 0 }; \
  static C::iterator tail(C &c) TAIL##KIND static C::iterator add(C &c, C::iterator i, T &t) ADD##KIND };
#define ADD0 { return c.insert(c.end(), t); }
#define ADD1 { return c.insert_after(i, t); }
#define TAIL0 { return c.end(); }
#define TAIL1 { return c.before_begin(); }
#define COMMA ,
LX(wl_ns, 0, list_base_hook, list, normal_link, true, 0, 0, )
LX(wl_nl, 0, list_base_hook, list, normal_link, false, 0, 0, )
LX(wl_ss, 0, list_base_hook, list, safe_link, true, 0, 0, )
LX(wl_al, 0, list_base_hook, list, auto_unlink, false, 0, 0, )
LX(ws_ns, 1, slist_base_hook, slist, normal_link, true, 0, 0, )
LX(ws_nl, 1, slist_base_hook, slist, normal_link, false, 0, 0, )
LX(ws_ss, 1, slist_base_hook, slist, safe_link, true, 0, 0, )
LX(ws_cns, 1, slist_base_hook, slist, normal_link, true, 1, 0, COMMA bi::cache_last<true>)
LX(ws_cnl, 1, slist_base_hook, slist, normal_link, false, 1, 0, COMMA bi::cache_last<true>)
LX(ws_cs, 1, slist_base_hook, slist, safe_link, true, 1, 0, COMMA bi::cache_last<true>)
LX(ws_lns, 1, slist_base_hook, slist, normal_link, true, 0, 1, COMMA bi::linear<true>)
LX(ws_lnl, 1, slist_base_hook, slist, normal_link, false, 0, 1, COMMA bi::linear<true>)
LX(ws_lcn, 1, slist_base_hook, slist, normal_link, false, 1, 1, COMMA bi::linear<true> COMMA bi::cache_last<true>)
LX(ws_lcs, 1, slist_base_hook, slist, safe_link, true, 1, 1, COMMA bi::linear<true> COMMA bi::cache_last<true>)
#include "work_cfg.hpp"
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = fopen(a.file.c_str(), "w"); out.cfg = a.cfg; install_handlers(); deep = a.mode == "deep"; rng = Rng(a.seed);
  g_nl = CFG::nl; g_cs = CFG::cs; g_cl = CFG::cl; g_li = CFG::li; g_x = CFG::x;
  work<CFG>(std::integral_constant<int, CFG::kind>()); return finish();
}
