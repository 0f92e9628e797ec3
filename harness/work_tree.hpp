// Trees: lookups against the measured height, insertion and erasure against the height, histories against n log n.
template<class C> int height(C &c) {
  typedef typename C::node_traits NT; typedef typename C::node_ptr NP; if (c.empty()) return 0;
  NP root = c.root().pointed_node(); std::vector<NP> cur(1, root); int h = 0;
  while (!cur.empty()) { ++h; std::vector<NP> nx; for (NP q : cur) { NP l = NT::get_left(q), r = NT::get_right(q); if (l != NP()) nx.push_back(l); if (r != NP()) nx.push_back(r); } cur.swap(nx); }
  return h;
}
// a treap's check also takes the priority
template<class X, class C, class T, class D> bool chk_(C &c, const T &v, D &d) { if constexpr (X::x == 1) return c.insert_unique_check(v, v, d).second; else return c.insert_unique_check(v, d).second; }
template<class X, class C, class I, class T, class D> bool chkh_(C &c, I h, const T &v, D &d) { if constexpr (X::x == 1) return c.insert_unique_check(h, v, v, d).second; else return c.insert_unique_check(h, v, d).second; }
template<class X> struct TEnv { typedef typename X::C C; typedef typename X::T T; std::vector<T> pool; C a, b; int n, m, md;
  TEnv(int n_, int m_, int mode = 0):pool(n_ + m_ + 300),n(n_),m(m_),md(mode) { for (auto &t : pool) t.prio = (int)(rng.next() & 0xffffff);
    std::vector<int> o(n); for (int i = 0; i < n; ++i) { o[i] = i; } if (mode == 3) for (int i = n - 1; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
    for (int i = 0; i < n; ++i) pool[i].key.k = 2 * (mode == 1 ? n - 1 - o[i] : mode == 2 ? o[i] / 16 : o[i]);
    for (int i = 0; i < m; ++i) pool[n + i].key.k = i * 5 % (4 * m + 1);
    for (int i = 0; i < n; ++i) a.insert_equal(pool[i]); for (int i = 0; i < m; ++i) b.insert_equal(pool[n + i]); }
  T *fresh(int i = 0) { return &pool[n + m + i]; } T *key(int k, int i = 0) { T *t = &pool[n + m + i]; t->key.k = k; return t; } };
template<class X, class = void> struct Rebal { static void go(int, int) {} };
template<class X> struct Rebal<X, typename std::enable_if<!X::bal>::type> { static void go(int n, int md) { typedef TEnv<X> E;
  { E e(n, 0, md); meas(R("rebal", n), [&]{ e.a.rebalance(); }); } if (n) { E e(n, 0, md); auto r = e.a.root(); meas(R("rebal", n), [&]{ e.a.rebalance_subtree(r); }); } } };
template<class X> void work(std::integral_constant<int, 2>) {
  typedef TEnv<X> E; typedef typename X::C C; typedef typename X::T T; g_kind = X::name(); const bool lazy = X::splay;
  for (int n : sizes()) for (int md = 0; md < 4; ++md) {
    { E e(n, 0, md); const C &c = e.a; volatile int s = 0; int h = height(e.a);
      meas(R("begin", n).Hh(h), [&]{ c.begin(); c.cbegin(); e.a.begin(); }); meas(R("rbegin", n).Hh(h), [&]{ e.a.rbegin(); c.rbegin(); c.crbegin(); }); meas(R("end", n).Hh(h), [&]{ c.end(); c.cend(); e.a.end(); c.rend(); e.a.rend(); });
      if (n) meas(R("back", n).Hh(h), [&]{ s = (--e.a.end())->prio; s = (--c.end())->prio; s = c.rbegin()->prio; });
      meas(R("size", n).Hh(h), [&]{ s = (int)c.size(); }); meas(R("empty", n).Hh(h), [&]{ s = c.empty(); }); meas(R("root", n).Hh(h), [&]{ e.a.root(); c.root(); c.croot(); });
      if (n) { meas(R("iter", n).Hh(h), [&]{ e.a.iterator_to(e.pool[n / 2]); c.iterator_to(e.pool[n - 1]); C::s_iterator_to(e.pool[0]); }); for (int i : {0, n / 2, n - 1}) { auto it = e.a.iterator_to(e.pool[i]); meas(R("cfi", n).Hh(h), [&]{ C::container_from_iterator(it); }); } }
      meas(R("cfe", n).Hh(h), [&]{ C::container_from_end_iterator(e.a.end()); });
      meas(R("walk", n).Hh(h), [&]{ for (auto i = c.begin(); i != c.end(); ++i) s = i->prio; }); meas(R("walk", n).Hh(h), [&]{ for (auto i = c.rbegin(); i != c.rend(); ++i) s = i->prio; });
      for (int q = 0; q < 8; ++q) { int kk = q == 0 ? -1 : q == 1 ? 0 : q == 2 ? n : q == 3 ? n + 1 : q == 4 ? 2 * n - 2 : q == 5 ? 2 * n + 1 : rng.below(2 * n + 1); if (md == 2) kk /= 16; const T &v = *e.key(kk); const T &v2 = *e.key(kk + 9, 1); int cnt = (int)c.count(v), cb = 0; { auto i = c.lower_bound(v), j = c.upper_bound(v2); for (; i != j; ++i) ++cb; }
        // const lookups (never restructure)
        meas(R("find", n).Hh(h), [&]{ c.find(v); }); meas(R("lower", n).Hh(h), [&]{ c.lower_bound(v); }); meas(R("upper", n).Hh(h), [&]{ c.upper_bound(v); }); meas(R("range", n).Hh(h).Kk(cnt), [&]{ c.equal_range(v); });
        meas(R("count", n).Hh(h).Kk(cnt), [&]{ s = (int)c.count(v); }); meas(R("bound", n).Hh(h), [&]{ c.bounded_range(v, v2, true, false); }); meas(R("bound", n).Hh(h), [&]{ c.bounded_range(v, v2, true, true); }); meas(R("bound", n).Hh(h), [&]{ c.bounded_range(v, v2, false, false); }); meas(R("bound", n).Hh(h), [&]{ c.bounded_range(v, v2, false, true); });
        { typename C::insert_commit_data d; if (!lazy) meas(R("check", n).Hh(h), [&]{ chk_<X>(e.a, v, d); }); }
        // the others may restructure a splay tree
        h = height(e.a); meas(R("mfind", n).Hh(h), [&]{ e.a.find(v); }); h = height(e.a); meas(R("mlower", n).Hh(h), [&]{ e.a.lower_bound(v); }); h = height(e.a); meas(R("mupper", n).Hh(h), [&]{ e.a.upper_bound(v); });
        h = height(e.a); meas(R("mrange", n).Hh(h).Kk(cnt), [&]{ e.a.equal_range(v); }); h = height(e.a); meas(R("mcount", n).Hh(h).Kk(cnt), [&]{ e.a.count(v); }); h = height(e.a); meas(R("mbound", n).Hh(h), [&]{ e.a.bounded_range(v, v2, true, true); }); h = height(e.a); } }
    for (int q = 0; q < 5; ++q) { int kk = q == 0 ? -1 : q == 1 ? 2 * n + 1 : q == 2 ? n : rng.below(2 * n + 2); if (md == 2) kk /= 16; 
      { E e(n, 0, md); int h = height(e.a); T *v = e.key(kk); meas(R("ins", n).Hh(h), [&]{ e.a.insert_equal(*v); }); h = height(e.a); meas(R("era", n).Hh(h), [&]{ e.a.erase(e.a.iterator_to(*v)); }); h = height(e.a); meas(R("insu", n).Hh(h), [&]{ e.a.insert_unique(*v); }); }
      { E e(n, 0, md); T *v = e.key(kk); e.fresh(1)->key.k = kk; int cnt = (int)e.a.count(*v); int h = height(e.a); meas(R("erak", n).Hh(h).Kk(cnt), [&]{ e.a.erase(*v); }); }
      // hint: the element the new one goes immediately before
      { E e(n, 0, md); T *v = e.key(kk); auto hint = const_cast<const C&>(e.a).upper_bound(*v); int h = height(e.a); meas(R("inh", n).Hh(h), [&]{ e.a.insert_equal(hint, *v); }); }
      { E e(n, 0, md); T *v = e.key(kk); auto hint = const_cast<const C&>(e.a).lower_bound(*v); int h = height(e.a); meas(R("inh", n).Hh(h), [&]{ e.a.insert_equal(hint, *v); }); }
      { E e(n, 0, md); T *v = e.key(kk); auto hint = const_cast<const C&>(e.a).lower_bound(*v); bool pres = const_cast<const C&>(e.a).count(*v) > 0; int h = height(e.a); typename C::insert_commit_data d; if (!pres) meas(R("chkh", n).Hh(h), [&]{ chkh_<X>(e.a, hint, *v, d); }); h = height(e.a); if (!pres) meas(R("inuh", n).Hh(h), [&]{ e.a.insert_unique(hint, *v); }); }
      { E e(n, 0, md); T *v = e.key(kk); auto hint = e.a.begin(); int h = height(e.a); meas(R("inhx", n).Hh(h), [&]{ e.a.insert_equal(hint, *v); }); }
      { E e(n, 0, md); T *v = e.key(kk); typename C::insert_commit_data d; if (chk_<X>(e.a, *v, d)) { int h = height(e.a); meas(R("commit", n).Hh(h), [&]{ e.a.insert_unique_commit(*v, d); }); } }
      { E e(n, 0, md); auto i = at(e.a, n * q / 5); int h = height(e.a); T *v = e.fresh(); v->key.k = i == e.a.end() ? 5 * n : i->key.k; meas(R("insb", n).Hh(h), [&]{ e.a.insert_before(i, *v); }); }
      for (int d : {0, 1, 4, 100}) { int p = n * q / 5, l = clampi(p + d, n); E e(n, 0, md); auto i = at(e.a, p), j = at(e.a, l); int h = height(e.a); meas(R("eras", n).Hh(h).D(l - p), [&]{ e.a.erase(i, j); }); }
      if (n) { E e(n, 0, md); auto i = at(e.a, n * q / 6); int h = height(e.a); T *v = e.fresh(); v->key.k = i->key.k; v->prio = i->prio; meas(R("repl", n).Hh(h), [&]{ e.a.replace_node(i, *v); }); } }
    { E e(n, 0, md); int h = height(e.a); e.fresh()->key.k = 5 * n; meas(R("pub", n).Hh(h), [&]{ e.a.push_back(*e.fresh()); }); } { E e(n, 0, md); int h = height(e.a); e.fresh()->key.k = -5; meas(R("puf", n).Hh(h), [&]{ e.a.push_front(*e.fresh()); }); }
    for (int m : {0, 1, 100}) { { E e(n, m, md); meas(R("swap", n).M(m), [&]{ e.a.swap(e.b); }); } { E e(n, m, md); meas(R("mva", n).M(m), [&]{ e.a = std::move(e.b); }); }
      { E e(n, m, md); int used = 0; meas(R("clone", n).M(m), [&]{ e.a.clone_from(e.b, [&](const T &s) { T *t = e.fresh(used++); t->key.k = s.key.k; t->prio = s.prio; return t; }, Disp()); }); e.a.clear(); }
      { E e(n, m, md); meas(R("mergee", n).M(m).Hh(height(e.a)), [&]{ e.a.merge_equal(e.b); }); e.a.clear(); } { E e(n, m, md); meas(R("mergeu", n).M(m).Hh(height(e.a)), [&]{ e.a.merge_unique(e.b); }); e.a.clear(); e.b.clear(); } }
    { E e(n, 0, md); std::vector<char> buf(sizeof(C) + 64); C *c = 0; void *pp = buf.data(); meas(R("mvc", n), [&]{ c = new(pp) C(std::move(e.a)); }); meas(R("dtor", n), [&]{ c->~C(); }); }
    { E e(n, 0, md); meas(R("clear", n), [&]{ e.a.clear(); }); } { E e(n, 0, md); meas(R("clrd", n), [&]{ e.a.clear_and_dispose(Disp()); }); }
    { E e(n, 0, md); meas(R("unlall", n), [&]{ while (e.a.unlink_leftmost_without_rebalance()) {} }); }
    Rebal<X>::go(n, md);
    // whole histories from an empty container
    { std::vector<T> pool(n); for (auto &t : pool) t.prio = (int)(rng.next() & 0xffffff); for (int i = 0; i < n; ++i) pool[i].key.k = key_at(md, i, n); C c; meas(R("fill", n).D(md), [&]{ for (int i = 0; i < n; ++i) c.insert_equal(pool[i]); }); int h = height(c);
      meas(R("height", n).Hh(h), []{}); meas(R("seek", n).M(3 * n).D(md).Hh(h), [&]{ for (int r = 0; r < 3; ++r) for (int i = 0; i < n; ++i) c.find(pool[r == 1 ? n - 1 - i : i]); }); meas(R("seek", n).M(2 * n).D(md).Hh(height(c)), [&]{ for (int r = 0; r < 2 * n; ++r) c.find(pool[rng.below(n)]); }); 
      meas(R("height", n).Hh(X::splay ? 0 : height(c)), []{}); { std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[rng.below(i + 1)]);
      meas(R("drain", n / 2).D(md), [&]{ for (int i = 0; i < n / 2; ++i) c.erase(c.iterator_to(pool[ord[i]])); }); meas(R("height", n - n / 2).Hh(X::splay ? 0 : height(c)), []{}); meas(R("drain", n).D(md), [&]{ while (!c.empty()) c.erase(c.begin()); }); } }
    { std::vector<T> pool(n); for (auto &t : pool) t.prio = (int)(rng.next() & 0xffffff); for (int i = 0; i < n; ++i) pool[i].key.k = i / (1 + md); C c; meas(R("sorted", n), [&]{ c.insert_equal(pool.begin(), pool.end()); }); c.clear(); if (md == 0) { C c2; meas(R("sorted", n), [&]{ c2.insert_unique(pool.begin(), pool.end()); }); c2.clear(); meas(R("sorted", n), [&]{ ::new((void*)&c2) C(true, pool.begin(), pool.end()); }); c2.clear(); }
      std::vector<char> buf(sizeof(C) + 64); C *c3 = 0; void *pp = buf.data(); meas(R("sorted", n), [&]{ c3 = new(pp) C(false, pool.begin(), pool.end()); }); c3->~C(); }
    // a history mixing insertion, lookup and erasure: total work against m log n
    { std::vector<T> pool(n); for (auto &t : pool) { t.prio = (int)(rng.next() & 0xffffff); t.key.k = rng.below(4 * n + 1); } C c; std::vector<char> in(n, 0); int steps = 6 * n, mx = 0, hv = 0; bool bad = false; std::vector<int> ch(steps), op(steps); for (int i = 0; i < steps; ++i) { ch[i] = rng.below(n); op[i] = rng.below(3); }
      meas(R("mixed", n).M(steps).D(md), [&]{ for (int i = 0; i < steps; ++i) { int x = ch[i]; if (op[i] == 0) c.find(pool[x]); else if (!in[x]) { c.insert_equal(pool[x]); in[x] = 1; } else { c.erase(c.iterator_to(pool[x])); in[x] = 0; } } }); c.clear(); } }
}
