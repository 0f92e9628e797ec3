// Hash tables.  n elements, nb buckets, p elements in the bucket of the key, d how many of them the equality has to look at
// (groups with optimize_multikey, only equal hashes with compare_hash), k equivalent to the key.
#include <set>
template<class X> struct HEnv { typedef typename X::C C; typedef typename X::T T; typedef typename C::bucket_type B; typedef typename C::bucket_traits BT; typedef CP<B> BP;
  std::vector<T> pool; std::vector<B> b1, b2, b3; C a, b; int n, nb, md;
  static int cnt(int x) { if (!X::fm) { int p = 1; while (p < x) p *= 2; return X::p2 ? p : x; } return (int)C::suggested_upper_bucket_count(x); }
  static BT bt(std::vector<B> &v) { return BT(BP(v.data()), v.size()); }
  HEnv(int n_, int nb_, int mode):pool(n_ + 330),b1(cnt(nb_) + C::bucket_overhead),b2(cnt(nb_ * 2) + C::bucket_overhead),b3(cnt(40) + C::bucket_overhead),a(bt(b1)),b(bt(b3)),n(n_),nb((int)b1.size() - C::bucket_overhead),md(mode) {
    for (int i = 0; i < n; ++i) { pool[i].key.k = key(i); if (X::wrap == 1) a.insert_unique(pool[i]); else a.insert_equal(pool[i]); } }
  // spread; one crowded bucket; many equal; several per hash
  int key(int i) const { return md == 0 ? i : md == 1 ? (i == 0 ? 3 : 5 + nb * i) * g_hdiv : md == 2 ? i % 3 * 2 : i; }
  R r(const char *o, int kk) { std::set<int> g; int d = 0, p = 0, k = 0, bk = (int)a.bucket(pool[0].key.k == kk ? probe(kk) : probe(kk)); 
    for (auto i = a.begin(bk), e = a.end(bk); i != e; ++i) { ++p; if (i->key.k == kk) ++k; if (X::cmph && i->key.k / g_hdiv != kk / g_hdiv) continue; if (X::mk) { if (g.insert(i->key.k).second) ++d; } else ++d; }
    return R(o, n).B(nb).P(p).D(d).Kk(k); }
  const T &probe(int kk, int i = 0) { T &t = pool[n + i]; t.key.k = kk; return t; } T &fresh(int kk, int i = 0) { T &t = pool[n + i]; t.key.k = kk; return t; } };
template<class X, bool = X::inc> struct Inc { static void go(int, int, int) {} };
template<class X> struct Inc<X, true> { static void go(int n, int nb, int md) { typedef HEnv<X> E; E e(n, nb, md); volatile int s;
  if (e.nb > 2) { e.a.full_rehash(); for (int i = 0; i < e.nb / 2; ++i) { int p = (int)e.a.bucket_size(e.a.split_count() - 1); meas(R("step", n).B(e.nb).P(p), [&]{ e.a.incremental_rehash(false); }); }
    for (int i = 0; i < e.nb / 2; ++i) { int p = (int)e.a.bucket_size(e.a.split_count() - e.nb / 2); meas(R("step", n).B(e.nb).P(p), [&]{ e.a.incremental_rehash(true); }); }
    meas(R("stepn", n).B(e.nb), [&]{ e.a.incremental_rehash(true); }); }
  meas(R("grow", n).B(2 * e.nb), [&]{ e.a.incremental_rehash(E::bt(e.b2)); }); meas(R("end", n), [&]{ s = (int)e.a.split_count(); }); e.a.clear(); } };
template<class X> void work(std::integral_constant<int, 3>) {
  typedef HEnv<X> E; typedef typename X::C C; typedef typename X::T T; g_kind = "hash"; volatile int s = 0;
  for (int n : sizes()) for (int nbx = 0; nbx < 3; ++nbx) for (int md = 0; md < 4; ++md) { int nb = nbx == 0 ? 8 : nbx == 1 ? 64 : n + 13; if (X::wrap == 1 && md == 2) continue; g_hdiv = md == 3 ? 4 : md == 1 ? 2 : 1;
    { E e(n, nb, md); const C &c = e.a; int N = e.nb;
      meas(R("begin", n).B(N), [&]{ e.a.begin(); }); meas(R("begin", n).B(N), [&]{ c.begin(); }); meas(R("begin", n).B(N), [&]{ c.cbegin(); }); meas(R("end", n).B(N), [&]{ e.a.end(); c.end(); c.cend(); }); meas(R("size", n).B(N), [&]{ s = (int)c.size(); }); meas(R("empty", n).B(N), [&]{ s = c.empty(); });
      if (n) meas(R("iter", n).B(N), [&]{ e.a.iterator_to(e.pool[n / 2]); c.iterator_to(e.pool[n - 1]); }); if (n) meas(R("liter", n).B(N), [&]{ e.a.local_iterator_to(e.pool[n / 2]); c.local_iterator_to(e.pool[n - 1]); C::s_local_iterator_to(e.pool[0]); });
      meas(R("bcnt", n).B(N), [&]{ s = (int)c.bucket_count(); c.bucket_pointer(); c.begin(0); c.end(0); c.cbegin(0); e.a.begin(0); e.a.end(0); });
      meas(R("walk", n).B(N), [&]{ for (auto i = c.begin(); i != c.end(); ++i) s = i->prio; });
      for (int b = 0; b < N && b < 9; ++b) { int z = 0; for (auto i = c.begin(b); i != c.end(b); ++i) ++z; meas(R("bsize", n).B(N).P(z), [&]{ s = (int)c.bucket_size(b); }); meas(R("lwalk", n).B(N).P(z), [&]{ for (auto i = c.begin(b); i != c.end(b); ++i) s = i->prio; }); }
      for (int q = 0; q < 7; ++q) { int kk = q == 0 ? 0 : q == 1 ? 3 * g_hdiv : q == 2 ? e.key(n / 2) : q == 3 ? e.key(n) : q == 4 ? 5 : q == 5 ? 1000003 : rng.below(2 * n + 1); const T &v = e.probe(kk);
        { R r = e.r("find", kk); meas(r, [&]{ e.a.find(v); }); meas(r, [&]{ c.find(v); }); } { R r = e.r("count", kk); meas(r, [&]{ s = (int)c.count(v); }); } { R r = e.r("range", kk); meas(r, [&]{ e.a.equal_range(v); }); meas(r, [&]{ c.equal_range(v); }); } meas(e.r("bucket", kk), [&]{ s = (int)c.bucket(v); });
        { typename C::insert_commit_data d; R r = e.r("check", kk); meas(r, [&]{ e.a.insert_unique_check(v, d); }); } } e.a.clear(); }
    for (int q = 0; q < 7; ++q) { E e(n, nb, md); int kk = q == 0 ? 0 : q == 1 ? 3 * g_hdiv : q == 2 ? e.key(n / 2) : q == 3 ? e.key(n) : q == 4 ? 5 : q == 5 ? 1000003 : rng.below(2 * n + 1);
      bool present = n && e.a.count(e.probe(kk)) > 0;
      if (X::wrap == 1) { R r = e.r("insu", kk); T &v = e.fresh(kk); if (e.a.bucket_count()) meas(r, [&]{ e.a.insert_unique(v); }); if (!present) { R r2 = e.r("era", kk); meas(r2, [&]{ e.a.erase(e.a.iterator_to(v)); }); typename C::insert_commit_data d; e.a.insert_unique_check(v, d); meas(R("commit", n).B(e.nb), [&]{ e.a.insert_unique_commit(v, d); }); e.a.erase(e.a.iterator_to(v)); } }
      else { R r = e.r("ins", kk); T &v = e.fresh(kk); meas(r, [&]{ e.a.insert_equal(v); }); R r2 = e.r("era", kk); meas(r2, [&]{ e.a.erase(e.a.iterator_to(v)); }); r = e.r("insu", kk); meas(r, [&]{ e.a.insert_unique(v); }); if (!present) e.a.erase(e.a.iterator_to(v)); }
      { R r = e.r("erak", kk); const T &v = e.probe(kk, 1); meas(r, [&]{ e.a.erase(v); }); } e.a.clear(); }
    for (int q = 0; q < 3; ++q) { E e(n, nb, md); if (n) { int p = n * q / 3; auto i = at(e.a, p); int kk = i->key.k; R r = e.r("era", kk); meas(r, [&]{ e.a.erase(i); }); } e.a.clear(); }
    for (int q = 0; q < 3; ++q) for (int d : {0, 1, 5, 1000}) { E e(n, nb, md); int p = n * q / 3, l = clampi(p + d, n); auto i = at(e.a, p), j = at(e.a, l); meas(R("eras", n).B(e.nb).D(l - p), [&]{ e.a.erase(i, j); }); e.a.clear(); }
    { E e(n, nb, md); meas(R("rehash", n).B((int)e.b2.size()), [&]{ e.a.rehash(E::bt(e.b2)); }); meas(R("rehash", n).B((int)e.b2.size()), [&]{ e.a.rehash(E::bt(e.b1)); }); meas(R("frehash", n).B(e.nb), [&]{ e.a.full_rehash(); }); e.a.clear(); }
    { E e(n, nb, md); meas(R("swap", n).B(e.nb), [&]{ e.a.swap(e.b); }); meas(R("mva", n).B(e.nb), [&]{ e.a = std::move(e.b); }); e.a.clear(); }
    { E e(n, nb, md); alignas(C) static char buf[sizeof(C)]; C *c = 0; meas(R("mvc", n).B(e.nb), [&]{ c = new(buf) C(std::move(e.a)); }); meas(R("dtor", n).B(e.nb), [&]{ c->~C(); }); }
    { E e(n, nb, md); meas(R("clear", n).B(e.nb), [&]{ e.a.clear(); }); } { E e(n, nb, md); meas(R("clrd", n).B(e.nb), [&]{ e.a.clear_and_dispose(Disp()); }); }
    if (n <= 300) { E e(n, nb, md); int used = 0; meas(R("clone", n).B(e.nb), [&]{ e.b.clone_from(e.a, [&](const T &s) { T *t = &e.pool[n + used++]; t->key.k = s.key.k; return t; }, Disp()); }); e.a.clear(); e.b.clear(); }
    { E e(n, nb, md); e.a.clear(); meas(R("fill", n).M((int)e.a.size()).B(e.nb).D(md), [&]{ if (X::wrap == 1) e.a.insert_unique(e.pool.begin(), e.pool.begin() + n); else e.a.insert_equal(e.pool.begin(), e.pool.begin() + n); }); e.a.clear(); }
    Inc<X>::go(n, nb, md); }
  g_hdiv = 1;
}
