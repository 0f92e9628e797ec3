// Unordered containers with the default hash function over every kind of built-in key, and keys hashed by ADL or boost::hash.
#include "common.hpp"
#include <limits>
#include <string>
#include <vector>
#include <utility>
#include <boost/container_hash/hash.hpp>
#include <boost/intrusive/unordered_set.hpp>
namespace bi = boost::intrusive; using namespace vh;
// ---- representations of keys: put(p, i) writes representation i at p (whose bytes are arbitrary), cls(i) its equality class
enum E1 { ea, eb = 7, ec = -3 }; enum class E2 : unsigned char { a, b, c = 200 }; enum class E3 : long long { a = -5000000000LL, b = 1, c = 5000000000LL };
namespace adl {
struct Pt { int x, junk; friend bool operator==(const Pt &a, const Pt &b) { return a.x == b.x; } friend std::size_t hash_value(const Pt &p) { return (std::size_t)p.x * 3; } };      // hidden friend
struct Nm { char c[4]; }; inline char lo(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
inline bool operator==(const Nm &a, const Nm &b) { for (int i = 0; i < 4; ++i) if (lo(a.c[i]) != lo(b.c[i])) return false; return true; }
inline std::size_t hash_value(const Nm &a) { std::size_t h = 0; for (int i = 0; i < 4; ++i) h = h * 31 + lo(a.c[i]); return h; }                                            // free function
}
template<class K> struct Rp { enum { n = 6 }; static int cls(int i) { return i + 1; }      // integers
  static void put(void *p, int i) { typedef std::numeric_limits<K> L; K v[] = { K(0), K(1), L::max(), L::min() == 0 ? K(2) : L::min(), K(7), K(L::max() / 2) }; new(p) K(v[i]); } };
template<> struct Rp<bool> { enum { n = 2 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { new(p) bool(i != 0); } };
#ifdef __SIZEOF_INT128__
template<> struct Rp<__int128> { enum { n = 6 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { __int128 b = (__int128)1 << 100, v[] = { 0, 1, -1, b, -b, b + 1 }; new(p) __int128(v[i]); } };
template<> struct Rp<unsigned __int128> { enum { n = 4 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { unsigned __int128 b = (unsigned __int128)1 << 100, v[] = { 0, 1, b, b + 1 }; new(p) unsigned __int128(v[i]); } };
#endif
template<class F> struct RpF { enum { n = 10 }; static int cls(int i) { return i < 2 ? 1 : i; }        // 0.0 and -0.0 are equal
  static void put(void *p, int i) { typedef std::numeric_limits<F> L; volatile F z = 0; volatile F v[] = { z, -z, 1, -1, F(0.5), L::infinity(), -L::infinity(), L::denorm_min(), L::max(), L::min() }; *(volatile F*)p = v[i]; } };
template<> struct Rp<float> : RpF<float> {}; template<> struct Rp<double> : RpF<double> {};
template<> struct Rp<long double> { enum { n = 20 }; static int cls(int i) { return RpF<long double>::cls(i % 10); } static void put(void *p, int i) { RpF<long double>::put(p, i % 10); for (int b = 10; b < (int)sizeof(long double); ++b) ((volatile unsigned char*)p)[b] = i < 10 ? 0x5A : 0xC3; } };   // padding bytes differ
template<> struct Rp<E1> { enum { n = 3 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { E1 v[] = { ea, eb, ec }; new(p) E1(v[i]); } };
template<> struct Rp<E2> { enum { n = 3 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { E2 v[] = { E2::a, E2::b, E2::c }; new(p) E2(v[i]); } };
template<> struct Rp<E3> { enum { n = 3 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { E3 v[] = { E3::a, E3::b, E3::c }; new(p) E3(v[i]); } };
static int g_ints[8];
template<class T> struct Rp<T*> { enum { n = 6 }; static int cls(int i) { return i + 1; } static void put(void *p, int i) { typedef T *P; new(p) P(i == 5 ? (T*)0 : (T*)(void*)&g_ints[i]); } };
template<> struct Rp<std::nullptr_t> { enum { n = 2 }; static int cls(int) { return 1; } static void put(void *p, int) { new(p) std::nullptr_t(nullptr); } };
template<class T, std::size_t N> struct Rp<T[N]> { enum { m = Rp<T>::n < 5 ? Rp<T>::n : 5, n = m * m }; static int one(int i) { return Rp<T>::cls(i); }          // first and last element vary
  static int idx(int i) { return i * (Rp<T>::n / m); }
  static int cls(int i) { return one(i % m) * 100 + one(i / m); } static void put(void *p, int i) { char *c = (char*)p; for (std::size_t k = 0; k < N; ++k) Rp<T>::put(c + k * sizeof(T), k == 0 ? i % m : k + 1 == N ? i / m : 0); } };
template<> struct Rp<adl::Pt> { enum { n = 8 }; static int cls(int i) { return i / 2 + 1; } static void put(void *p, int i) { adl::Pt v = { i / 2 * 5 - 3, i }; new(p) adl::Pt(v); } };
template<> struct Rp<adl::Nm> { enum { n = 6 }; static int cls(int i) { return i / 3 + 1; } static void put(void *p, int i) { const char *v[] = { "abc", "ABC", "aBc", "xyz", "xyZ", "XYZ" }; adl::Nm q; memcpy(q.c, v[i], 4); new(p) adl::Nm(q); } };
template<> struct Rp<std::string> { enum { n = 6 }; static int cls(int i) { return i / 2 + 1; } static void put(void *p, int i) { const char *v[] = { "", "short", "a string that does not fit the small buffer" }; std::string *s = new(p) std::string(v[i / 2]); if (i % 2) { s->reserve(200); } } };
template<> struct Rp<std::pair<int, double> > { enum { n = 6 }; static int cls(int i) { return i < 2 ? 1 : i; } static void put(void *p, int i) { volatile double z = 0; volatile double v[] = { z, -z, 1, 2, 3, -1 }; new(p) std::pair<int, double>(i < 4 ? 1 : 2, v[i]); } };
template<> struct Rp<std::vector<int> > { enum { n = 6 }; static int cls(int i) { return i / 2 + 1; } static void put(void *p, int i) { std::vector<int> *v = new(p) std::vector<int>(i / 2, 7); if (i % 2) v->reserve(50); } };
// ---- equality: the default, element by element for arrays
template<class K> struct Eq : bi::value_equal<K> {};
template<class T, std::size_t N> struct Eq<T[N]> { bool operator()(T const (&a)[N], T const (&b)[N]) const { for (std::size_t i = 0; i < N; ++i) if (!Eq<T>()(a[i], b[i])) return false; return true; } };
template<class K, class H> struct Obj : H { typedef H Hk; int id; K first; };
template<class T> struct FirstOf; template<class K, class H> struct FirstOf<Obj<K, H> > { typedef K type; const K &operator()(const Obj<K, H> &o) const { return o.first; } };
#define OPTS(K, T) bi::key_of_value<FirstOf<T> >, bi::equal<Eq<K> >
struct k_set { enum { uq = 1, inc = 0 }; static const char *kd() { return "u"; } static const int *counts() { static int c[] = { 3, 7, 16 }; return c; } template<class K> struct C { typedef Obj<K, bi::unordered_set_base_hook<> > T; typedef bi::unordered_set<T, OPTS(K, T)> type; }; };
struct k_mset { enum { uq = 0, inc = 0 }; static const char *kd() { return "m"; } static const int *counts() { static int c[] = { 2, 8, 16 }; return c; } template<class K> struct C { typedef Obj<K, bi::unordered_set_base_hook<bi::store_hash<true>, bi::optimize_multikey<true> > > T; typedef bi::unordered_multiset<T, OPTS(K, T), bi::compare_hash<true>, bi::power_2_buckets<true> > type; }; };
struct k_fm { enum { uq = 1, inc = 0 }; static const char *kd() { return "u"; } static const int *counts() { static int c[] = { 3, 11, 17 }; return c; } template<class K> struct C { typedef Obj<K, bi::unordered_set_base_hook<bi::store_hash<true> > > T; typedef bi::unordered_set<T, OPTS(K, T), bi::fastmod_buckets<true>, bi::cache_begin<true> > type; }; };
struct k_inc { enum { uq = 0, inc = 1 }; static const char *kd() { return "m"; } static const int *counts() { static int c[] = { 2, 8, 16 }; return c; } template<class K> struct C { typedef Obj<K, bi::unordered_set_base_hook<> > T; typedef bi::unordered_multiset<T, OPTS(K, T), bi::incremental<true> > type; }; };
#ifndef CFG
#define CFG k_set
#endif
typedef CFG X;
template<class K> void run(const char *name, unsigned seed, long budget) {
  typedef typename X::template C<K>::type C; typedef typename X::template C<K>::T T; typedef Rp<K> P; Rng g(seed);
  enum { NR = P::n, NO = P::n + 4 }; struct Mem { alignas(16) char m[sizeof(K)]; };
  static Mem reps[NR]; for (int i = 0; i < NR; ++i) P::put(reps[i].m, i); auto key = [&](int q) -> const K& { return *(const K*)reps[q - 1].m; };
  struct OM { alignas(16) char m[sizeof(T)]; }; static OM om[NO]; auto ob = [&](int i) -> T& { return *(T*)om[i - 1].m; };
  IV Rr, E; for (int i = 0; i < NR; ++i) E.push_back(P::cls(i));
  for (int i = 1; i <= NO; ++i) { int r = i <= NR ? i : 1 + g.below(NR); memset(om[i - 1].m, 0x33 + i, sizeof(T)); T *t = (T*)om[i - 1].m; typedef typename T::Hk Hk; new((void*)static_cast<Hk*>(t)) Hk; t->id = i; P::put((void*)&t->first, r - 1); Rr.push_back(r); }
  static typename C::bucket_type bk[2][32]; int cur = 0, nb = X::counts()[1]; C c(typename C::bucket_traits(bk[0], nb));
  std::string hist = std::string(name) + ": ";
  auto contents = [&] { IV v; for (auto i = c.begin(); i != c.end() && v.size() < 100; ++i) v.push_back(i->id); return v; };
  for (long s = 0; s < budget; ++s) {
    int w = g.below(24); Op op;
    if (w < 11) { int x = 1 + g.below(NO); IV v = contents(); op = std::find(v.begin(), v.end(), x) == v.end() ? Op("ins", {x}) : Op("era", {x}); }
    else if (w < 15) op = Op("erk", {1 + g.below(NR)}); else if (w < 20) op = Op("chk", {1 + g.below(NR)}); else if (w == 20) op = Op("rhs", {g.below(3)}); else if (w == 21) op = Op("inc", {g.below(2)}); else if (w == 22 && !g.below(6)) op = Op("clr", {}); else continue;
    if (op.o == "inc" && !X::inc) continue; if (op.o == "chk" && !X::uq) continue;
    J j; j.t("t", "D").t("ty", name).t("kd", X::kd()).t("o", op.o).v("g", op.g).v("k", Rr).v("e", E).v("c", contents());
    hist += show(op) + " ; "; if (hist.size() > 3000) hist = std::string(name) + ": ... " + hist.substr(hist.size() - 2000);
    set_pending(j.s + "\t" + hist); ++out.executed; ++out.opcount[op.o]; int r = 0, n = 0;
    if (op.o == "ins") { if constexpr (X::uq) { auto q = c.insert(ob(op.g[0])); r = q.first->id; n = q.second; } else { r = c.insert(ob(op.g[0]))->id; n = 1; } }
    else if (op.o == "era") c.erase(c.iterator_to(ob(op.g[0])));
    else if (op.o == "erk") n = (int)c.erase(key(op.g[0]));
    else if (op.o == "chk") { if constexpr (X::uq) { typename C::insert_commit_data d; auto q = c.insert_check(key(op.g[0]), d); n = q.second; r = q.second ? 0 : q.first->id; } }
    else if (op.o == "rhs") { nb = X::counts()[op.g[0]]; c.rehash(typename C::bucket_traits(bk[1 - cur], nb)); cur = 1 - cur; }
    else if (op.o == "inc") { if constexpr (X::inc) c.incremental_rehash(op.g[0] != 0); }
    else if (op.o == "clr") c.clear();
    IV C2 = contents(), lb, b, fi, cn; std::vector<IV> er; int hs = 1; const C &k = c;
    for (int x : C2) { int at = -1; for (int q = 0; q < (int)c.bucket_count(); ++q) for (auto i = c.begin(q); i != c.end(q); ++i) if (i->id == x) at = q; lb.push_back(at); }
    for (int q = 1; q <= NR; ++q) { b.push_back((int)k.bucket(key(q))); auto i = c.find(key(q)); fi.push_back(i == c.end() ? 0 : i->id); if (!((i == c.end()) == (k.find(key(q)) == k.end()))) fi.back() = -9; cn.push_back((int)k.count(key(q))); IV e; auto p = c.equal_range(key(q)); for (; p.first != p.second && e.size() < 100; ++p.first) e.push_back(p.first->id); er.push_back(e); if (c.hash_function()(key(q)) != c.hash_function()(key(q))) hs = 0; }
    for (int i = 1; i <= NO; ++i) if (c.hash_function()(ob(i).first) != c.hash_function()(key(Rr[i - 1]))) hs = 0;
    j.v("C", C2).i("r", r).i("n", n).v("lb", lb).v("b", b).v("fi", fi).v("cn", cn).vv("er", er).i("hs", hs); out.rec(j.str(), hist); clear_pending();
  }
  c.clear();
}
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = fopen(a.file.c_str(), "w"); out.cfg = a.cfg; install_handlers();
#define GO(...) run<__VA_ARGS__>(#__VA_ARGS__, a.seed, a.budget);
  typedef int A3[3]; typedef float F2[2]; typedef long double L2[2]; typedef int I22[2][2]; typedef adl::Pt P2[2]; typedef double D1[1]; typedef int *IP2[2]; typedef std::pair<int, double> PID;
  GO(bool) GO(char) GO(signed char) GO(unsigned char) GO(wchar_t) GO(char16_t) GO(char32_t) GO(short) GO(unsigned short) GO(int) GO(unsigned) GO(long) GO(unsigned long) GO(long long) GO(unsigned long long)
#ifdef __SIZEOF_INT128__
  GO(__int128) GO(unsigned __int128)
#endif
  GO(float) GO(double) GO(long double) GO(E1) GO(E2) GO(E3) GO(int*) GO(const int*) GO(void*) GO(const char*) GO(std::nullptr_t)
  GO(A3) GO(F2) GO(L2) GO(I22) GO(P2) GO(IP2) GO(adl::Pt) GO(adl::Nm) GO(std::string) GO(PID) GO(std::vector<int>)
  return finish();
}
