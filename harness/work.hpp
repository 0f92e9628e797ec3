// Work driver: containers whose pointers count every dereference; each measured call becomes one record of counters
// that TLC compares with the documented complexity of the call.
// assertions inspect the containers and would be counted
#define BOOST_DISABLE_ASSERTS
#include "common.hpp"
#include <cstddef>
#include <iterator>
#include <memory>
#include <type_traits>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
namespace bi = boost::intrusive;
namespace vh {
// a pointer like any other user-supplied one; dereferences are counted
template<class T> struct CP {
  typedef T element_type; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef CP pointer;
  typedef typename std::add_lvalue_reference<T>::type reference; typedef std::random_access_iterator_tag iterator_category;
  template<class U> struct rebind { typedef CP<U> other; };
  T *p;
  CP():p(0){} CP(std::nullptr_t):p(0){} explicit CP(T *x):p(x){}
  template<class U, typename std::enable_if<std::is_convertible<U*, T*>::value, int>::type = 0> CP(const CP<U> &o):p(o.p){}
  template<class U, typename std::enable_if<!std::is_convertible<U*, T*>::value, int>::type = 0> explicit CP(const CP<U> &o):p(static_cast<T*>(o.p)){}
  template<class R> static CP pointer_to(R &r) { return CP(std::addressof(r)); }
  reference operator*() const { ++n_node; return *p; }
  T *operator->() const { ++n_node; return p; }
  reference operator[](std::ptrdiff_t i) const { ++n_node; return p[i]; }
  T *get() const { return p; }
  explicit operator bool() const { return p != 0; } bool operator!() const { return p == 0; }
  CP &operator+=(std::ptrdiff_t d) { p += d; return *this; } CP &operator-=(std::ptrdiff_t d) { p -= d; return *this; }
  CP &operator++() { ++p; return *this; } CP &operator--() { --p; return *this; }
  CP operator++(int) { CP t(*this); ++p; return t; } CP operator--(int) { CP t(*this); --p; return t; }
  friend CP operator+(CP a, std::ptrdiff_t d) { return CP(a.p + d); } friend CP operator-(CP a, std::ptrdiff_t d) { return CP(a.p - d); }
  friend std::ptrdiff_t operator-(const CP &a, const CP &b) { return a.p - b.p; }
  friend bool operator==(const CP &a, const CP &b) { return a.p == b.p; } friend bool operator!=(const CP &a, const CP &b) { return a.p != b.p; }
  friend bool operator<(const CP &a, const CP &b) { return a.p < b.p; } friend bool operator>(const CP &a, const CP &b) { return a.p > b.p; }
  friend bool operator<=(const CP &a, const CP &b) { return a.p <= b.p; } friend bool operator>=(const CP &a, const CP &b) { return a.p >= b.p; }
};
template<> struct CP<void> { typedef void element_type; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef CP pointer; typedef std::random_access_iterator_tag iterator_category; template<class U> struct rebind { typedef CP<U> other; };
  void *p; CP():p(0){} CP(std::nullptr_t):p(0){} CP(void *x):p(x){} template<class U> CP(const CP<U> &o):p(o.p){} explicit operator bool() const { return p != 0; } };
template<> struct CP<const void> { typedef const void element_type; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef CP pointer; typedef std::random_access_iterator_tag iterator_category; template<class U> struct rebind { typedef CP<U> other; };
  const void *p; CP():p(0){} CP(std::nullptr_t):p(0){} CP(const void *x):p(x){} template<class U> CP(const CP<U> &o):p(o.p){} explicit operator bool() const { return p != 0; } };

// object lifetime events of user objects
struct Life { Life(){} Life(const Life &) { ++n_copy; } Life &operator=(const Life &) { ++n_copy; return *this; } ~Life() { ++n_copy; } };
static int g_hdiv = 1;   // this many consecutive keys share their hash
struct Key : Life { int k; Key(int x = 0):k(x){} friend bool operator<(const Key &a, const Key &b) { ++n_cmp; return a.k < b.k; } friend bool operator==(const Key &a, const Key &b) { ++n_eq; return a.k == b.k; } };
inline std::size_t hash_value(const Key &k) { ++n_hash; return (std::size_t)(k.k / g_hdiv); }
template<class H> struct Val : H { Key key; int prio; char body[16]; Val():prio(0){} 
  friend bool operator<(const Val &a, const Val &b) { ++n_cmp; return a.key.k < b.key.k; } friend bool operator==(const Val &a, const Val &b) { ++n_eq; return a.key.k == b.key.k; }
  friend bool priority_order(const Val &a, const Val &b) { ++n_pred; return a.prio < b.prio; } friend std::size_t hash_value(const Val &v) { ++n_hash; return (std::size_t)(v.key.k / g_hdiv); } };
template<class T> struct KOV { typedef Key type; const Key &operator()(const T &t) const { return t.key; } };
struct Pred { int mod; template<class T> bool operator()(const T &t) const { ++n_pred; return t.key.k % mod == 0; } };
struct Pred2 { template<class T> bool operator()(const T &a, const T &b) const { ++n_pred; return a.key.k == b.key.k; } };
struct Disp { template<class P> void operator()(P) const { ++n_assign; } };

struct R { std::string o; int n, m, d, p, k, h, nb; R(const char *op, int n_ = 0):o(op),n(n_),m(0),d(0),p(0),k(0),h(0),nb(0){}
  R &M(int x) { m = x; return *this; } R &D(int x) { d = x; return *this; } R &P(int x) { p = x; return *this; } R &Kk(int x) { k = x; return *this; } R &Hh(int x) { h = x; return *this; } R &B(int x) { nb = x; return *this; } };
static std::string g_kind; static int g_nl, g_cs, g_cl, g_li, g_x;
template<class F> void meas(const R &r, F f) {
  J j; j.t("t", "W").t("o", r.o).t("c", g_kind).i("nl", g_nl).i("cs", g_cs).i("cl", g_cl).i("li", g_li).i("x", g_x).i("n", r.n).i("m", r.m).i("d", r.d).i("p", r.p).i("k", r.k).i("h", r.h).i("nb", r.nb);
  char src[200]; snprintf(src, sizeof src, "%s n=%d m=%d d=%d p=%d k=%d h=%d nb=%d", r.o.c_str(), r.n, r.m, r.d, r.p, r.k, r.h, r.nb);
  set_pending(j.s + "\t" + src);
  n_alloc = n_copy = n_cmp = n_hash = n_eq = n_pred = n_node = n_assign = 0;
  f();
  long a = n_alloc, c = n_copy, cm = n_cmp, ha = n_hash, e = n_eq, p = n_pred, w = n_node, ds = n_assign;
  clear_pending();
  j.i("w", (int)w).i("f", (int)cm).i("hs", (int)ha).i("e", (int)e).i("pr", (int)p).i("al", (int)a).i("cp", (int)c).i("ds", (int)ds);
  ++out.executed; ++out.opcount[r.o]; out.rec(j.str(), src);
}
inline int clampi(int x, int hi) { return x < 0 ? 0 : x > hi ? hi : x; }
} // namespace vh
using namespace vh;
