// Bucket arithmetic of the unordered containers on the whole machine-word range: suggested bucket counts and
// the bucket chosen for boundary and random hash values with every supported bucket count. Bucket arrays too big
// for the memory are mapped many times onto the same pages: the containers stay empty and only compute indices.
#include "common.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
namespace bi = boost::intrusive;
using namespace vh;
typedef unsigned long long u64; typedef unsigned __int128 u128;
struct K { u64 v; };
struct KHash { std::size_t operator()(const K &k) const { return (std::size_t)k.v; } std::size_t operator()(u64 k) const { return (std::size_t)k; } };
struct KEq { bool operator()(const K &a, const K &b) const { return a.v == b.v; } };
template<class H> struct V : H, K { friend bool operator==(const V &a, const V &b) { return a.v == b.v; } };
typedef bi::unordered_set_base_hook<bi::link_mode<bi::normal_link> > HN;
typedef bi::unordered_set_base_hook<bi::link_mode<bi::normal_link>, bi::store_hash<true>, bi::optimize_multikey<true> > HS;
#define FUN bi::hash<KHash>, bi::equal<KEq>
struct num_mod { static const char *m() { return "mod"; } typedef bi::hashtable<V<HN>, FUN> C; enum { inc = 0 }; };
struct num_modu { static const char *m() { return "mod"; } typedef bi::hashtable<V<HS>, FUN, bi::size_type<unsigned int> > C; enum { inc = 0 }; };
struct num_modc { static const char *m() { return "mod"; } typedef bi::unordered_multiset<V<HS>, FUN, bi::size_type<unsigned char> > C; enum { inc = 0 }; };
struct num_p2 { static const char *m() { return "p2"; } typedef bi::hashtable<V<HN>, FUN, bi::power_2_buckets<true> > C; enum { inc = 0 }; };
struct num_p2s { static const char *m() { return "p2"; } typedef bi::unordered_set<V<HS>, FUN, bi::power_2_buckets<true>, bi::cache_begin<true>, bi::size_type<unsigned short> > C; enum { inc = 0 }; };
struct num_inc { static const char *m() { return "inc"; } typedef bi::hashtable<V<HN>, FUN, bi::incremental<true> > C; enum { inc = 1 }; };
struct num_incs { static const char *m() { return "inc"; } typedef bi::unordered_multiset<V<HS>, FUN, bi::incremental<true>, bi::size_type<unsigned int> > C; enum { inc = 1 }; };
struct num_fm { static const char *m() { return "fm"; } typedef bi::hashtable<V<HN>, FUN, bi::fastmod_buckets<true> > C; enum { inc = 0 }; };
struct num_fms { static const char *m() { return "fm"; } typedef bi::unordered_multiset<V<HS>, FUN, bi::fastmod_buckets<true>, bi::cache_begin<true>, bi::size_type<unsigned short> > C; enum { inc = 0 }; };
struct num_fmu { static const char *m() { return "fm"; } typedef bi::unordered_set<V<HS>, FUN, bi::fastmod_buckets<true>, bi::size_type<unsigned int> > C; enum { inc = 0 }; };
struct num_fmc { static const char *m() { return "fm"; } typedef bi::unordered_multiset<V<HN>, FUN, bi::fastmod_buckets<true>, bi::size_type<unsigned char> > C; enum { inc = 0 }; };
#ifndef CFG
#define CFG num_fm
#endif

static IV limbs(u64 x) { IV v; do { v.push_back((int)(x & 32767)); x >>= 15; } while (x); return v; }

template<class F> struct Num {
  typedef typename F::C C; typedef typename C::size_type SZ; typedef typename C::bucket_type BT; typedef typename C::bucket_traits TR;
  Rng g; long budget; std::vector<u64> S; std::vector<IV> SL; bool deep;
  Num(unsigned seed, long b, bool d):g(seed),budget(b),deep(d) {}
  u64 r64() { u64 x = ((u64)g.next() << 48) ^ ((u64)g.next() << 24) ^ g.next(); int s = g.below(64); return g.below(2) ? x : x >> s; }
  void pend(const char *t, const std::string &what) { set_pending("{\"t\":\"" + std::string(t) + "\"\t" + out.cfg + " " + what); }
  void suggested() {
    pend("U", "chain of suggested_upper_bucket_count from 0");
    u64 n = 0; for (int i = 0; i < 200; ++i) { u64 u = (u64)C::suggested_upper_bucket_count((SZ)n); if (u <= n) break; S.push_back(u); SL.push_back(limbs(u)); n = u; }
    std::vector<u64> ns; u64 mx = (u64)(SZ)-1;
    for (int i = 0; i < 12; ++i) ns.push_back(i);
    for (u64 s : S) for (int d = -1; d <= 1; ++d) ns.push_back(s + d);
    for (int i = 0; i < 64; ++i) for (int d = -1; d <= 1; ++d) ns.push_back(((u64)1 << i) + d);
    for (int d = 0; d < 4; ++d) ns.push_back(mx - d);
    for (int i = 0; i < 200; ++i) ns.push_back(r64());
    for (u64 x : ns) { if (x > mx) continue; char b[40]; sprintf(b, "%llu", x); pend("U", std::string("suggested counts of ") + b); ++out.executed; ++out.opcount["suggested"];
      u64 lo = (u64)C::suggested_lower_bucket_count((SZ)x), up = (u64)C::suggested_upper_bucket_count((SZ)x);
      J j; j.t("t", "U").v("n", limbs(x)).v("lo", limbs(lo)).v("up", limbs(up)).vv("s", SL); out.rec(j.str(), out.cfg + " suggested counts of " + b); }
    clear_pending();
  }
  u64 fold(u64 h) { return (h + (h >> 32)) & 0xffffffffu; }
  std::vector<u64> hashes(u64 bc) {
    std::vector<u64> h; const u64 top = ~(u64)0, w32 = 0xffffffffu;
    for (int d = 0; d < 3; ++d) { h.push_back(d); h.push_back(top - d); h.push_back(w32 - d); h.push_back(w32 + d); h.push_back(w32 << 32 | d); h.push_back((u64)1 << 63 | d); }
    u64 qs[] = { 1, 2, 3, w32 / bc, w32 / bc / 2, w32 / bc / 3 + 1, w32 / bc > 1 ? w32 / bc - 1 : 0, top / bc, top / bc - 1, (top / bc) / 2, g.next(), g.next() };
    for (u64 q : qs) { if (q > top / bc) q = top / bc; for (int d = -1; d <= 1; ++d) h.push_back(q * bc + d); h.push_back(q * bc + bc / 2); }
    for (int i = 0; i < (deep ? 150 : 25); ++i) { u64 q = r64() % (w32 / bc + 1); for (int d = -1; d <= 1; ++d) h.push_back(q * bc + d); u64 lo = g.next(), hi = g.next(); h.push_back(hi << 32 | lo); h.push_back(r64());
      u64 t = q * bc; h.push_back(((t - lo) & w32) << 32 | lo); }  // halves adding up to a multiple of the bucket count
    return h;
  }
  void pos(C &c, u64 n, u64 sp, const std::vector<u64> &hs) {
    u64 bc = (u64)c.bucket_count(); bool fm = std::string(F::m()) == "fm";
    { J j; j.t("t", "W").v("n", limbs(n)).v("bc", limbs(bc)); out.rec(j.str(), out.cfg + " bucket_count"); }
    if (!bc) return;
    for (u64 h : hs) {
      char b[100]; sprintf(b, "%s bucket of hash %llu among %llu (split %llu)", out.cfg.c_str(), h, bc, sp);
      set_pending(std::string("{\"t\":\"P\"\t") + b);
      typename C::value_type k; k.v = h; u64 p = (u64)c.bucket(k), p2 = (u64)c.bucket(h, KHash()); ++out.executed; ++out.opcount["bucket"];
      if (p != p2) p = ~(u64)0;
      u64 w = fm ? fold(h) : h;
      J j; j.t("t", "P").t("m", F::m()).v("bc", limbs(bc)).v("sp", limbs(sp)).v("hb", limbs(bc / 2)).v("h", limbs(h)).v("h0", limbs(h & 0xffffffffu)).v("h1", limbs(h >> 32)).v("w", limbs(w)).v("q", limbs(w / bc)).v("x", limbs(w % bc)).v("b", limbs(p));
      out.rec(j.str(), b);
    }
    clear_pending();
  }
  // n buckets backed by one chunk of memory mapped repeatedly
  struct Arr { void *p; size_t len; };
  bool map(u64 n, Arr &a) {
    const size_t chunk = (size_t)1 << 26; size_t len = ((size_t)n * sizeof(BT) + 4095) / 4096 * 4096; a.len = len;
    static int fd = -1; if (fd < 0) { fd = memfd_create("buckets", 0); if (fd < 0 || ftruncate(fd, chunk)) return false; }
    a.p = mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a.p == MAP_FAILED) return false;
    for (size_t o = 0; o < len; o += chunk) if (mmap((char*)a.p + o, std::min(chunk, len - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(a.p, len); return false; }
    return true;
  }
  void with(u64 n, int split) {
    if (n > (u64)(SZ)-1) return;
    char b[60]; sprintf(b, "construct with %llu buckets", n); pend("P", b);
    Arr a; if (!map(n, a)) { ++out.opcount["unmapped"]; clear_pending(); return; }
    if (n > 50000000) clear_pending();  // initialising the buckets takes seconds: not a hang
    alignas(C) static char mem[sizeof(C)];
    C *c = new (mem) C(TR((BT*)a.p, (SZ)n));  // never destroyed: its buckets alias each other
    clear_pending();
    pos(*c, n, split == 1 ? n / 2 : n, hashes(n));
    ++out.opcount["tables"]; munmap(a.p, a.len);
  }
  void splits(std::true_type) {
    // every split of the linear hashing rule, reached by stepping an empty container
    for (u64 n = 2; n <= (deep ? 4096u : 256u); n *= 2) {
      if (n > (u64)(SZ)-1) break;
      std::vector<BT> bk(n); C c(TR(bk.data(), (SZ)n));
      for (u64 st = 0; st <= n / 2; ++st) {
        std::vector<u64> hs; u64 sp = (u64)c.split_count();
        hs.push_back(sp); hs.push_back(sp - 1); hs.push_back(sp + 1); hs.push_back(n - 1); hs.push_back(n); hs.push_back(sp + n * (g.next() % 1000)); hs.push_back(sp - 1 + n * (u64)g.next()); hs.push_back(r64()); hs.push_back(~(u64)0);
        { J j; j.t("t", "W").v("n", limbs(n / 2 + st)).v("bc", limbs(sp)); out.rec(j.str(), out.cfg + " split_count after a step"); }
        pos(c, n, sp, hs); pend("P", "incremental_rehash step");
        if (st < n / 2) { if (!c.incremental_rehash(true)) { J j; j.t("t", "W").v("n", limbs(1)).v("bc", limbs(0)); out.rec(j.str(), out.cfg + " incremental_rehash refused"); } } clear_pending();
      }
    }
  }
  void splits(std::false_type) {}
  void run(u64 cap) {
    suggested();
    std::vector<u64> ns; std::string m = F::m();
    if (m == "p2" || m == "inc") { for (int i = 0; i < 40; ++i) ns.push_back((u64)1 << i); } else ns = S;
    if (m == "mod") { u64 extra[] = { 1, 2, 4, 5, 6, 8, 9, 10, 12, 100, 127, 128, 255, 256, 1000, 65535, 65536, 99999 }; for (u64 e : extra) ns.push_back(e); }
    for (u64 n : ns) { if (n > cap) continue; if (m == "mod" && n == (u64)(SZ)-1 && n > 65536) continue; with(n, m == "inc" ? 1 : 0); }
    splits(std::integral_constant<bool, F::inc>());
  }
};
#define STR1(x) #x
#define STR(x) STR1(x)
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = a.file.empty() ? stdout : fopen(a.file.c_str(), "w"); out.cfg = STR(CFG); install_handlers();
  Num<CFG> n(a.seed, a.budget, a.mode == "deep"); n.run((u64)a.budget); return finish();
}
