// Shared machinery of the conformance drivers: records, crash capture, exploration.
// Every driver executes real Boost.Intrusive containers, projects the state through the public
// interface, and writes canonicalised transition / observation / work records for TLC.
#ifndef VH_COMMON_HPP
#define VH_COMMON_HPP
#include <boost/intrusive/link_mode.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <new>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>

// ---------------------------------------------------------------- assertion routing
namespace vh { void lib_assert(const char *expr, const char *file, int line); }
#define BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
void assertion_failed(char const *expr, char const *function, char const *file, long line);
void assertion_failed_msg(char const *expr, char const *msg, char const *function, char const *file, long line);
}
namespace vh {
// safe-mode assertions are routed separately, so that misuse detection is observable
void safe_assert(bool ok, int which);
}
#define BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(cond) ::vh::safe_assert((cond), 1)
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT(cond) ::vh::safe_assert((cond), 2)

namespace vh {

typedef std::vector<int> IV;
struct Op { std::string o; IV g; Op(){} Op(const std::string &s, const IV &v = IV()):o(s),g(v){} };

extern long n_alloc;           // global operator new calls
extern long n_copy, n_assign;  // user object copies
extern long n_cmp, n_hash, n_eq, n_pred;   // functor calls
extern long n_node;            // node_traits accesses (instrumented traits only)
extern long throw_at;          // throw when this many functor calls have been made (0: never)
extern int  safe_hits[3];
struct Boom {};
inline void tick(long &ctr) { ++ctr; if (throw_at && --throw_at == 0) throw Boom(); }

void set_pending(const std::string &rec);  // what to report if the next call crashes
void clear_pending();
void install_handlers();

struct Out {
  std::unordered_set<std::string> seen;
  std::map<std::string,long> opcount;      // API variants executed
  long executed; FILE *f; std::string cfg;
  Out():executed(0),f(0){}
  // json: record; src: how to reproduce (variant op)
  void rec(const std::string &json, const std::string &src) {
    if (seen.insert(json).second) { fputs(json.c_str(), f); fputc('\t', f); fputs(src.c_str(), f); fputc('\n', f); }
  }
};
extern Out out;

extern std::string obs_mask;   // record types to observe (empty: all); transitions are always recorded
extern int with_throws;
inline bool on(char t) { return obs_mask.empty() || obs_mask.find(t) != std::string::npos; }
inline bool asked(char t) { return obs_mask.find(t) != std::string::npos; }   // only when named
inline void put(std::string &s, int v) { char b[16]; snprintf(b, sizeof b, "%d", v); s += b; }
inline void put(std::string &s, const IV &v) { s += '['; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; put(s, v[i]); } s += ']'; }
struct J {  // tiny JSON object writer
  std::string s; bool first; J():s("{"),first(true){}
  void key(const char *k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  J &i(const char *k, int v) { key(k); put(s, v); return *this; }
  J &v(const char *k, const IV &v) { key(k); put(s, v); return *this; }
  J &vv(const char *k, const std::vector<IV> &m) { key(k); s += '['; for (size_t x = 0; x < m.size(); ++x) { if (x) s += ','; put(s, m[x]); } s += ']'; return *this; }
  J &t(const char *k, const std::string &v) { key(k); s += '"'; s += v; s += '"'; return *this; }
  std::string str() const { return s + "}"; }
};
inline std::string show(const Op &op) { std::string s = op.o; for (size_t i = 0; i < op.g.size(); ++i) { s += ' '; put(s, op.g[i]); } return s; }

struct Rng { unsigned long long s; explicit Rng(unsigned long long x):s(x*6364136223846793005ULL+1442695040888963407ULL){ next(); next(); }
  unsigned next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 11); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned)n); } };

// poison used by disposers for dead objects
enum { POISON = 0xEE };

struct Args { std::string mode; int n; long budget; unsigned seed; std::string file; std::string profile; int keys; std::string cfg, script; };
Args parse(int argc, char **argv);

inline int finish() { fprintf(stderr, "executed %ld recorded %zu\n", out.executed, out.seen.size()); for (auto &p : out.opcount) fprintf(stderr, "op %s %ld\n", p.first.c_str(), p.second); fclose(out.f); return 0; }
} // namespace vh

// ---------------------------------------------------------------- definitions (one TU per binary)
namespace vh {
long n_alloc, n_copy, n_assign, n_cmp, n_hash, n_eq, n_pred, n_node, throw_at;
int safe_hits[3];
Out out; std::string obs_mask; int with_throws = 1;
static char pending[1<<16]; static volatile int pending_len; static volatile long op_seq; static long last_seq = -1; static int same_ticks;
void set_pending(const std::string &r) { size_t n = r.size() < sizeof pending - 64 ? r.size() : sizeof pending - 64; pending_len = 0; memcpy(pending, r.data(), n); pending_len = (int)n; ++op_seq; }
void clear_pending() { pending_len = 0; ++op_seq; }
static int misuse_pipe = -1;   // >=0: in a child that provokes a misuse: the outcome goes to the parent
static void die(const char *what) {
  if (misuse_pipe >= 0) { char c = 'X'; if (write(misuse_pipe, &c, 1) < 0) {} _exit(0); }
  // pending has the form <json-without-closing-brace>\t<src>; report the outcome as field "z"
  fflush(out.f);
  int n = pending_len; int fd = fileno(out.f);
  char tail[64];
  if (n) {
    char *tab = (char*)memchr(pending, '\t', n); int jl = tab ? (int)(tab - pending) : n;
    int m = snprintf(tail, sizeof tail, ",\"z\":\"%s\"}", what);
    if (write(fd, pending, jl) < 0 || write(fd, tail, m) < 0) {}
    if (tab) { if (write(fd, tab, n - jl) < 0) {} }
    if (write(fd, "\n", 1) < 0) {}
  } else {
    int m = snprintf(tail, sizeof tail, "{\"t\":\"Z\",\"z\":\"%s\"}\tunknown\n", what);
    if (write(fd, tail, m) < 0) {}
  }
  _exit(0);
}
static int in_const;  // set while the state region is read-only and only const members run
static void on_sig(int s, siginfo_t *si, void *) { if (in_const && s == SIGSEGV && si && si->si_code == SEGV_ACCERR) die("constwrite"); die(s == SIGSEGV || s == SIGBUS ? "segv" : s == SIGABRT ? "abort" : s == SIGFPE ? "fpe" : "sig"); }
static void on_tick(int) { if (misuse_pipe >= 0) die("hang"); if (op_seq == last_seq && pending_len) { if (++same_ticks >= 6) die("hang"); } else { same_ticks = 0; last_seq = op_seq; } }
void install_handlers() {
  static char *stk = (char*)mmap(0, 1<<17, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = 1<<17; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
  sa.sa_flags = SA_ONSTACK; sa.sa_handler = on_tick; sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
}
void safe_assert(bool ok, int which) {
  if (ok) return;
  ++safe_hits[which];
  if (misuse_pipe >= 0) { char c = (char)('0' + which); if (write(misuse_pipe, &c, 1) < 0) {} _exit(0); }
  die(which == 1 ? "safe_insert" : "safe_destroy");
}
// Runs f in a child process: '1'/'2' an insertion/destruction misuse assertion fired, 'N' none did, 'A' f does not apply, 'X' it crashed or hung
template<class F> char probe(F f) {
  int p[2]; if (pipe(p)) abort(); pid_t c = fork(); if (c < 0) abort();
  if (!c) { close(p[0]); misuse_pipe = p[1]; struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 60000; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
    char r = f() ? 'N' : 'A'; if (write(p[1], &r, 1) < 0) {} _exit(0); }
  close(p[1]); char r = 'X'; while (read(p[0], &r, 1) < 0 && errno == EINTR) {} close(p[0]); int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} return r;
}
Args parse(int argc, char **argv) {
  Args a; a.mode = "bfs"; a.n = 4; a.budget = 1000; a.seed = 1; a.keys = 2;
  for (int i = 1; i + 1 < argc; i += 2) { std::string k = argv[i], v = argv[i+1];
    if (k == "--mode") a.mode = v; else if (k == "--n") a.n = atoi(v.c_str()); else if (k == "--budget") a.budget = atol(v.c_str());
    else if (k == "--seed") a.seed = (unsigned)atol(v.c_str()); else if (k == "--file") a.file = v; else if (k == "--profile") a.profile = v;
    else if (k == "--keys") a.keys = atoi(v.c_str()); else if (k == "--cfg") a.cfg = v; else if (k == "--script") a.script = v; else if (k == "--obs") obs_mask = v; else if (k == "--throws") with_throws = atoi(v.c_str()); }
  return a;
}
// an iterator made by assignment over an object with arbitrary former contents
template<class I> I asg(const I &x) { I p(x); memset((void*)&p, 0xA5, sizeof p); p = x; return p; }
// stateful value traits: only the traits object knows where in the value the node is
template<class V, class NT, boost::intrusive::link_mode_type LM = boost::intrusive::normal_link> struct StTr {
  typedef NT node_traits; typedef typename NT::node node; typedef typename NT::node_ptr node_ptr; typedef typename NT::const_node_ptr const_node_ptr; typedef V value_type; typedef V *pointer; typedef const V *const_pointer; typedef V &reference; typedef const V &const_reference;
  static const boost::intrusive::link_mode_type link_mode = LM; std::ptrdiff_t d; explicit StTr(std::ptrdiff_t x) : d(x) {}
  node_ptr to_node_ptr(V &v) const { return (node*)((char*)&v + d); } const_node_ptr to_node_ptr(const V &v) const { return (const node*)((const char*)&v + d); }
  pointer to_value_ptr(node_ptr n) const { return (V*)((char*)&*n - d); } const_pointer to_value_ptr(const_node_ptr n) const { return (const V*)((const char*)&*n - d); } };
template<class N, class Algo> struct StHook : N { StHook() { Algo::init(this); } bool is_linked() const { return !Algo::unique(this); } };
}
namespace boost {
void assertion_failed(char const *e, char const *, char const *f, long l) { fprintf(stderr, "assertion %s at %s:%ld\n", e, f, l); ::vh::die("assert"); }
void assertion_failed_msg(char const *e, char const *, char const *, char const *f, long l) { fprintf(stderr, "assertion %s at %s:%ld\n", e, f, l); ::vh::die("assert"); }
}
void *operator new(std::size_t n) { ++vh::n_alloc; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
#endif
