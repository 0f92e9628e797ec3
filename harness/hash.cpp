// internal assertions of the library call user functors; VH_ASSERTS builds enable them but then inject no exceptions
#ifndef VH_ASSERTS
#define BOOST_DISABLE_ASSERTS
#endif
#include "hash.hpp"
#ifndef CFG
#define CFG mod_tab
#endif
#define STR1(x) #x
#define STR(x) STR1(x)
static IV parse_keys(const std::string &s) { IV k; for (char c : s) if (c >= '0' && c <= '9') k.push_back(c - '0'); return k; }
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = a.file.empty() ? stdout : fopen(a.file.c_str(), "w"); out.cfg = STR(CFG); install_handlers();
  Hash<CFG> s; IV k = parse_keys(a.profile.empty() ? "1132" : a.profile);
  if (a.mode == "bfs") s.bfs((int)k.size(), k, a.n, a.budget);
  else if (a.mode == "script") { std::ifstream in(a.script.c_str()); s.script(k, in); }
  else if (a.mode == "random") s.random(a.n, a.keys, a.seed, a.budget);
  return finish();
}
