#include "seq.hpp"
#ifndef CFG
#define CFG list_base_safe
#endif
#define STR1(x) #x
#define STR(x) STR1(x)
static IV parse_keys(const std::string &s) { IV k; for (char c : s) if (c >= '0' && c <= '9') k.push_back(c - '0'); return k; }
int main(int argc, char **argv) {
  Args a = parse(argc, argv); out.f = a.file.empty() ? stdout : fopen(a.file.c_str(), "w"); out.cfg = STR(CFG); install_handlers();
  Seq<CFG> s; s.cfgname = STR(CFG);
  if (a.mode == "bfs") { IV k = parse_keys(a.profile.empty() ? "1122" : a.profile); s.bfs((int)k.size(), k, a.budget); }
  else if (a.mode == "script") { std::ifstream in(a.script.c_str()); s.script(parse_keys(a.profile.empty() ? "1122" : a.profile), in); }
  else if (a.mode == "random") s.random(a.n, a.keys, a.seed, a.budget);
  return finish();
}
