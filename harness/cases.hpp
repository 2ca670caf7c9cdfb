// common main: random cases identified by (seed, index); a replay file holds a line "case SEED INDEX"
#ifndef VERIF_CASES_HPP
#define VERIF_CASES_HPP
#include "mip.hpp"
#include <unistd.h>
#include <fcntl.h>
static std::string g_case;      // description of the current case, filled by runCase
static long g_checked = 0;      // comparisons made
static std::string runCase(Rng &r);   // "" or what went wrong
static int cases_main(int argc, char **argv) {
  int out = dup(1); int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1);
  auto say = [&](const std::string &s) { (void)!write(out, s.data(), s.size()); };
  auto one = [&](uint64_t seed, uint64_t i) { Rng r(seed * 1000003ULL + i); g_case.clear(); alarm(120); return runCase(r); };
  if (argc > 3 && std::string(argv[2]) == "--replay") {
    std::ifstream in(argv[3]); std::string l;
    while (std::getline(in, l)) { std::istringstream s(l); std::string a; uint64_t x, y; if (s >> a && a == "case" && s >> x >> y) { std::string w = one(x, y); say(w.empty() ? "no violation\n" : w + "\n" + g_case + "\n"); return w.empty() ? 0 : 1; } }
    return 2;
  }
  if (argc < 4) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]); std::string sample;
  const char *tr = getenv("DRIVE_TRACE");
  for (int i = 0; i < count; ++i) {
    if (tr) { FILE *f = fopen(tr, "w"); if (f) { fprintf(f, "case %llu %d\n", (unsigned long long)seed, i); fclose(f); } }
    std::string why = one(seed, i);
    if (sample.empty() && i > 3) { sample = g_case; for (auto &c : sample) if (c == '\n') c = ';'; }
    if (!why.empty()) {
      std::ostringstream t; std::istringstream ls(why + "\n" + g_case); std::string l; while (std::getline(ls, l)) t << "# " << l << "\n";
      t << "case " << seed << " " << i << "\n"; say(t.str()); return 1;
    }
  }
  std::ostringstream t; t << "sample " << sample << "\nexplored " << count << " instances, " << g_checked << " cuts checked, bad 0\n"; say(t.str());
  return 0;
}
#endif
