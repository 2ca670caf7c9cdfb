// C12: random histories of setter calls; after each call every getter must show what the documented ranges say
#include <functional>
#include <unistd.h>
#include <fcntl.h>
template <class C, class B, class R, class T> double call(C &o, R (B::*f)(T), double v, double &conv) { typedef typename std::decay<T>::type V; V w = static_cast<V>(v); conv = (double)w; (o.*f)(w); return conv; }
struct AnyGenerator : CglCutGenerator { void generateCuts(const OsiSolverInterface &, OsiCuts &, const CglTreeInfo) override {} CglCutGenerator *clone() const override { return new AnyGenerator(*this); } };
struct Step { int k; double v; };
struct Cls { std::string name; virtual ~Cls() {} virtual int size() = 0; virtual std::string setter(int) = 0; virtual std::string run(const std::vector<Step> &) = 0; };
template <class C> struct ClsT : Cls {
  struct E { std::string set, field; double (*call)(C &, double, double &); bool (*cond)(double); double (*val)(double); double (*get)(C &); double (*gv)(double); };
  std::vector<E> es;
  explicit ClsT(const char *n) { name = n; }
  void add(const char *s, const char *f, double (*c)(C &, double, double &), bool (*co)(double), double (*v)(double), double (*g)(C &), double (*gv)(double)) { es.push_back({ s, f, c, co, v, g, gv }); }
  int size() override { return (int)es.size(); }
  std::string setter(int k) override { return es[k].set; }
  std::string run(const std::vector<Step> &h) override {
    C o; std::vector<double> expect(es.size());
    for (size_t i = 0; i < es.size(); ++i) expect[i] = es[i].get ? es[i].get(o) : 0;
    for (auto &st : h) {
      E &e = es[st.k]; double w = st.v; bool threw = false;
      try { e.call(o, st.v, w); } catch (CoinError &) { threw = true; }
      bool ok = threw ? false : e.cond(w);
      if (threw && e.cond(w)) return e.set + " rejects a value inside its documented range by throwing";
      if (ok) for (size_t i = 0; i < es.size(); ++i) if (es[i].field == e.field) expect[i] = es[i].gv(e.val(w));
      for (size_t i = 0; i < es.size(); ++i) if (es[i].get) { double g = es[i].get(o); if (g != expect[i]) { std::ostringstream s; s.precision(17); s << "after " << e.set << "(" << st.v << ") the value of " << es[i].field << " (getter of " << es[i].set << ") is " << g << ", expected " << expect[i]; return s.str(); } }
    }
    return "";
  }
};
static std::vector<Cls *> all();
static int params_main(int argc, char **argv) {
  int out = dup(1); int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); dup2(nul, 2);
  auto say = [&](const std::string &s) { (void)!write(out, s.data(), s.size()); };
  auto cs = all();
  if (argc > 3 && std::string(argv[2]) == "--replay") {
    std::ifstream in(argv[3]); std::string l; Cls *c = nullptr; std::vector<Step> h;
    while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream s(l); std::string a; s >> a; if (a == "class") { s >> a; for (auto x : cs) if (x->name == a) c = x; } else if (c) { std::string v; s >> v; for (int k = 0; k < c->size(); ++k) if (c->setter(k) == a) h.push_back({ k, strtod(v.c_str(), 0) }); } }
    std::string r = c ? c->run(h) : ""; say(r.empty() ? "no violation\n" : r + "\n"); return r.empty() ? 0 : 1;
  }
  uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]); long calls = 0;
  const double V[] = { -1e9, -2, -1, -1e-9, 0, 1e-12, 1e-8, 1.5e-8, 1e-5, 0.05, 0.1, 0.1000001, 0.2, 0.25, 0.2500001, 0.3, 0.5, 0.5000001, 0.75, 0.999, 1, 1.0000001, 1.5, 2, 3, 4, 10, 11, 12, 100, 1e5, 1e9 };
  std::string sample;
  for (int i = 0; i < count; ++i) {
    Rng r(seed * 1000003ULL + i); Cls *c = cs[r.in(0, (int)cs.size() - 1)]; std::vector<Step> h; int len = r.in(1, 12);
    for (int k = 0; k < len; ++k) h.push_back({ r.in(0, c->size() - 1), V[r.in(0, (int)(sizeof V / sizeof *V) - 1)] });
    calls += len;
    std::string why = c->run(h);
    auto txt = [&]() { std::ostringstream t; t.precision(17); t << "class " << c->name << "\n"; for (auto &s : h) t << c->setter(s.k) << " " << s.v << "\n"; return t.str(); };
    if (sample.empty()) { sample = txt(); for (auto &ch : sample) if (ch == '\n') ch = ';'; }
    if (!why.empty()) {
      // drop steps that are not needed
      for (size_t k = 0; k < h.size();) { auto g = h; g.erase(g.begin() + k); if (!c->run(g).empty()) h = g; else ++k; }
      say("# " + c->run(h) + "\n" + txt()); return 1;
    }
  }
  say("sample " + sample + "\n");
  std::ostringstream t; t << "explored " << count << " instances, " << calls << " cuts checked, bad 0\n"; say(t.str()); return 0;
}
