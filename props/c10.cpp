// ALL_REPO
#include "common.hpp"
#include <sys/wait.h>
static void valid(FrequencyTable &t, const std::vector<uint64> &f, const std::vector<bool> &gone) {
  size_t live = std::count(gone.begin(), gone.end(), false); CHECK(t.size() == live, "size " << t.size() << " instead of " << live);
  std::vector<bool> seen(256); uint64 prev = 0;
  for (size_t i = 0; i < live; ++i) { byte k = t.getKey(i); CHECK(!seen[k] && !gone[k], "symbol " << (int)k << " listed wrongly at rank " << i); seen[k] = true; CHECK(t.getFrequency(i) == f[k], "frequency of rank " << i << " (symbol " << (int)k << ") is " << t.getFrequency(i) << " instead of " << f[k]); CHECK(t.getFrequencyWithKey(k) == f[k], "frequency of symbol " << (int)k << " is " << t.getFrequencyWithKey(k) << " instead of " << f[k]); CHECK(f[k] >= prev, "order at rank " << i); prev = f[k]; }
  for (int s = 0; s < 256; ++s) CHECK(gone[s] || seen[s], "symbol " << s << " missing");
}
static std::string hist; static void note(std::ostringstream &l) { hist += l.str(); l.str(""); if (hist.size() > 6000) hist.erase(0, 3000); vp::describe("history " + hist); }
static uint64 val(int style) { return style == 0 ? vp::rnd(3) : style == 1 ? vp::rnd(1000000) : style == 2 ? 7 : style == 3 ? vp::rndbits(35) : (vp::rnd(20) ? 0 : vp::rnd(500)); }
static void history(int style, int ops, int vs) {
  uint64 sd = vp::s0; { std::ostringstream o; o << "history style " << style << "/" << vs << " ops " << ops << " state " << sd; vp::begin(o.str()); }
  std::vector<uint64> f(256); std::vector<bool> gone(256); size_t a[256]; for (int i = 0; i < 256; ++i) a[i] = f[i] = style == 5 ? 0 : style == 6 ? i : style == 7 ? 255 - i : val(style);
  FrequencyTable *t = style == 5 ? new FrequencyTable() : new FrequencyTable(a); valid(*t, f, gone);
  std::ostringstream log; hist = "";
  for (int i = 0; i < ops; ++i) {
    byte k = vp::rnd(10) ? vp::rnd(256) : t->getKey(vp::rnd(2) ? 0 : t->size() - 1); if (gone[k]) continue; uint64 v;
    switch (vp::rnd(12)) {
      case 0: case 1: case 2: case 3: case 4: v = vp::rnd(6) ? val(vs) : t->getFrequency(t->size() - 1) - f[k] + vp::rnd(2); if (f[k] + v >= (1ull << 40)) break; log << "+" << (int)k << "," << v << " "; note(log); t->increase(k, v); f[k] += v; break;
      case 5: case 6: case 7: case 8: case 9: v = vp::rnd(6) ? (vp::rnd(2) ? val(vs) % (f[k] + 1) : vp::rnd(f[k] + 1)) : f[k]; log << "-" << (int)k << "," << v << " "; note(log); CHECK(t->decrease(k, v), "decrease refused"); f[k] -= v; break;
      case 10: if (vp::rnd(8) == 0 && t->size() > 2 && style != 5) { log << "x" << (int)k << " "; note(log); t->remove(k); gone[k] = true; } break;
      default: { FrequencyTable *u = new FrequencyTable(*t); FrequencyTable w; w = *t; valid(w, f, gone); valid(*u, f, gone); delete t; t = u; }
    }
    if (vp::rnd(ops < 60 ? 1 : 16) == 0) valid(*t, f, gone);
  }
  valid(*t, f, gone); delete t;
}
static void refuse() {
  vp::begin("decrease below zero"); size_t a[256]; for (int i = 0; i < 256; ++i) a[i] = i; int fd[2]; if (pipe(fd)) return; pid_t p = fork();
  if (p == 0) { close(2); signal(SIGABRT, SIG_DFL); alarm(5); FrequencyTable t(a); bool ok = t.decrease(10, 11); bool same = t.getFrequencyWithKey(10) == 10 && t.getFrequency(10) == 10; _exit(ok || !same ? 3 : 0); }
  int st; waitpid(p, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 3), "a decrease below zero was accepted"); close(fd[0]); close(fd[1]);
}
int main(int argc, char **argv) {
  vp::setup(argc, argv); refuse();
  for (int s = 0; s < 8; ++s) for (int v = 0; v < 4; ++v) { history(s, 40, v); history(s, 400, v); }
  for (int i = 0; i < 20 || vp::more(); ++i) history(vp::rnd(8), vp::rnd(5) ? 50 : 3000, vp::rnd(5));
  return vp::done();
}
