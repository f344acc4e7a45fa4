// ALL_REPO
#include "common.hpp"
template <class T> static ProbabilityModel *mk() { return new T(); }
typedef UnbiasedPredictor<2,4,2400> U1; typedef UnbiasedPredictor<2,5,2300> U2; typedef UnbiasedPredictor<2,5,2200> U3; typedef UnbiasedPredictor<2,5,2100> U4;
static ProbabilityModel *make(int c) {
  switch (c) {
    case 0: return giveModelForIntegerCodes(); case 1: return giveModelForGaps(); case 2: return giveProbabilityModel('m'); case 3: return giveProbabilityModel('M');
    case 4: return giveProbabilityModel('u'); case 5: return giveProbabilityModel('b'); case 6: return giveProbabilityModel('B'); case 7: return giveProbabilityModel('n');
    case 8: return mk<FSM6<EvenIntervalPredictor<4>, EvenIntervalPredictor<4>, EvenIntervalPredictor<4> > >(); case 9: return mk<FSM9<U1,U2,U3,U4,U4> >();
    case 10: return mk<AggressiveOnePredictor>(); case 11: return mk<BiasedOnePredictor<4> >(); case 12: return mk<FrequencePredictor<1> >(); case 13: return mk<EvenIntervalPredictor<2> >();
    case 14: return mk<EvenIntervalPredictor<3> >(); case 15: return mk<EvenIntervalPredictor<5> >(); case 16: return mk<EvenIntervalPredictor<8> >(); case 17: return mk<InversePredictor<U1> >();
    case 18: return mk<BiasedOnePredictor<16> >(); case 19: return mk<FrequencePredictor<100> >();
  } return 0; }
static const int K = 20;
static unsigned pr(ProbabilityModel *m) { unsigned p = m->probabilityOfOne(); CHECK(p > 0 && p < 4096, "prediction " << p << " is outside the open range"); return p; }
static void run(int c, const std::vector<byte> &ops) {   // op: 0/1 update, 2/3 updateState, 4 reset
  { std::ostringstream o; o << "model " << c << " ops "; for (size_t i = 0; i < ops.size() && i < 4000; ++i) o << (int)ops[i]; vp::begin(o.str(), ops.size() > 2); }
  ProbabilityModel *a = make(c), *n = make(c); std::vector<unsigned> pa;
  for (size_t i = 0; i < ops.size(); ++i) { byte x = ops[i]; pa.push_back(pr(a)); pr(n); if (x < 2) { a->update(x); n->update(vp::rnd(2)); } else if (x < 4) { a->updateState(x & 1); n->updateState(vp::rnd(2)); } else { a->resetModel(); if (vp::rnd(2)) n->resetModel(); } }
  ProbabilityModel *b = make(c);
  for (size_t i = 0; i < ops.size(); ++i) { byte x = ops[i]; CHECK(pr(b) == pa[i], "after " << i << " operations the second instance predicts " << pr(b) << ", the first " << pa[i]); if (x < 2) b->update(x); else if (x < 4) b->updateState(x & 1); else b->resetModel(); }
  CHECK(pr(a) == pr(b), "final predictions differ");
  delete a; delete b; delete n;
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  for (int c = 0; c < K; ++c) { for (int b = 0; b < 2; ++b) { run(c, std::vector<byte>(20, b)); run(c, std::vector<byte>(400, b)); } run(c, std::vector<byte>()); }
  for (int c = 0; c < K; ++c) { if (c == 3) continue; for (int len = 1; len <= 9; ++len) for (int m = 0; m < (1 << len); ++m) { std::vector<byte> o; for (int i = 0; i < len; ++i) o.push_back((m >> i) & 1); run(c, o); } }
  while (vp::more()) { int c = vp::rnd(K); std::vector<byte> o(vp::rnd(vp::rnd(4) ? 80 : 3000)); int bias = vp::rnd(101), res = vp::rnd(3) ? 0 : vp::rnd(200);
    for (auto &x : o) { if (res && vp::rnd(res) == 0) x = 4; else { x = vp::rnd(100) < (uint64)bias; if (vp::rnd(8) == 0) x += 2; } } run(c, o); }
  return vp::done();
}
