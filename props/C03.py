from cbmc import Group
from check import Native

LEVEL = "proof"
EXTRA_TU = """
namespace bwtc {
template class FSM6<EvenIntervalPredictor<4>, EvenIntervalPredictor<4>, EvenIntervalPredictor<4> >;
template class FSM9<UnbiasedPredictor<2,4,2400>, UnbiasedPredictor<2,5,2300>, UnbiasedPredictor<2,5,2200>, UnbiasedPredictor<2,5,2100>, UnbiasedPredictor<2,5,2048> >;
template class FrequencePredictor<1>;
template class FrequencePredictor<100>;
template class BiasedOnePredictor<4>;
template class BiasedOnePredictor<16>;
template class EvenIntervalPredictor<8>;
}
"""
EXPLANATION = ("Object invariant per model class, established by the constructor and preserved by update, updateState and resetModel from every state that "
               "satisfies it; legality of the prediction and lockstep of two instances (self-composition with arbitrary static state) are "
               "postconditions.  Histories of any length follow by induction on the invariant.")
TRUSTED = ["std::vector of predictors modelled as a fixed array with its length (element constructors are the extracted ones)",
           "std::fill is used through its contract in the table-based model"]
ASSUMPTIONS = ["FrequencePredictor (not reachable from any model choice) is covered by the native stand-in only", "table-based model: the invariant on the table is instantiated at the addressed entry and at one arbitrary other entry"]
NATIVE = Native("c03.cpp", seconds=6, thorough_seconds=90, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random histories up to 3000 operations per model choice, address and undefined-behaviour sanitizers on")

U = "bwtc::UnbiasedPredictor<%s>"
FSM8 = "bwtc::FSM8<bwtc::UnbiasedPredictor<2, 4, 2400>, bwtc::UnbiasedPredictor<2, 5, 2300>, bwtc::UnbiasedPredictor<2, 5, 2200>, bwtc::UnbiasedPredictor<2, 5, 2100>>"
FSM9 = "bwtc::FSM9<bwtc::UnbiasedPredictor<2, 4, 2400>, bwtc::UnbiasedPredictor<2, 5, 2300>, bwtc::UnbiasedPredictor<2, 5, 2200>, bwtc::UnbiasedPredictor<2, 5, 2100>, bwtc::UnbiasedPredictor<2, 5, 2048>>"
FSM6 = "bwtc::FSM6<bwtc::EvenIntervalPredictor<4>, bwtc::EvenIntervalPredictor<4>, bwtc::EvenIntervalPredictor<4>>"


def rng(e, lo):
    return "%s >= %d && %s <= %d" % (e, lo, e, 4096 - lo)


def even(e, m=4):
    return "%s >= %d && %s <= %d && %s %% %d == 0" % (e, 4096 // m, e, 4096 - 4096 // m, e, 4096 // m)


def fsm_valid(n, ok):
    return "m->m_currentState < %d && m->m_states.n == %d && %s" % (
        n, n, " && ".join(ok("m->m_states.d[%d].m_probabilityOfOne" % i) for i in range(n)))


def zo(n, ok, mid=""):
    zs = " && ".join(ok("m->z%d.m_probabilityOfOne" % i) + " && " + ok("m->o%d.m_predictor.m_probabilityOfOne" % i) for i in range(1, n + 1))
    return zs + mid


def u2(e):
    return rng(e, 2)


PR = "m->m_probabilityOfOne"
AGG = ("m->m_step >= 1 && m->m_step <= 2048 && (m->m_step & (m->m_step - 1)) == 0 && (m->m_probabilityOfOne == 1024 || (m->m_probabilityOfOne >= 2048 && "
       "m->m_probabilityOfOne - 2048 + m->m_step <= 2048 && ((m->m_probabilityOfOne - 2048 + m->m_step) & (m->m_probabilityOfOne - 2048 + m->m_step - 1)) == 0))")
# (group, class, invariant, has updateState, equality: fields compared through the model's own outputs)
CLASSES = [
    ("int_code_model", "bwtc::FSM<3, bwtc::UnbiasedPredictor<100, 5, 2048>>", fsm_valid(3, lambda e: rng(e, 100)), True),
    ("gap_model", "bwtc::FSM<4, bwtc::UnbiasedPredictor<2, 5, 2048>>", fsm_valid(4, u2), True),
    ("choice_b", "bwtc::FSM<6, bwtc::EvenIntervalPredictor<4>>", fsm_valid(6, even), True),
    ("choice_B_default", FSM8, "m->m_currentState < 8 && " + zo(4, u2), True),
    ("choice_u", "bwtc::EvenIntervalPredictor<4>", even(PR), False),
    ("even2", "bwtc::EvenIntervalPredictor<2>", rng(PR, 1), False),
    ("even3", "bwtc::EvenIntervalPredictor<3>", rng(PR, 1), False),
    ("even5", "bwtc::EvenIntervalPredictor<5>", rng(PR, 1), False),
    ("even8", "bwtc::EvenIntervalPredictor<8>", even(PR, 8), False),
    ("aggressive_one", "bwtc::AggressiveOnePredictor", AGG, False),
    ("biased4", "bwtc::BiasedOnePredictor<4>", "m->m_probabilityOfOne > 0 && m->m_probabilityOfOne < 4096", False),
    ("biased16", "bwtc::BiasedOnePredictor<16>", "m->m_probabilityOfOne > 0 && m->m_probabilityOfOne < 4096", False),
    ("fsm6", FSM6, "m->m_currentState < 6 && " + zo(3, even), True),
    ("fsm9", FSM9, "m->m_currentState < 9 && " + zo(4, u2, " && " + u2("m->d.m_probabilityOfOne")), True),
]


def groups(tier):
    G = []
    for nm, c, inv, st in CLASSES:
        cname = c.split("<")[0].split("::")[-1]
        body = r"""
typedef @T{CLS} M;
static _Bool valid(M *m) { return INV; }
static uint16_t prob(M *m) { uint16_t p = @{CLS::probabilityOfOne}(m); ASSERT(p > 0 && p < 4096, "prediction is inside the open range"); return p; }
static void step(M *m, int op, _Bool b) { if (op == 0) @{CLS::update}(m, b); else if (op == 1) @{CLS::resetModel}(m); STATE }
void harness(void) {
  M fresh; @{CLS::CTOR|void ()}(&fresh);
  REACH("constructed");
  ASSERT(valid(&fresh), "constructor establishes the invariant"); prob(&fresh);
  M a, other; ASSUME(valid(&a)); ASSUME(valid(&other)); M b = a;
  uint8_t IN_op = nondet_u8() % 3, IN_oop = nondet_u8() % 3; _Bool IN_bit = nondet_bool(), IN_obit = nondet_bool(), IN_bit2 = nondet_bool();
  uint16_t pa = prob(&a); step(&a, IN_op, IN_bit);
  STRICT ASSERT(valid(&a), "operations preserve the invariant");
  uint16_t pa2 = prob(&a); step(&a, 0, IN_bit2); uint16_t pa3 = prob(&a);
  step(&other, IN_oop, IN_obit); prob(&other);
  uint16_t pb = prob(&b); step(&b, IN_op, IN_bit); uint16_t pb2 = prob(&b); step(&b, 0, IN_bit2); uint16_t pb3 = prob(&b);
  REACH("stepped");
  ASSERT(pa == pb && pa2 == pb2 && pa3 == pb3, "equal histories give equal predictions, whatever other instances do");
  REACH("end");
}"""
        body = body.replace("CLS", c).replace("INV", inv).replace("CTOR", cname)
        body = body.replace("STATE", "else @{%s::updateState}(m, b);" % c if st else "")
        body = body.replace("STRICT", "")
        G.append(Group("model_" + nm, body, defines="#define VP_VEC_CAP 10", unwind=18,
                       flags=() if nm == "fsm9" else ("--nondet-static",), timeout=400))
    for nm, ty, n in (("m", "unsigned char", 256), ("M", "unsigned short", 65536)):
        c = "bwtc::SimpleMarkov<%s>" % ty
        G.append(Group("model_choice_%s" % nm, (r"""
typedef @T{CLS} M;
#define N %d
static int fills; static int8_t *fill_b, *fill_e; static int fill_v;
static void vp_fill_int8_t(int8_t *b, int8_t *e, int32_t v) { ++fills; fill_b = b; fill_e = e; fill_v = v; }
static uint16_t prob(M *m) { uint16_t p = @{CLS::probabilityOfOne}(m); ASSERT(p > 0 && p < 4096, "prediction is inside the open range"); return p; }
void harness(void) {
  M f; @{CLS::SimpleMarkov|void ()}(&f);
  REACH("constructed");
  ASSERT(fills == 1 && fill_b == f.m_history && fill_e == f.m_history + N && fill_v == 0, "constructor clears the entry of every context");
  ASSERT(__CPROVER_OBJECT_SIZE(f.m_history) >= N && f.m_prev < N, "table has an entry for every context");
  M a; a.m_history = malloc(N); ASSUME(a.m_history != 0); %s IN_prev = nondet_u16(); a.m_prev = IN_prev;
  size_t w = nondet_size(); ASSUME(w < N);
  int8_t IN_h = nondet_i8(); ASSUME(IN_h >= -2 && IN_h <= 2); a.m_history[IN_prev] = IN_h;
  int8_t hw = a.m_history[w]; _Bool IN_bit = nondet_bool();
  prob(&a); @{CLS::update}(&a, IN_bit);
  REACH("updated");
  ASSERT(a.m_history[IN_prev] >= -2 && a.m_history[IN_prev] <= 2, "addressed entry stays in range");
  ASSERT(w == IN_prev || a.m_history[w] == hw, "no other entry changes");
  ASSERT(a.m_prev == (%s)(2 * IN_prev + IN_bit), "context is the last bits");
  fills = 0; @{CLS::resetModel}(&a);
  ASSERT(fills == 1 && fill_b == a.m_history && fill_e == a.m_history + N && fill_v == 0, "reset clears the entry of every context");
}""" % (n, "uint8_t" if n == 256 else "uint16_t", "uint8_t" if n == 256 else "uint16_t")).replace("CLS", c),
            pre="static void vp_fill_int8_t(int8_t *b, int8_t *e, int32_t v);", unwind=4, timeout=300, flags=("--arrays-uf-always",)))
    return G
