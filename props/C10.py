from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("Each operation of the table is checked from an arbitrary valid table (every symbol once, recorded location correct, ascending frequencies in the live part): "
               "the moving loops are cut at quantified invariants (proved for arbitrary watched symbol and ranks, instantiated at the ranks the step touches), so the result is a valid table again, "
               "with the changed symbol's frequency as requested and every other symbol's unchanged. Validity is therefore an invariant of every operation history.")
TRUSTED = ["std::sort through its contract (a permutation, ordered by the comparator in the source)", "std::copy through its contract"]
ASSUMPTIONS = ["frequencies stay below 2^48 (no block has more bytes)", "operations address symbols that were not removed"]
NATIVE = Native("c10.cpp", seconds=5, thorough_seconds=60, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random operation histories (up to 3000 operations) from tables with many, few and no ties, compared with a map")

PRE = r"""
static @T{bwtc::FrequencyTable} t, t0, u; static uint8_t KEY, Q, W, V; static uint64_t VAL, F0, FQ, I0, LAST, *FREQ; static uint64_t gk;
#define FR self->m_frequencies
#define LO self->m_location
#define A(s) (t.m_frequencies[t.m_location[s]].first == (s))
#define B(i) (t.m_location[t.m_frequencies[i].first] == (i))
#define S(i, j) (!((i) < (j) && (j) < t.m_last) || t.m_frequencies[i].second <= t.m_frequencies[j].second)
static struct pair_uint8_t_uint64_t tf[256], uf[256]; static uint8_t tl[256], ul[256];
static void mem(void) { __CPROVER_havoc_object(tf); __CPROVER_havoc_object(tl); __CPROVER_havoc_object(uf); __CPROVER_havoc_object(ul); t.m_frequencies = tf; t.m_location = tl; u.m_frequencies = uf; u.m_location = ul; t.m_last = nondet_u64(); u.m_last = nondet_u64(); }
static void init(void) { mem(); ASSUME(t.m_last >= 1 && t.m_last <= 256); KEY = nondet_u8(); Q = nondet_u8(); W = nondet_u8(); V = nondet_u8(); VAL = nondet_u64(); ASSUME(VAL < (1ull << 48)); LAST = t.m_last;
  ASSUME(A(KEY) && A(Q) && B(W) && B(V) && S(W, V)); I0 = t.m_location[KEY]; ASSUME(I0 < LAST); ASSUME(S(I0, W) && S(W, I0) && S(I0, V) && S(V, I0) && B(I0)); ASSUME(t.m_frequencies[I0].second < (1ull << 48));
  ASSUME(t.m_frequencies[LAST - 1].second < (1ull << 49)); F0 = t.m_frequencies[I0].second; FQ = t.m_frequencies[t.m_location[Q]].second; }
#define VALID ASSERT(A(Q), "every symbol is where its recorded location says"); ASSERT(B(W), "the location of the symbol at every rank is that rank"); ASSERT(S(W, V), "ascending order of frequency");
/* contract of std::sort: arr becomes an ordered permutation of itself */
static void vp_sort_pair_uint8_t_uint64_t(struct pair_uint8_t_uint64_t *b, struct pair_uint8_t_uint64_t *e, _Bool (*less)(struct pair_uint8_t_uint64_t *, struct pair_uint8_t_uint64_t *)) {
  ASSERT(b == t.m_frequencies && e == b + 256, "the whole table is sorted"); ASSERT(b[Q].first == Q && b[Q].second == FREQ[Q] && b[W].first == W, "the table holds every symbol once");
  __CPROVER_havoc_object(tf); gk = nondet_u64(); ASSUME(gk < 256 && b[gk].first == Q && b[gk].second == FREQ[Q]); /* Q's entry moved to rank gk, and to no other */
  if (W < V) ASSUME(!less(&b[V], &b[W])); }
static void vp_copy_pair_uint8_t_uint64_t(const struct pair_uint8_t_uint64_t *b, const struct pair_uint8_t_uint64_t *e, struct pair_uint8_t_uint64_t *d) { ASSERT(b == t.m_frequencies && e == b + 256 && d == u.m_frequencies, "all entries are copied"); u.m_frequencies[W] = t.m_frequencies[W]; }
static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d) { ASSERT(b == t.m_location && e == b + 256 && d == u.m_location, "all locations are copied"); u.m_location[Q] = t.m_location[Q]; }
"""
HAV = "__CPROVER_havoc_object(tf); __CPROVER_havoc_object(tl);"
COMMON = ["self == &t && self->m_last == LAST", "KEYNAME == KEY && pair.first == KEY && pair.second == value"]
AQ = "Q == KEY || (FR[LO[Q]].first == Q && LO[Q] != freqIndex && FR[LO[Q]].second == FQ)"
ALLB = "({0}) == freqIndex || (LO[FR[{0}].first] == ({0}) && FR[{0}].first != KEY)"
ALLS = "!(({0}) < ({1}) && ({1}) < LAST) || ({0}) == freqIndex || ({1}) == freqIndex || FR[{0}].second <= FR[{1}].second"


PF = ("FrequencyTable::m_frequencies", "FrequencyTable::m_location")
UF = ("--arrays-uf-always",)


def groups(tier):
    G = []
    inc = dict(inv=["self == &t && self->m_last == LAST", "key == KEY && pair.first == KEY && pair.second == value && value == F0 + VAL", "freqIndex >= I0 && freqIndex < LAST", AQ],
               all=[dict(p=ALLB, sk=("W",), at=[("(freqIndex + 1 < 256 ? freqIndex + 1 : 255)",)]),
                    dict(p=ALLS, sk=("W", "V"), at=[("W", "(freqIndex + 1 < 256 ? freqIndex + 1 : 255)"), ("(freqIndex + 1 < 256 ? freqIndex + 1 : 255)", "V")]),
                    dict(p="({0}) >= freqIndex || FR[{0}].second <= value", sk=("W",)),
                    dict(p="!(({0}) > freqIndex && ({0}) < LAST) || FR[{0}].second >= F0", sk=("V",))],
               havoc=HAV, frame=["m_frequencies", "m_location"], dec="(uint64_t)(LAST - freqIndex)")
    H = r"""
void harness(void) { init(); %s REACH("done"); VALID ASSERT(t.m_last == LAST, "live size unchanged");
  ASSERT(t.m_frequencies[t.m_location[KEY]].second == %s, "the changed symbol has the requested frequency"); if (Q != KEY) ASSERT(t.m_frequencies[t.m_location[Q]].second == FQ, "the other symbols keep theirs");
  ASSERT(@{bwtc::FrequencyTable::getFrequencyWithKey}(&t, KEY) == (%s) && @{bwtc::FrequencyTable::getKey}(&t, t.m_location[KEY]) == KEY && @{bwtc::FrequencyTable::getFrequency}(&t, t.m_location[KEY]) == (%s), "queries return the table's content");
  ASSERT(t.m_location[KEY] < LAST, "a live symbol stays live"); }"""
    G.append(Group("increase", H % (("@{bwtc::FrequencyTable::increase}(&t, KEY, VAL);",) + ("F0 + VAL",) * 3), pre=PRE, loops={"bwtc::FrequencyTable::increase": {0: inc}}, unwind=3, ptr_fields=PF, flags=UF))
    dec = dict(inv=["self == &t && self->m_last == LAST", "pair.first == KEY && pair.second == value && value == F0 - VAL && VAL <= F0", "freqIndex >= 0 && freqIndex <= I0", AQ],
               all=[dict(p=ALLB, sk=("W",), at=[("(freqIndex > 0 ? freqIndex - 1 : 0)",)]),
                    dict(p=ALLS, sk=("W", "V"), at=[("W", "(freqIndex > 0 ? freqIndex - 1 : 0)"), ("(freqIndex > 0 ? freqIndex - 1 : 0)", "V")]),
                    dict(p="({0}) <= freqIndex || ({0}) >= LAST || FR[{0}].second >= value", sk=("V",)),
                    dict(p="!(({0}) < freqIndex) || FR[{0}].second <= F0", sk=("W",))],
               havoc=HAV, frame=["m_frequencies", "m_location"], dec="(uint64_t)freqIndex")
    G.append(Group("decrease", H % (("ASSUME(VAL <= F0); _Bool ok = @{bwtc::FrequencyTable::decrease}(&t, KEY, VAL); ASSERT(ok, \"accepted\");",) + ("F0 - VAL",) * 3), pre=PRE, loops={"bwtc::FrequencyTable::decrease": {0: dec}}, unwind=3, ptr_fields=PF, flags=UF))
    G.append(Group("remove", r"""
static void c_inc(@T{bwtc::FrequencyTable} *self, uint8_t key, uint64_t v) { ASSERT(self == &t && key == KEY, "the removed symbol is moved"); uint8_t l = self->m_location[KEY];
  ASSUME(S(l, LAST - 1)); ASSERT(v < (1ull << 63) && F0 + v > t.m_frequencies[LAST - 1].second, "it gets a frequency above every live one, so it ends behind them");
  /* contract of increase (group increase): valid again, KEY has F0+v; ranked above all live => rank LAST-1 */
  __CPROVER_havoc_object(tf); __CPROVER_havoc_object(tl); ASSUME(A(KEY) && A(Q) && B(W) && S(W, V)); ASSUME(t.m_frequencies[t.m_location[KEY]].second == F0 + v && t.m_location[KEY] < LAST); if (Q != KEY) ASSUME(t.m_frequencies[t.m_location[Q]].second == FQ);
  ASSUME(t.m_location[KEY] == LAST - 1); }
void harness(void) { init(); @{bwtc::FrequencyTable::remove}(&t, KEY); REACH("removed"); VALID ASSERT(t.m_last == LAST - 1, "one live symbol less"); ASSERT(t.m_location[KEY] == LAST - 1, "the removed symbol is not live"); if (Q != KEY) ASSERT(t.m_frequencies[t.m_location[Q]].second == FQ, "the other symbols keep theirs"); }""",
                   pre=PRE + "static void c_inc(@T{bwtc::FrequencyTable} *self, uint8_t key, uint64_t v);", stubs={"bwtc::FrequencyTable::increase": "c_inc"}, unwind=3, ptr_fields=PF, flags=UF))
    # every symbol occurs once: distinct ranks hold distinct symbols (instances used: the loop's rank against W and against Q's rank)
    il = {0: dict(inv=["self == &t && i >= 0 && i <= 256 && t.m_frequencies[gk].first == Q && gk < 256", "!(gk < i) || LO[Q] == gk", "!(W < i) || LO[FR[W].first] == W"],
                  body="ASSUME(i == gk || FR[i].first != Q); ASSUME(i == W || FR[i].first != FR[W].first);", havoc="__CPROVER_havoc_object(tl);", frame=["m_location"], dec="(uint64_t)(256 - i)")}
    il0 = {0: dict(inv=["self == &t && i >= 0 && i <= 256", "!(Q < i) || LO[Q] == Q", "!(W < i) || LO[W] == W"], body="ASSUME(FR[i].first == i); /* instance of the filling loop's postcondition */", havoc="__CPROVER_havoc_object(tl);", frame=["m_location"], dec="(uint64_t)(256 - i)")}
    fl = lambda v, e="": {0: dict(inv=["self == &t && i >= 0 && i <= 256" + e], all=[dict(p="!(({0}) < i) || (FR[{0}].first == ({0}) && FR[{0}].second == %s)" % v, sk=(k,)) for k in ("Q", "W", "V")], havoc="__CPROVER_havoc_object(tf);", frame=["m_frequencies"], dec="(uint64_t)(256 - i)")}
    tl = {0: dict(inv=["self == &t && i >= 0 && i <= 256"], body="ASSUME(LO[i] == i && FR[i].first == i); /* instances of the two loops' postconditions */", dec="(uint64_t)(256 - i)")}
    G.append(Group("initialize", r"""
void harness(void) { static uint64_t fr[256]; mem(); __CPROVER_havoc_object(fr); FREQ = fr; Q = nondet_u8(); W = nondet_u8(); V = nondet_u8();
  @{bwtc::FrequencyTable::FrequencyTable|size_t}(&t, fr); REACH("initialised"); VALID ASSERT(t.m_frequencies[t.m_location[Q]].second == fr[Q], "every symbol has its frequency"); ASSERT(t.m_last == 256 && @{bwtc::FrequencyTable::size}(&t) == 256, "all symbols live"); }""", pre=PRE, loops={"bwtc::FrequencyTable::initialize": fl("frequencies[{0}]", " && frequencies == FREQ"), "bwtc::FrequencyTable::initLocations": il}, unwind=3, ptr_fields=PF, flags=UF))
    G.append(Group("default", r"""
void harness(void) { Q = nondet_u8(); W = nondet_u8(); V = nondet_u8(); mem();
  @{bwtc::FrequencyTable::FrequencyTable|void ()}(&t); REACH("initialised"); VALID ASSERT(t.m_frequencies[t.m_location[Q]].second == 0, "every symbol has frequency zero"); ASSERT(t.m_last == 256, "all symbols live"); }""", pre=PRE, loops={"bwtc::FrequencyTable::FrequencyTable": fl("0"), "bwtc::FrequencyTable::initLocations": il0, "bwtc::FrequencyTable::test": tl}, unwind=3, ptr_fields=PF, flags=UF))
    for nm, call in (("copy", "@{bwtc::FrequencyTable::FrequencyTable|const FrequencyTable}(&u, &t);"), ("assign", "@T{bwtc::FrequencyTable} *r = @{bwtc::FrequencyTable::operator=}(&u, &t); ASSERT(r == &u, \"returns itself\");")):
        G.append(Group(nm, r"""
void harness(void) { init();  %s REACH("copied"); ASSERT(u.m_last == t.m_last && u.m_location[Q] == t.m_location[Q] && u.m_frequencies[W].first == t.m_frequencies[W].first && u.m_frequencies[W].second == t.m_frequencies[W].second, "the copy equals the original"); }""" % call, pre=PRE, unwind=3, ptr_fields=PF, flags=UF))
    return G
