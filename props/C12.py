from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("Replacement: for a block of arbitrary length and an arbitrary replacement table satisfying what constructReplacementTable is proved to establish, the bytes written are proved, by a one-level decoder following the output as ghost state inside the loop invariant, to restore exactly the input; the in-place variant additionally never overwrites unread input, never overfills its buffer and leaves nothing in it. "
               "Table, undo table, undo to a stream and to memory, pair statistics, choice of pairs, roles of the symbols and the pass protocol of the pre- and postprocessor each have their own contract.")
TRUSTED = ["std::vector and std::copy through their contracts", "grammar operations as specified in C11", "std::sort of the pair list (replaced by an arbitrary list)", "IEEE binary64 arithmetic of the buffer size as modelled by CBMC"]
ASSUMPTIONS = ["frequency argument, not proved: a pass frees only symbols rarer than the pairs it saves, so at most a third of the positions expand, the output is no longer than the block, and neither the pair list nor the symbol ranks run out (exercised natively with bounds checking)",
               "blocks shorter than 2^34 bytes (quick) or 2^40 bytes (thorough) for the size of the in-place buffer; shorter than 2^40 otherwise", "precompression options are strings of 'p' (the tools reject others)"]
NATIVE = Native("c12.cpp", seconds=14, thorough_seconds=180, cxx=("-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="blocks of 1 to 600000 bytes, up to 10 passes, all 256 byte values or few; sweep of the in-place buffer's fill at the last byte")

PRE = r"""
/* the symbols as the pass leaves them (uninterpreted: any choice): old specials, new specials, variables with their pair, special pair -> freed symbol */
_Bool __CPROVER_uninterpreted_olds(int); _Bool __CPROVER_uninterpreted_news(int); _Bool __CPROVER_uninterpreted_var(int); int __CPROVER_uninterpreted_rhs(int);
_Bool __CPROVER_uninterpreted_oldpair(int); _Bool __CPROVER_uninterpreted_newpair(int); int __CPROVER_uninterpreted_freed(int);
#define OLDS(x) __CPROVER_uninterpreted_olds(x)
#define NEWS(x) __CPROVER_uninterpreted_news(x)
#define VAR(x) __CPROVER_uninterpreted_var(x)
#define RHS(x) __CPROVER_uninterpreted_rhs(x)
#define OLDP(x, y) __CPROVER_uninterpreted_oldpair((x) * 256 + (y))
#define NEWP(x, y) __CPROVER_uninterpreted_newpair((x) * 256 + (y))
#define FREED(x, y) __CPROVER_uninterpreted_freed((x) * 256 + (y))
static @T{bwtc::PairReplacer} pr; static uint16_t TAB[65536]; static uint8_t *SRC; static uint8_t COM; static uint64_t L, F, J0, gi;
static uint64_t dpos; static int pend; /* one-level decoder following the output: input bytes restored, pending special */
static void emit(uint8_t b) {
  if (pend >= 0) {
    if (NEWP(pend, b)) { ASSERT(dpos < L && SRC[dpos] == FREED(pend, b), "a freed symbol's pair restores that symbol"); dpos += 1; }
    else { ASSERT(OLDP(pend, b), "specials come in recorded pairs"); ASSERT(dpos + 1 < L && SRC[dpos] == pend && SRC[dpos + 1] == b, "an earlier special pair is kept"); dpos += 2; }
    pend = -1; }
  else if (OLDS(b) || NEWS(b)) pend = b;
  else if (VAR(b)) { ASSERT(dpos + 1 < L && SRC[dpos] * 256 + SRC[dpos + 1] == RHS(b), "a variable restores the pair it replaced"); dpos += 2; }
  else { ASSERT(dpos < L && SRC[dpos] == b, "a plain symbol restores itself"); dpos += 1; } }
/* what constructReplacementTable guarantees about the entry of pair (x, y) */
static void entry(uint8_t x, uint8_t y) { uint16_t v = TAB[x * 256 + y]; uint8_t h = v >> 8, l = v & 255; int noop = COM * 256 + COM;
  ASSUME(!(OLDS(x) && NEWS(x))); ASSUME(!(VAR(x) && (OLDS(x) || NEWS(x)))); ASSUME(!OLDS(x) || v == noop);
  if (v == noop) ASSUME(!VAR(x) && !NEWS(x));
  else if (l == COM) { ASSUME(VAR(h) && !OLDS(h) && !NEWS(h) && RHS(h) == x * 256 + y && !OLDS(x) && !OLDS(y)); }
  else ASSUME((OLDS(h) || NEWS(h)) && NEWP(h, l) && FREED(h, l) == x && !OLDS(x) && h != COM);
  ASSUME(!OLDP(x, y) || !NEWP(x, y)); }
static void tail(uint8_t x) { uint16_t v = TAB[x * 256]; entry(x, 0); ASSUME((v & 255) != COM || (!VAR(x) && !NEWS(x))); }
/* well-formed input: TS(p): a token starts at p; specials come in recorded pairs */
_Bool __CPROVER_uninterpreted_ts(uint64_t);
#define TS(p) __CPROVER_uninterpreted_ts(p)
static void wellformed(uint64_t p) { if (p < L && TS(p)) { if (OLDS(SRC[p])) { ASSUME(p + 1 < L && OLDS(SRC[p + 1]) && OLDP(SRC[p], SRC[p + 1]) && TS(p + 2)); ASSUME(!NEWP(SRC[p], SRC[p + 1])); } else ASSUME(TS(p + 1)); } }
static void start(void) { L = nondet_u64(); ASSUME(L >= 2 && L < (1ull << 40)); SRC = malloc(L); COM = nondet_u8(); pr.m_commonByte = COM; pr.m_replacements = TAB; __CPROVER_havoc_object(TAB); dpos = 0; pend = -1; ASSUME(TS(0)); }
"""
INV = ["src == SRC && length == L && self == &pr && self->m_commonByte == COM && self->m_replacements == TAB && noop == COM * 256 + COM", "i >= 1 && i < L && (pair & 255) == SRC[i - 1]",
       "(pend < 0 && dpos == i - 1 && TS(i - 1)) || (i >= 2 && pend == SRC[i - 2] && dpos == i - 2 && OLDS(pend) && OLDP(pend, SRC[i - 1]) && !NEWP(pend, SRC[i - 1]) && TS(i) && OLDS(SRC[i - 1]))"]
BODY = "J0 = j; wellformed(i - 1); wellformed(i); wellformed(i + 1); entry(SRC[i - 1], SRC[i]); tail(SRC[i]); if (i + 1 < L) tail(SRC[i + 1]);"
UF = ("--arrays-uf-always",)
CAD = ("--sat-solver", "cadical")

PDEF = r"""#include <stdint.h>
#include <stddef.h>
static uint8_t *ARENA;
#define VP_VEC_STRUCT(N, T) struct vec_##N { size_t off; size_t n; }; static void vp_push(struct vec_##N *v, T x); static uint8_t vp_elem(const struct vec_##N *v, size_t i); static uint8_t vp_cell; \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i <= v->n, "vector index in bounds"); return (T*)(ARENA + v->off + i); } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { vp_push(v, x); }
"""
TDEF = r"""#include <stdint.h>
#include <stddef.h>
static uint8_t *ARENA;
#define VP_VEC_STRUCT(N, T) struct vec_##N { size_t off; size_t n; }; static void vp_push_##N(struct vec_##N *v, T x); static T *vp_at_##N(const struct vec_##N *v, size_t i); \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return vp_at_##N(v, i); } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { vp_push_##N(v, x); }
"""
PPRE = r"""
typedef @T{bwtc::Postprocessor} PP; static PP pp; static struct vec_uint8_t REP[1 << 17], dv; static uint8_t *SRC; static uint64_t L, outn, tok, KEY, q, qn, wrote; static _Bool SP[256], inb;
static uint64_t key_at(uint64_t i) { return SP[SRC[i]] ? (1u << 16) | (SRC[i] << 8) | SRC[i + 1] : SRC[i]; }
static void ppstart(void) { L = nondet_u64(); ASSUME(L < (1ull << 40)); SRC = malloc(L); uint64_t as = nondet_u64(); ASSUME(as >= (1ull << 42) && as < (1ull << 43)); ARENA = malloc(as); __CPROVER_havoc_object(REP); __CPROVER_havoc_object(SP); pp.m_replacements = REP; pp.m_isSpecial = SP; pp.m_hasRules = nondet_bool(); outn = 0; tok = 0; }
/* specials come in pairs; the string of a key lies somewhere in memory */
static void token(uint64_t i) { ASSUME(!SP[SRC[i]] || i + 1 < L); KEY = key_at(i); ASSUME(REP[KEY].off < (1ull << 41) && REP[KEY].n < (1ull << 40)); wrote = 0; inb = 1; }
"""
PF2 = ("Postprocessor::m_replacements", "Postprocessor::m_isSpecial")


def groups(tier):
    G = []
    G.append(Group("undo_to_stream", r"""
static void c_write(void *o, const uint8_t *b, const uint8_t *e) {
  if (!inb) { ASSERT(!pp.m_hasRules && b == SRC && e == SRC + L, "without rules the block is copied"); outn = L; return; }
  ASSERT(b == ARENA + REP[KEY].off && e == b + REP[KEY].n, "the token's string is written"); ++wrote; outn += REP[KEY].n; ASSUME(outn < (1ull << 50)); }
void harness(void) { ppstart(); uint64_t r = @{bwtc::Postprocessor::uncompress|OutStream}(&pp, SRC, L, 0); REACH("undone"); ASSERT(r == outn, "the length written is reported"); ASSERT(!pp.m_hasRules || q == L, "every token of the block is undone"); }""", defines=PDEF,
                   pre=PPRE + "static void c_write(void *o, const uint8_t *b, const uint8_t *e);", stubs={"bwtc::OutStream::writeBlock": "c_write"},
                   loops={"bwtc::Postprocessor::uncompress": {0: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && data == SRC && length == L && self->m_hasRules", "i <= L && q == i && uncompressedLength == outn && outn < (1ull << 50)"], havoc="q = nondet_u64(); outn = nondet_u64();", body="q = i + (SP[SRC[i]] ? 2 : 1); token(i);", end='ASSERT(wrote == 1, "once per token"); inb = 0;', dec="L - i")}},
                   unwind=3, ptr_fields=PF2, flags=UF))
    G.append(Group("undo_to_vector", r"""
static void vp_push(struct vec_uint8_t *v, uint8_t x) { ASSERT(inb && v == &dv, "pushed to the destination"); ASSERT(wrote < REP[KEY].n && x == ARENA[REP[KEY].off + wrote], "the token's string, in order"); ++wrote; }
void harness(void) { ppstart(); @{bwtc::Postprocessor::uncompress|vector}(&pp, SRC, L, &dv); REACH("undone"); ASSERT(q == L, "every token is undone"); }""", defines=PDEF, pre=PPRE,
                   loops={"bwtc::Postprocessor::uncompress": {0: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && src == SRC && length == L && dst == &dv", "i <= L && q == i"], havoc="q = nondet_u64();", body="q = i + (SP[SRC[i]] ? 2 : 1); token(i);", end='ASSERT(wrote == REP[KEY].n, "the whole string"); inb = 0;', dec="L - i"),
                                                              1: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && src == SRC && length == L && dst == &dv && key == KEY && inb", "j <= REP[KEY].n && wrote == j"], havoc="wrote = nondet_u64();", dec="REP[KEY].n - j")}},
                   unwind=3, ptr_fields=PF2, flags=UF))
    G.append(Group("undo_table", r"""
static void vp_push_uint8_t(struct vec_uint8_t *v, uint8_t x) { if (v == &REP[K]) { ++kpush; v->off = x; } v->n++; }
static struct pair_uint16_t_uint8_t *vp_at_pair_uint16_t_uint8_t(const FV *v, size_t i) { static struct pair_uint16_t_uint8_t c; c.first = __CPROVER_uninterpreted_fp(i); c.second = __CPROVER_uninterpreted_fs(i); return &c; }
static _Bool c_special(void *g, uint8_t s) { return SPG[s]; }
static uint32_t c_nrules(void *g) { return NR; } static uint64_t c_nrules2(void *g) { return NR; }
static void c_freed(void *g, FV *v) { v->n = NF; }
static RULE c_rule(void *g, uint32_t i) { RULE r; ASSERT(i < NR, "rule exists"); ASSERT(i == rnext, "rules in order"); ++rnext; r.m_variable = __CPROVER_uninterpreted_rv(i); r.m_largeVariable = __CPROVER_uninterpreted_rl(i); r.m_begin = ARENA + i; r.m_end = ARENA + i + __CPROVER_uninterpreted_rn(i); return r; }
static void c_unc(PP *self, const uint8_t *b, uint64_t n, struct vec_uint8_t *d) { uint64_t i = rnext - 1; ASSERT(b == ARENA + i && n == __CPROVER_uninterpreted_rn(i), "the rule's right side is expanded"); d->off = 1000 + i; d->n = nondet_u64(); }
void harness(void) { NR = nondet_u32(); NF = nondet_u32(); ASSUME(NR < 70000 && NF < 70000); K = nondet_u32(); ASSUME(K < (1 << 17)); ARENA = malloc(1 << 20); pp.m_replacements = REP; pp.m_isSpecial = SP; S = nondet_u8();
  kf = nondet_u64(); kr = nondet_u64(); hf = nondet_bool(); hr = nondet_bool(); ASSUME(!hf || kf < NF); ASSUME(!hr || kr < NR); /* the only freed symbol and the only rule with this key, if any */
  @{bwtc::Postprocessor::Postprocessor|Grammar}(&pp, nondet_bool(), 0); REACH("table"); ASSERT((SP[S] ? 1 : 0) == (SPG[S] ? 1 : 0), "special symbols are the grammar's"); ASSERT(pp.m_hasRules == (NR > 0), "rules present");
  if (hr) ASSERT(REP[K].off == 1000 + kr, "a variable stands for the expansion of its rule");
  else if (hf) ASSERT(REP[K].off == __CPROVER_uninterpreted_fs(kf) && REP[K].n == 1, "a freed symbol's pair stands for the symbol");
  else if (K < 256) ASSERT(REP[K].off == K && REP[K].n == 1, "a plain symbol stands for itself"); }""", defines=TDEF, pre=r"""
typedef @T{bwtc::Postprocessor} PP; typedef @T{bwtc::Grammar::Rule} RULE; typedef @T{std::vector<std::pair<uint16, byte> >} FV; static PP pp; static struct vec_uint8_t REP[1 << 17]; static _Bool SP[256], SPG[256]; static uint32_t NR, NF, K; static uint64_t rnext, kpush, kf, kr; static uint8_t S; static _Bool hf, hr;
int __CPROVER_uninterpreted_rv(int); _Bool __CPROVER_uninterpreted_rl(int); int __CPROVER_uninterpreted_rn(int); int __CPROVER_uninterpreted_fs(int); int __CPROVER_uninterpreted_fp(int);
#define RKEY(i) (__CPROVER_uninterpreted_rv(i) | (__CPROVER_uninterpreted_rl(i) ? 1 << 16 : 0))
static _Bool c_special(void *g, uint8_t s); static uint32_t c_nrules(void *g); static uint64_t c_nrules2(void *g); static void c_freed(void *g, FV *v); static RULE c_rule(void *g, uint32_t i); static void c_unc(PP *self, const uint8_t *b, uint64_t n, struct vec_uint8_t *d);
""", stubs={"bwtc::Grammar::isSpecial": "c_special", "bwtc::Grammar::numberOfRules": "c_nrules", "bwtc::Grammar::numOfRules": "c_nrules2", "bwtc::Grammar::freedSymbols": "c_freed", "bwtc::Grammar::getRule": "c_rule", "bwtc::Postprocessor::uncompress": "c_unc"},
                   loops={"bwtc::Postprocessor::Postprocessor": {
                       0: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && i <= 256 && REP[K].n == (K < i ? 1 : 0) && (K >= i || REP[K].off == K)"], havoc="__CPROVER_havoc_object(REP);", dec="256 - i", frame=["m_replacements"]),
                       1: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && i <= 256 && (S >= i || (SP[S] ? 1 : 0) == (SPG[S] ? 1 : 0))"], havoc="__CPROVER_havoc_object(SP);", dec="256 - i", frame=["m_isSpecial"]),
                       2: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && freedSyms.n == NF && i <= NF && (hf && kf < i ? REP[K].n == 1 && REP[K].off == __CPROVER_uninterpreted_fs(kf) : K < 256 ? REP[K].n == 1 && REP[K].off == K : REP[K].n == 0)"], havoc="__CPROVER_havoc_object(REP);",
                               body="ASSUME(__CPROVER_uninterpreted_fp(i) >= 0 && __CPROVER_uninterpreted_fp(i) < 65536 && __CPROVER_uninterpreted_fs(i) >= 0 && __CPROVER_uninterpreted_fs(i) < 256); ASSUME(hf && i == kf ? __CPROVER_uninterpreted_fp(i) + 65536 == K : __CPROVER_uninterpreted_fp(i) + 65536 != K); ASSUME(__CPROVER_uninterpreted_fp(i) + 65536 == K || REP[65536 + __CPROVER_uninterpreted_fp(i)].n == 0); /* pairs are distinct (C11) */", dec="NF - i", frame=["m_replacements"]),
                       3: dict(inv=["self == &pp && self->m_replacements == REP && self->m_isSpecial == SP && i <= NR && rnext == i && (hr && kr < i ? REP[K].off == 1000 + kr : hf ? REP[K].n == 1 && REP[K].off == __CPROVER_uninterpreted_fs(kf) : K >= 256 || (REP[K].n == 1 && REP[K].off == K))"], havoc="__CPROVER_havoc_object(REP); rnext = nondet_u64();",
                               body="ASSUME(__CPROVER_uninterpreted_rv(i) >= 0 && __CPROVER_uninterpreted_rv(i) < (__CPROVER_uninterpreted_rl(i) ? 65536 : 256) && __CPROVER_uninterpreted_rn(i) > 1 && __CPROVER_uninterpreted_rn(i) <= 4); ASSUME(!(RKEY(i) == K) || (hr && i == kr)); /* left sides are distinct (C11) */ ASSUME(!(hr && i == kr) || RKEY(i) == K);", dec="NR - i", frame=["m_replacements"])}}, unwind=3, ptr_fields=PF2, flags=UF))
    AI = "self == &pr && pr.m_frequencies == FQ && pr.m_pairFrequencies == PFQ && pr.m_analysationStarted"
    G.append(Group("analysis", r"""
static const uint64_t *c_gf(void *g) { return GF; }
static void vp_fill_uint64_t(uint64_t *b, uint64_t *e, uint64_t v) { ASSERT((b == FQ && e == FQ + 256) || (b == PFQ && e == PFQ + 65536), "the whole array"); ASSERT(v == 0, "cleared"); b[b == FQ ? W : P] = 0; }
static void count(uint64_t i) { if (i < L) { if (SRC[i] == W) ++cnt; if (i > 0 && SRC[i - 1] == (P >> 8) && SRC[i] == (P & 255)) ++pcnt; ++seen; } }
void harness(void) { L = nondet_u64(); ASSUME(L >= 3 && L < (1ull << 40)); SRC = malloc(L); W = nondet_u8(); P = nondet_u16(); __CPROVER_havoc_object(FQ); __CPROVER_havoc_object(PFQ); __CPROVER_havoc_object(GF); ASSUME(GF[W] < (1ull << 48)); pr.m_frequencies = FQ; pr.m_pairFrequencies = PFQ; pr.m_analysationStarted = 0;
  @{bwtc::PairReplacer::analyseData|size_t}(&pr, SRC, L, 1); if ((L & 1) == 0) count(L - 1); REACH("analysed"); ASSERT(seen == L, "every position was counted"); ASSERT(FQ[W] == GF[W] + cnt, "frequencies are exact counts plus the grammar's"); ASSERT(PFQ[P] <= pcnt, "a pair is never counted more often than it occurs"); }""",
                   pre=r"""static @T{bwtc::PairReplacer} pr; static uint64_t FQ[256], PFQ[65536], GF[256], L, cnt, pcnt, seen; static uint8_t *SRC, W; static uint16_t P; static const uint64_t *c_gf(void *g); static void count(uint64_t i); static void vp_fill_uint64_t(uint64_t *b, uint64_t *e, uint64_t v);""",
                   stubs={"bwtc::Grammar::frequencies": "c_gf"},
                   loops={"bwtc::PairReplacer::analyseData|size_t": {0: dict(inv=[AI + " && data == SRC && length == L", "i >= 1 && i <= L && (i & 1) && seen == i && FQ[W] == GF[W] + cnt && PFQ[P] <= pcnt && cnt <= i && pcnt <= i && (pr.m_prev & 255) == SRC[i - 1]"], havoc="__CPROVER_havoc_object(FQ); __CPROVER_havoc_object(PFQ); cnt = nondet_u64(); pcnt = nondet_u64(); seen = nondet_u64(); pr.m_prev = nondet_u16();", body="count(i); count(i + 1);", dec="L + 2 - i", pre="count(0);", frame=["m_frequencies", "m_pairFrequencies", "m_prev"])},
                          "bwtc::PairReplacer::beginAnalysing|byte": {0: dict(inv=[AI + " && i >= 0 && i <= 256 && FQ[W] == (SRC[0] == W ? 1 : 0) + (W < i ? GF[W] : 0) && PFQ[P] == 0 && (pr.m_prev & 255) == SRC[0]"], havoc="__CPROVER_havoc_object(FQ);", frame=["m_frequencies"], dec="(uint64_t)(256 - i)")}},
                   unwind=3, ptr_fields=("PairReplacer::m_frequencies", "PairReplacer::m_pairFrequencies", "PairReplacer::m_replacements"), flags=UF))
    TI = "self == &pr && pr.m_replacements == TAB && pr.m_commonByte == COM && pr.m_numOfReplacements == NR && freedSymbols == &vf && newSpecials == &vn && replacements == &vr && pairs == &vp && vf.n == NF && vn.n == NN && vr.n == NR"
    W1 = "(hk ? TAB[WP] == REPL(kk) * 256 + COM"
    MID = W1 + " : hf && kf < %s ? TAB[WP] == NXT(kf) : hn && kn < %s ? TAB[WP] == X * 256 + X : TAB[WP] == COM * 257)"
    G.append(Group("table", r"""
static struct pair_uint64_t_uint16_t *vp_at_pair_uint64_t_uint16_t(const PV *v, size_t i) { static struct pair_uint64_t_uint16_t c; ASSERT(v == &vp, "pair list"); c.first = nondet_u64(); c.second = PAIR(i); return &c; }
static uint8_t *vp_at_uint8_t(const BV *v, size_t i) { static uint8_t c, d, e; if (v == &vr) { c = REPL(i); return &c; } if (v == &vf) { d = FR(i); return &d; } e = NS(i); return &e; }
static uint16_t *vp_at_uint16_t(const SV *v, size_t i) { static uint16_t c; c = NXT(i); return &c; }
static void c_none(void *g) {} static void c_end(void *g, BV *v) { ASSERT(v == &vr, "the variables end the update"); ended = 1; }
static _Bool c_special(void *g, uint8_t s) { return 0; }
static void c_rule(void *g, uint8_t v, uint8_t a, uint8_t b) { ASSERT(v == REPL(rules) && a * 256 + b == PAIR(rules), "the rule says what the table does"); ASSERT(!ended && !expanded, "rules are added before the alphabet is extended"); ++rules; }
static void c_expand(void *g, BV *f, BV *n, SV *o) { ASSERT(f == &vf && n == &vn && rules == NR, "all rules are there"); expanded = 1; o->n = NF; }
void harness(void) { NR = nondet_u16(); ASSUME(NR >= 1 && NR < 255); NF = nondet_u64(); NN = nondet_u64(); ASSUME(NF <= NR && NN < 256); pr.m_numOfReplacements = NR; pr.m_replacements = TAB; COM = nondet_u8(); pr.m_commonByte = COM; X = nondet_u8(); Y = nondet_u8(); WP = X * 256 + Y; __CPROVER_havoc_object(TAB);
  vp.n = nondet_u64(); ASSUME(vp.n >= NR); vf.n = NF; vn.n = NN; vr.n = NR; hk = nondet_bool(); hf = nondet_bool(); hn = nondet_bool(); kk = nondet_u64(); kf = nondet_u64(); kn = nondet_u64(); ASSUME(!hk || (kk < NR && PAIR(kk) == WP && REPL(kk) >= 0 && REPL(kk) < 256 && REPL(kk) != COM)); ASSUME(!hf || kf < NF); ASSUME(!hn || kn < NN); ASSUME(!hf || !hn); ASSUME(!hf || (NXT(kf) >= 0 && NXT(kf) < 65536 && (NXT(kf) >> 8) != COM)); ASSUME(!hn || X != COM); rules = 0;
  ASSUME(TAB[WP] == COM * 257);
  @{bwtc::PairReplacer::constructReplacementTable}(&pr, &vp, &vf, &vn, &vr); REACH("table");
  if (hk) ASSERT(TAB[WP] == REPL(kk) * 256 + COM, "a chosen pair becomes its variable"); else if (hf) ASSERT(TAB[WP] == NXT(kf), "a freed symbol becomes its special pair whatever follows"); else if (hn) ASSERT(TAB[WP] == X * 256 + X, "a new special symbol becomes its own pair whatever follows"); else ASSERT(TAB[WP] == COM * 257, "everything else stays");
  ASSERT(rules == NR && ended && expanded, "the grammar got every rule"); }""", defines=TDEF, pre=r"""
typedef @T{std::vector<std::pair<size_t, uint16> >} PV; typedef @T{std::vector<bwtc::byte>} BV; typedef @T{std::vector<uint16>} SV;
static @T{bwtc::PairReplacer} pr; static uint16_t TAB[65536], NR; static PV vp; static BV vf, vn, vr; static uint64_t NF, NN, kk, kf, kn, rules; static uint8_t COM, X, Y; static unsigned WP; static _Bool hk, hf, hn, ended, expanded; /* watched pair X,Y: chosen as number kk, X freed as number kf or new special number kn */
int __CPROVER_uninterpreted_p(int); int __CPROVER_uninterpreted_r(int); int __CPROVER_uninterpreted_f(int); int __CPROVER_uninterpreted_n(int); int __CPROVER_uninterpreted_x(int);
#define PAIR(i) __CPROVER_uninterpreted_p(i)
#define REPL(i) __CPROVER_uninterpreted_r(i)
#define FR(i) __CPROVER_uninterpreted_f(i)
#define NS(i) __CPROVER_uninterpreted_n(i)
#define NXT(i) __CPROVER_uninterpreted_x(i)
#define BYTE(e) ((e) >= 0 && (e) < 256 && (e) != COM)
static void c_none(void *g); static void c_end(void *g, BV *v); static _Bool c_special(void *g, uint8_t s); static void c_rule(void *g, uint8_t v, uint8_t a, uint8_t b); static void c_expand(void *g, BV *f, BV *n, SV *o);""",
                   stubs={"bwtc::Grammar::beginUpdatingRules": "c_none", "bwtc::Grammar::endUpdatingRules": "c_end", "bwtc::Grammar::isSpecial": "c_special", "bwtc::Grammar::addRule": "c_rule", "bwtc::Grammar::expandAlphabet": "c_expand"},
                   loops={"bwtc::PairReplacer::constructReplacementTable": {
                       0: dict(inv=[TI, "i <= NR && rules == i && !ended && !expanded && (hk && kk < i ? TAB[WP] == REPL(kk) * 256 + COM : TAB[WP] == COM * 257)"], havoc="__CPROVER_havoc_object(TAB); rules = nondet_u64();", body="ASSUME(BYTE(REPL(i)) && PAIR(i) >= 0 && PAIR(i) < 65536 && (PAIR(i) == WP) == (hk && i == kk)); /* chosen pairs are distinct, variables are not the common byte */", dec="NR - i", frame=["m_replacements"]),
                       1: dict(inv=[TI, "j <= NN"], body="ASSUME(BYTE(NS(j)) && NS(j) != REPL(i)); /* variables are not new specials */", dec="NN - j"),
                       2: dict(inv=[TI, "nextSpecialPairs.n == NF && rules == NR && !ended && expanded && i <= NF", MID % ("i", "0")], havoc="__CPROVER_havoc_object(TAB);", body="ASSUME(BYTE(FR(i)) && NXT(i) >= 0 && NXT(i) < 65536 && (NXT(i) >> 8) != COM && (FR(i) == X) == (hf && i == kf)); /* freed symbols are distinct */", dec="NF - i", frame=["m_replacements"]),
                       3: dict(inv=[TI, "j <= 256 && i < NF && hVal == FR(i) * 256 && special == NXT(i)", "hk ? TAB[WP] == REPL(kk) * 256 + COM : hf && (kf < i || (kf == i && Y < j)) ? TAB[WP] == NXT(kf) : TAB[WP] == COM * 257"], havoc="__CPROVER_havoc_object(TAB);", dec="256 - j", frame=["m_replacements"]),
                       4: dict(inv=[TI, "rules == NR && !ended && expanded && i <= NN", MID % ("NF", "i")], havoc="__CPROVER_havoc_object(TAB);", body="ASSUME(BYTE(NS(i)) && (NS(i) == X) == (hn && i == kn)); /* new specials are distinct and not freed */", dec="NN - i", frame=["m_replacements"]),
                       5: dict(inv=[TI, "j <= 256 && i < NN && hVal == NS(i) * 256 && special == NS(i) * 257", "hk ? TAB[WP] == REPL(kk) * 256 + COM : hf ? TAB[WP] == NXT(kf) : hn && (kn < i || (kn == i && Y < j)) ? TAB[WP] == X * 257 : TAB[WP] == COM * 257"], havoc="__CPROVER_havoc_object(TAB);", dec="256 - j", frame=["m_replacements"])}},
                   unwind=3, ptr_fields=("PairReplacer::m_frequencies", "PairReplacer::m_pairFrequencies", "PairReplacer::m_replacements"), flags=UF))
    G.append(Group("passes", r"""
static void c_ctor(void *r, void *g, _Bool v) { ASSERT(!alive, "one replacer per pass"); alive = 1; phase = 0; } static void c_dtor(void *r) { alive = 0; }
static void c_analyse(void *r, const uint8_t *d, uint64_t n, _Bool reset) { ASSERT(alive && phase == 0 && d == cur && n == len && reset && n > 2, "the current data is analysed"); phase = 1; }
static void c_finish(void *r) {} static uint64_t c_decide(void *r) { ASSERT(phase == 1, "after the analysis"); phase = 2; return nondet_u64(); }
static uint64_t shrink(uint64_t n) { uint64_t m = nondet_u64(); ASSUME(m >= 1 && m <= n); len = m; ++rounds; alive = 0; return m; }
static uint64_t c_inplace(void *r, uint8_t *d, uint64_t n) { ASSERT(phase == 2 && d == cur && n == len, "the current data is replaced"); phase = 3; return shrink(n); }
static uint64_t c_to(void *r, const uint8_t *s, uint64_t n, uint8_t *d) { ASSERT(phase == 2 && s == cur && n == len, "the current data is replaced"); ASSERT(d != s && (d == BLK || (d == TMP && tmpn >= n)), "into the other array, which is large enough"); phase = 3; cur = d; return shrink(n); }
static uint8_t *c_begin(void *b) { return BLK; } static uint64_t c_size(void *b) { return ORIG; } static uint64_t c_orig(void *b) { return ORIG; } static void *c_grammar(void *b) { return 0; }
static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d) { ASSERT(b == cur && e == b + len && d == BLK, "the result is copied into the block"); cur = d; }
static void c_setsize(void *b, uint64_t n) { ASSERT(cur == BLK && n == len, "the block ends with the result of the last pass"); ASSERT(n <= ORIG && n >= 1, "never larger than the block"); done = 1; }
void harness(void) { ORIG = nondet_u64(); ASSUME(ORIG >= 1 && ORIG < (1ull << 40)); BLK = malloc(ORIG + 1); cur = BLK; len = ORIG; n_opt = nondet_u64(); ASSUME(n_opt < 1000); tmpn = 0; TMP = malloc(ORIG + 1);
  static @T{bwtc::Precompressor} pc; pc.m_preprocessingOptions.d = malloc(n_opt + 1); pc.m_preprocessingOptions.n = n_opt; PC = &pc; static char bl; @{bwtc::Precompressor::precompress}(&pc, (void *)&bl); REACH("precompressed"); if (rounds > 1) REACH("several passes"); ASSERT(done, "the size is recorded"); }""", defines=r"""#include <stdint.h>
#include <stddef.h>
static uint8_t *TMP; static uint64_t tmpn;
#define VP_VEC_STRUCT(N, T) struct vec_##N { size_t n; }; \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { __CPROVER_assert(tmpn == 0, "allocated once"); v->n = tmpn = n; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i == 0 && v->n > 0, "start of the array"); return (T*)TMP; }
""", pre=r"""static uint8_t *BLK, *cur; static uint64_t ORIG, len, n_opt, rounds; static unsigned phase; static _Bool alive, done, inblk; static void *PC;
static void c_ctor(void *r, void *g, _Bool v); static void c_dtor(void *r); static void c_analyse(void *r, const uint8_t *d, uint64_t n, _Bool reset); static void c_finish(void *r); static uint64_t c_decide(void *r); static uint64_t c_inplace(void *r, uint8_t *d, uint64_t n); static uint64_t c_to(void *r, const uint8_t *s, uint64_t n, uint8_t *d);
static uint8_t *c_begin(void *b); static uint64_t c_size(void *b); static uint64_t c_orig(void *b); static void *c_grammar(void *b); static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d); static void c_setsize(void *b, uint64_t n);""",
                   stubs={"bwtc::PairReplacer::PairReplacer": "c_ctor", "bwtc::PairReplacer::~PairReplacer": "c_dtor", "bwtc::PairReplacer::analyseData": "c_analyse", "bwtc::PairReplacer::finishAnalysation": "c_finish", "bwtc::PairReplacer::decideReplacements": "c_decide", "bwtc::PairReplacer::writeReplacedVersion|size_t, byte": "c_to", "bwtc::PairReplacer::writeReplacedVersion|size_t (byte": "c_inplace",
                          "bwtc::PrecompressorBlock::begin": "c_begin", "bwtc::PrecompressorBlock::size": "c_size", "bwtc::PrecompressorBlock::originalSize": "c_orig", "bwtc::PrecompressorBlock::grammar": "c_grammar", "bwtc::PrecompressorBlock::setSize": "c_setsize"},
                   loops={"bwtc::Precompressor::precompress": {0: dict(alias={"src": "(inblk ? BLK : TMP)", "dst": "(useTempArray ? (inblk ? TMP : BLK) : dst)"},
                       inv=["self == PC && self->m_preprocessingOptions.n == n_opt && oldLength == ORIG && i <= n_opt && !alive && !done", "length == len && len >= 1 && len <= ORIG && cur == src", "useTempArray ? len < ORIG && tmpn > len && tmp.n == tmpn : tmpn == 0 && tmp.n == 0 && inblk && roundsWithTempArray == 0", "(roundsWithTempArray % 2 == 1) == !inblk && roundsWithTempArray <= i"],
                       havoc="inblk = nondet_bool(); len = nondet_u64(); tmpn = nondet_u64(); tmp.n = tmpn; cur = inblk ? BLK : TMP; rounds = nondet_u64();", body="ASSUME(self->m_preprocessingOptions.d[i] == 'p'); /* the options the tools accept */", end="inblk = (src == BLK);", pre="inblk = 1;", dec="n_opt - i", frame=["tmp"])}}, unwind=3, flags=CAD))
    DI = "self == &pr && pr.m_replacements == TAB && nSpecials == NS && nVariables == NV && forFree == FF && pr.m_numOfNewSpecials == NS && pr.m_numOfFreedSymbols == NV - F && replaceablePairs.n == NV && newSpecials.id == 1 && freedSymbols.id == 2 && replacements.id == 3"
    DN = " && newSpecials.n == %s && freedSymbols.n == %s && replacements.n == %s"
    VAL = ["!(%s) || %s" % (c, e) for c, e in ()]
    wn, wf, wr1, wr2 = "kn < newSpecials.n ? gn == KEY(F + kn) : 1", "kn < freedSymbols.n ? gf == KEY(F + NS + kn) : 1", "kn < replacements.n && kn < NV - F ? gr == KEY(F + NS + kn) : 1", "kn < replacements.n && kn >= NV - F ? gr == KEY(kn - (NV - F)) : 1"
    HV = "gn = nondet_u8(); gf = nondet_u8(); gr = nondet_u8(); gfr = nondet_u8(); newSpecials.n = nondet_u64(); freedSymbols.n = nondet_u64(); replacements.n = nondet_u64();"
    AL = [wn, wf, wr1, wr2]
    G.append(Group("decide", r"""
static void vp_push_uint8_t(struct vec_uint8_t *v, uint8_t x) { if (v->n == kn) { if (v->id == 1) gn = x; else if (v->id == 2) gf = x; else if (v->id == 3) gr = x; } if (v->id == 4 && v->n == kn - (NV - F)) gfr = x; v->n++; }
static uint8_t *vp_at_uint8_t(const struct vec_uint8_t *v, size_t i) { static uint8_t c; ASSERT(v->id == 4, "free symbols"); c = i == kn - (NV - F) ? gfr : nondet_u8(); return &c; }
static void c_ft(FT *t, const uint64_t *f) { ASSERT(f == FQ, "from the analysed frequencies"); } static void c_remove(FT *t, uint8_t s) { ASSERT(SPEC(s), "only special symbols are taken out"); if (s == WS) removed = 1; }
static _Bool c_special(void *g, uint8_t s) { return SPEC(s); } static _Bool c_isvar(void *g, uint8_t s) { return nondet_bool(); }
static uint8_t c_key(FT *t, uint32_t r) { ASSERT(r < SIZE, "a live rank"); ASSERT(found, "after the search"); int k = KEY(r); ASSUME(k >= 0 && k < 256 && !SPEC(k)); return k; }
static uint64_t c_freq(FT *t, uint32_t r) { ASSERT(r < SIZE, "a live rank"); return r < FF ? 0 : nondet_u64(); } static uint64_t c_fsize(FT *t) { return SIZE; }
static void c_list(PV *p, const uint64_t *f) { ASSERT(f == PFQ, "from the analysed pairs"); p->n = 65536; }
static void c_find(P *self, PV *a, PV *r, FT *t, uint64_t max, uint32_t *v, uint32_t *s, uint32_t *f) { ASSERT(!found && a->n == 65536 && max < 255, "search over all pairs"); ASSERT(!SPEC(WS) || removed, "special symbols were taken out"); found = 1;
  if (NV == 0) { /* nothing found: outputs untouched */ ASSERT(*v == 0 && *s == 0 && *f == 0, "outputs start at zero"); return; } r->n = NV; *v = NV; *s = NS; *f = FF; }
static void vp_fill_uint16_t(uint16_t *b, uint16_t *e, uint16_t v) { ASSERT(b == TAB && e == TAB + 65536, "the whole table"); ASSERT(v == KEY(SIZE - 1) * 257, "the common byte twice means no replacement"); filled = 1; }
static void c_table(P *self, const PV *p, const struct vec_uint8_t *f, const struct vec_uint8_t *n, const struct vec_uint8_t *r) {
  ASSERT(p->n == NV && f->n == NV - F && n->n == NS && r->n == NV && pr.m_numOfReplacements == NV, "one variable per pair, a freed symbol for each that was in use"); ASSERT(f->id == 2 && n->id == 1 && r->id == 3 && filled && !tabled && NV > 0, "arguments"); tabled = 1;
  /* all symbols are keys of different ranks: free ones 0..F-1, specials from F, freed ones after them, the common byte last */
  ASSERT(pr.m_commonByte == KEY(SIZE - 1) && SIZE - 1 >= NS + NV, "the common byte is none of them");
  if (kn < NS) ASSERT(gn == KEY(F + kn), "special symbols come after the free ones"); if (kn < NV - F) { ASSERT(gf == KEY(F + NS + kn), "freed symbols come next"); ASSERT(gr == gf, "freed symbols are the first variables"); } else if (kn < NV) ASSERT(gr == KEY(kn - (NV - F)), "free symbols are the last variables"); }
void harness(void) { pr.m_frequencies = FQ; pr.m_pairFrequencies = PFQ; pr.m_replacements = TAB; pr.m_analysationStarted = 1; NV = nondet_u32(); NS = nondet_u32(); FF = nondet_u32(); SIZE = nondet_u64(); ASSUME(NV <= 254 && NS < 256 && FF <= 256 && SIZE <= 256 && NV + NS < SIZE); if (NV == 0) ASSUME(NS == 0 && FF == 0); F = FF < NV ? FF : NV; kn = nondet_u64(); WS = nondet_u8();
  uint64_t r = @{bwtc::PairReplacer::decideReplacements}(&pr); REACH("decided"); ASSERT(r == NV && found && filled, "number of replacements"); ASSERT(tabled == (NV > 0), "the table is built when there is something to replace"); }""",
                   defines=TDEF.replace("struct vec_##N { size_t off; size_t n; }", "struct vec_##N { unsigned id; size_t n; }").replace("{ v->n = 0; }", "{ v->n = 0; v->id = sizeof(T) == 1 ? ++vp_ids : 0; }").replace("static uint8_t *ARENA;", "static unsigned vp_ids;"), pre=r"""
typedef @T{std::vector<std::pair<size_t, uint16> >} PV; typedef @T{std::vector<bwtc::byte>} BV; typedef @T{bwtc::FrequencyTable} FT; typedef @T{bwtc::PairReplacer} P; static P pr; static uint64_t FQ[256], PFQ[65536]; static uint16_t TAB[65536]; static uint32_t NV, NS, FF, F; static uint64_t SIZE, kn; static uint8_t gn, gf, gr, gfr, WS; static _Bool found, filled, tabled, removed;
int __CPROVER_uninterpreted_k(int); _Bool __CPROVER_uninterpreted_s(int);
#define KEY(r) __CPROVER_uninterpreted_k(r)
#define SPEC(s) __CPROVER_uninterpreted_s(s)
static void c_ft(FT *t, const uint64_t *f); static void c_remove(FT *t, uint8_t s); static _Bool c_special(void *g, uint8_t s); static _Bool c_isvar(void *g, uint8_t s); static uint8_t c_key(FT *t, uint32_t r); static uint64_t c_freq(FT *t, uint32_t r); static uint64_t c_fsize(FT *t); static void c_list(PV *p, const uint64_t *f); static void c_find(P *self, PV *a, PV *r, FT *t, uint64_t max, uint32_t *v, uint32_t *s, uint32_t *f); static void vp_fill_uint16_t(uint16_t *b, uint16_t *e, uint16_t v); static void c_table(P *self, const PV *p, const struct vec_uint8_t *f, const struct vec_uint8_t *n, const struct vec_uint8_t *r);""",
                   stubs={"bwtc::FrequencyTable::FrequencyTable": "c_ft", "bwtc::FrequencyTable::remove": "c_remove", "bwtc::FrequencyTable::getKey": "c_key", "bwtc::FrequencyTable::getFrequency": "c_freq", "bwtc::FrequencyTable::size": "c_fsize", "bwtc::Grammar::isSpecial": "c_special", "bwtc::Grammar::isVariable": "c_isvar",
                          "bwtc::PairReplacer::makePairList": "c_list", "bwtc::PairReplacer::findReplaceablePairs": "c_find", "bwtc::PairReplacer::constructReplacementTable": "c_table"},
                   loops={"bwtc::PairReplacer::decideReplacements": {
                       0: dict(inv=["self == &pr && pairs.n == 65536 && replaceablePairs.n == 0 && i <= 256 && (WS >= i || !SPEC(WS) || removed)"], havoc="removed = nondet_bool();", dec="256 - i"),
                       1: dict(inv=[DI + DN % ("0", "0", "0"), "frees.id == 4 && frees.n == i && i <= F && j == i", "i + (NV - F) > kn && kn >= NV - F ? gfr == KEY(kn - (NV - F)) : 1"], havoc=HV + "frees.n = nondet_u64();", dec="F - i", frame=["frees"]),
                       2: dict(inv=[DI + DN % ("i", "0", "0"), "frees.id == 4 && frees.n == F && i <= NS && j == F + i", "kn < NV && kn >= NV - F ? gfr == KEY(kn - (NV - F)) : 1", AL[0]], havoc=HV, dec="NS - i", frame=["newSpecials"]),
                       3: dict(inv=[DI + DN % ("NS", "i", "i"), "frees.id == 4 && frees.n == F && i <= NV - F && j == F + NS + i", "kn < NV && kn >= NV - F ? gfr == KEY(kn - (NV - F)) : 1"] + AL[:3], havoc=HV, dec="NV - F - i", frame=["freedSymbols", "replacements"]),
                       4: dict(inv=[DI + DN % ("NS", "NV - F", "NV - F + i"), "frees.id == 4 && frees.n == F && i <= F", "kn < NV && kn >= NV - F ? gfr == KEY(kn - (NV - F)) : 1"] + AL, havoc=HV, dec="F - i", frame=["replacements"])}},
                   unwind=3, ptr_fields=("PairReplacer::m_frequencies", "PairReplacer::m_pairFrequencies", "PairReplacer::m_replacements"), flags=UF))
    SI = "self == &pr && pairs == &vp && replPairs == &vr && freqs == &ft && vp.n == 65536 && symbolsToUse == SIZE && maxRepl == 254 && vr.n <= currentPair && currentPair <= 65536 && lastp < (int)currentPair && lastp >= -1 && freeSymbols == FREE && nsp <= 256"
    SB = "ASSUME(currentPair < 65535); /* the list never runs out before a pair that is too rare (frequency argument; native with bounds checking) */"
    SU = "zf ? (usedFst[Z] ? 1 : 0) : 1; zs ? (usedSnd[Z] ? 1 : 0) : 1; !(zf && zs) || zz; !(zf || zs) || !SPEC(Z)".split("; ")
    SM = ["(" + x + ")" for x in SU]
    HVS = "__CPROVER_havoc_object(usedFst); __CPROVER_havoc_object(usedSnd); vr.n = nondet_u64(); lastp = nondet_i32(); zf = nondet_bool(); zs = nondet_bool(); zz = nondet_bool();"
    G.append(Group("choose", r"""
static struct pair_uint64_t_uint16_t *vp_at_pair_uint64_t_uint16_t(const PV *v, size_t i) { static struct pair_uint64_t_uint16_t c; ASSERT(v == &vp, "pair list"); c.first = nondet_u64(); ASSUME(c.first < (1ull << 48)); c.second = __CPROVER_uninterpreted_p(i); at = i; return &c; }
static void vp_push_pair_uint64_t_uint16_t(PV *v, struct pair_uint64_t_uint16_t x) { ASSERT(v == &vr, "chosen pairs"); ASSERT((int)at > lastp && x.second == (uint16_t)__CPROVER_uninterpreted_p(at), "each chosen pair is a later entry of the list, so pairs are distinct"); lastp = at; v->n++;
  if (x.second == Z * 257) zz = 1; if (x.second >> 8 == Z) zf = 1; if ((x.second & 255) == Z) zs = 1; }
static _Bool c_special(void *g, uint8_t s) { return SPEC(s) ? 1 : 0; } static uint32_t c_left(void *g) { return LEFT; } static uint32_t c_nsp(void *g) { return nsp0; }
static uint8_t c_key(FT *t, uint32_t r) { int k = __CPROVER_uninterpreted_k(r); ASSUME(r < SIZE && k >= 0 && k < 256 && !SPEC(k)); return k; }
static uint64_t c_freq(FT *t, uint32_t r) { ASSUME(r < SIZE); /* the search stops before it runs out of symbols (frequency argument) */ if (r < FREE) return 0; uint64_t f = nondet_u64(); ASSUME(f > 0 && f < (1ull << 48)); return f; } static uint64_t c_fsize(FT *t) { return SIZE; }
void harness(void) { SIZE = nondet_u64(); FREE = nondet_u32(); nsp0 = nondet_u32(); LEFT = nondet_u32(); ASSUME(SIZE <= 256 && FREE < SIZE && nsp0 <= 256 && LEFT <= 65536); Z = nondet_u8(); nsp = nsp0; vp.n = 65536; vr.n = 0; lastp = -1; uint32_t v, s, f;
  @{bwtc::PairReplacer::findReplaceables}(&pr, nondet_u64() % 5, &vp, &vr, &ft, 254, &v, &s, &f); REACH("chosen"); ASSERT(v == vr.n, "number of variables"); ASSERT(!(zf && zs) || zz, "no symbol (but that of a doubled pair) is the first of one pair and the second of another"); ASSERT(!(zf || zs) || !SPEC(Z), "no special symbol is replaced");
  uint64_t n1 = nsp0 + s; ASSERT(s <= 256 && v <= 256, "counts"); ASSERT(f <= FREE && f <= v && (v - f) + s + nsp0 * nsp0 <= LEFT + n1 * n1, "there is a special pair for every freed symbol"); ASSERT(v + s <= SIZE, "no more symbols than there are"); }""",
                   defines=TDEF.replace("static inline size_t vec_##N##_size", "static inline void vec_##N##_pop_back(struct vec_##N *v) { v->n--; } \\\nstatic inline _Bool vec_##N##_empty(const struct vec_##N *v) { return v->n == 0; } \\\nstatic inline size_t vec_##N##_size"), pre=r"""
typedef @T{std::vector<std::pair<size_t, uint16> >} PV; typedef @T{bwtc::FrequencyTable} FT; typedef @T{bwtc::PairReplacer} P; static P pr; static FT ft; static PV vp, vr; static uint64_t SIZE; static uint32_t FREE, nsp0, nsp, LEFT; static int lastp; static size_t at, cp0; static uint8_t Z; static _Bool zf, zs, zz;
int __CPROVER_uninterpreted_k(int); _Bool __CPROVER_uninterpreted_s(int); int __CPROVER_uninterpreted_p(int);
#define SPEC(s) __CPROVER_uninterpreted_s(s)
#define UT(u, k) ((u) <= (int64_t)(k) * (1ll << 49) && (u) >= -((int64_t)(k) * (1ll << 49)))
static _Bool c_special(void *g, uint8_t s); static uint8_t c_key(FT *t, uint32_t r); static uint64_t c_freq(FT *t, uint32_t r); static uint64_t c_fsize(FT *t); static uint32_t c_left(void *g); static uint32_t c_nsp(void *g);""",
                   stubs={"bwtc::FrequencyTable::getKey": "c_key", "bwtc::FrequencyTable::getFrequency": "c_freq", "bwtc::FrequencyTable::size": "c_fsize", "bwtc::Grammar::isSpecial": "c_special", "bwtc::Grammar::specialSymbolPairsLeft": "c_left", "bwtc::Grammar::numberOfSpecialSymbols": "c_nsp"},
                   loops={"bwtc::PairReplacer::findReplaceables": {
                       0: dict(inv=["freqs == &ft && freeSymbols <= FREE"], dec="FREE - freeSymbols"),
                       1: dict(inv=[SI, "hope ? currentPair < 65536 && currentSymbol < SIZE : 1", "vars == vr.n && currentSymbol == vars && vars <= SIZE && withoutNew <= LEFT + FREE && withoutNew + vars == LEFT + FREE && *forFree == (vars < FREE ? vars : FREE) && specs == 0", "UT(utility, vars)"] + SM, havoc=HVS + "*forFree = nondet_u32();", body=SB, dec="65536 - currentPair + (hope ? 1 : 0)", frame=["replPairs", "usedFst", "usedSnd", "forFree"]),
                       2: dict(inv=[SI, "hope ? currentPair < 65536 && currentSymbol < SIZE && currentSymbol == vars + specs : 1", "vars == vr.n && (hope ? currentSymbol >= FREE : 1) && vars + specs <= SIZE && specs <= SIZE && vars <= SIZE && tSpecials == nsp0 + specs && unusedSpecials == 0 && *forFree <= FREE && *forFree <= vars", "(vars - *forFree) + specs + nsp0 * nsp0 <= LEFT + tSpecials * tSpecials", "UT(utility, 2 * (vars + specs))"] + SM, havoc=HVS + "cp0 = nondet_u64();", body="cp0 = currentPair;", dec="2 * (65536 - currentPair) + (hope ? 1 : 0)", frame=["replPairs", "usedFst", "usedSnd", "forFree"]),
                       3: dict(inv=[SI, "hope ? currentPair < 65536 && (pairsAfterSpecial == 0 || currentSymbol < SIZE) : 1", "currentPair >= cp0 + pairsAfterSpecial && cp0 <= 65536 && limit >= 2", "vr.n == vars + pairsAfterSpecial && pairsAfterSpecial <= limit && currentSymbol == vars + specs + nSpecials + pairsAfterSpecial && currentSymbol <= SIZE && freeVars == 0 && freeVarsBeg == 0", "UT(utilityAfterNewSpecials, 2 + pairsAfterSpecial)"] + SM, havoc=HVS, body=SB, dec="65536 - currentPair + (hope ? 1 : 0)", frame=["replPairs", "usedFst", "usedSnd"]),
                       4: dict(inv=["0"], dec="1ull", frame=["replPairs"]),
                       5: dict(inv=[SI.replace("vr.n <= currentPair && ", "").replace("(vr.n == 0 ? lastp == -1 : 1) && ", ""), "i <= pairsAfterSpecial && freeVars == 0 && freeVarsBeg == 0 && vr.n == vars + pairsAfterSpecial - i"], havoc="vr.n = nondet_u64();", dec="pairsAfterSpecial - i", frame=["replPairs"])}},
                   unwind=3, flags=UF))
    step = "while (J0 < j) { emit(dst[J0]); ++J0; }"
    G.append(Group("replace_to", r"""
void harness(void) { start(); uint8_t *d = malloc(2 * L); uint64_t n = @{bwtc::PairReplacer::writeReplacedVersion|size_t, byte}(&pr, SRC, L, d); REACH("written"); ASSERT(dpos == L && pend < 0, "the output restores the whole block"); }""",
                   pre=PRE, loops={"bwtc::PairReplacer::writeReplacedVersion": {0: dict(inv=INV + ["j <= 2 * (i - 1) && J0 == j"], havoc="dpos = nondet_u64(); pend = nondet_i32(); J0 = nondet_u64();", body=BODY, end=step, post=step, frame=["dst"], dec="L - i")}},
                   unwind=6, ptr_fields=("PairReplacer::m_replacements",), flags=UF))
    # in place: the buffer through its contract (group buffer). First what is pushed, then where it goes.
    CBS = {"utils::CircularBuffer<unsigned char>::" + k: v for k, v in (("CircularBuffer", "c_ctor"), ("~CircularBuffer", "c_dtor"), ("push", "c_push"), ("full", "c_full"), ("consume", "c_consume"))}
    CBP = r"""
typedef @T{utils::CircularBuffer<unsigned char>} CB; static uint64_t T, CAP, pushed, cons, exp_; static _Bool last; static uint8_t q0, q1, q2, q3; static unsigned nq;
static void c_ctor(CB *self, uint64_t n); static void c_dtor(CB *self); static void c_push(CB *self, uint8_t *v); static _Bool c_full(CB *self); static uint64_t c_consume(CB *self, uint8_t *to, uint64_t len);
"""
    step = "if (nq > 0) emit(q0); if (nq > 1) emit(q1); if (nq > 2) emit(q2); if (nq > 3) emit(q3); nq = 0;"
    for c, nm in ((0, "plain"), (1, "variable"), (2, "special")):
      G.append(Group("replace_in_place_content_" + nm, r"""
static void c_ctor(CB *self, uint64_t n) {} static void c_dtor(CB *self) {} static _Bool c_full(CB *self) { return nondet_bool(); } static uint64_t c_consume(CB *self, uint8_t *to, uint64_t len) { return nondet_u64(); }
static void c_push(CB *self, uint8_t *v) { ASSERT(nq < 4, "model: bytes per step"); if (nq == 0) q0 = *v; else if (nq == 1) q1 = *v; else if (nq == 2) q2 = *v; else q3 = *v; ++nq; }
void harness(void) { start(); @{bwtc::PairReplacer::writeReplacedVersion|size_t (byte}(&pr, SRC, L); REACH("written"); ASSERT(dpos == L && pend < 0, "the output restores the whole block"); }""",
                   pre=PRE + CBP, stubs=CBS, loops={"bwtc::PairReplacer::writeReplacedVersion": {0: dict(inv=INV + ["nq == 0"], havoc="dpos = nondet_u64(); pend = nondet_i32(); nq = 0;", body=BODY.replace("J0 = j;", "") + " ASSUME(%d == (TAB[SRC[i - 1] * 256 + SRC[i]] == noop ? 0 : (TAB[SRC[i - 1] * 256 + SRC[i]] & 255) == COM ? 1 : 2));" % c, end=step, post=step, dec="L - i")}},
                   unwind=4, ptr_fields=("PairReplacer::m_replacements",), flags=UF, checks=False))
    # the accesses of the same function stay inside the block and the table
    G.append(Group("replace_in_place_memory", r"""
static uint8_t sink; static void c_ctor(CB *self, uint64_t n) {} static void c_dtor(CB *self) {} static _Bool c_full(CB *self) { return nondet_bool(); } static uint64_t c_consume(CB *self, uint8_t *to, uint64_t len) { return nondet_u64(); } static void c_push(CB *self, uint8_t *v) { sink = *v; }
void harness(void) { start(); @{bwtc::PairReplacer::writeReplacedVersion|size_t (byte}(&pr, SRC, L); REACH("written"); }""",
                   pre=PRE + CBP, stubs=CBS, loops={"bwtc::PairReplacer::writeReplacedVersion": {0: dict(inv=["src == SRC && length == L && self == &pr && self->m_replacements == TAB", "i >= 1 && i < L"], dec="L - i")}}, unwind=4, ptr_fields=("PairReplacer::m_replacements",)))
    POS = r"""
static void c_ctor(CB *self, uint64_t n) { CAP = nondet_u64(); T = nondet_u64(); ASSUME(T <= L && CAP < (1ull << 42) && CAP >= T + 2); /* T = L / 3: group buffer_size */ }
static void c_dtor(CB *self) { ASSERT(cons == pushed, "nothing is left in the buffer"); }
static void c_push(CB *self, uint8_t *v) { ASSERT(pushed - cons < CAP, "the buffer never overflows"); ++pushed; }
static _Bool c_full(CB *self) { return pushed - cons >= CAP; }
static uint64_t c_consume(CB *self, uint8_t *to, uint64_t len) { uint64_t k = pushed - cons; if (len < k) k = len;
  ASSERT(to == SRC + cons, "buffered output continues where the written output ends");
  if (last) { ASSUME(pushed <= L); /* the pass does not grow the block */ } else ASSERT(cons + k <= gi + 1, "input still to be read is not overwritten");
  cons += k; return k; }
void harness(void) { start(); uint64_t n = @{bwtc::PairReplacer::writeReplacedVersion|size_t (byte}(&pr, SRC, L); REACH("written"); ASSERT(n == pushed && cons == pushed, "all of the output is in the block"); }"""
    GROW = r"""
/* the pass frees only symbols that are rarer than what it saves: at most a third of the positions grow (assumed here; frequency argument, native) */
static void grow(uint8_t x, uint8_t y) { uint16_t v = TAB[x * 256 + y]; if (v != COM * 256 + COM && (v & 255) != COM) ++exp_; ASSUME(exp_ <= T); ASSUME(%d == (v == COM * 256 + COM ? 0 : (v & 255) == COM ? 1 : 2)); }
"""
    POSL = dict(inv=["src == SRC && length == L && self == &pr && self->m_commonByte == COM && self->m_replacements == TAB && noop == COM * 256 + COM", "i >= 1 && i < L && (pair & 255) == SRC[i - 1]", "filled == cons && cons <= pushed && cons <= i - 1 && pushed - cons < CAP && pushed <= i - 1 + exp_ && exp_ <= T && !last && CAP >= T + 2"],
                   havoc="cons = nondet_u64(); pushed = nondet_u64(); exp_ = nondet_u64(); gi = nondet_u64();", body="gi = i; grow(SRC[i - 1], SRC[i]);", post="last = 1;", dec="L - i")
    for c, nm, fl in ((0, "plain", UF), (1, "variable", UF), (2, "special", UF + CAD)):
        G.append(Group("replace_in_place_positions_" + nm, POS, pre=PRE + CBP + GROW % c, stubs=CBS, loops={"bwtc::PairReplacer::writeReplacedVersion": {0: POSL}}, unwind=4, ptr_fields=("PairReplacer::m_replacements",), flags=fl, checks=False))
    # the buffer is large enough (floating-point size): one group per binary order of magnitude of the block length
    for k in range(15, 34 if tier == "quick" else 40):
        lo = 2 if k == 15 else 1 << k
        G.append(Group("buffer_size_%d" % k, r"""
static void c_ctor(CB *self, uint64_t n) { REACH("size"); ASSERT(3 * n >= L + 6, "the buffer holds a third of the block and two bytes"); ASSUME(0); }
static void c_dtor(CB *self) {} static void c_push(CB *self, uint8_t *v) {} static _Bool c_full(CB *self) { return 0; } static uint64_t c_consume(CB *self, uint8_t *to, uint64_t len) { return 0; }
void harness(void) { start(); ASSUME(L >= %dull && L < %dull); @{bwtc::PairReplacer::writeReplacedVersion|size_t (byte}(&pr, SRC, L); }""" % (lo, 2 << k),
                       pre=PRE + CBP, stubs=CBS, loops={"bwtc::PairReplacer::writeReplacedVersion": {0: POSL}}, unwind=4, ptr_fields=("PairReplacer::m_replacements",), flags=CAD, checks=False))
    G.append(Group("buffer", r"""
#define AT(k) ((cb.m_start + (k)) >= N ? cb.m_start + (k) - N : cb.m_start + (k))
#define VALID (cb.m_start < N && cb.m_inBuffer <= N && cb.m_head <= N && ((cb.m_head == N ? 0 : cb.m_head) == AT(cb.m_inBuffer)))
static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d) { ASSERT(b >= D && e >= b && e <= D + N, "copied from inside the buffer"); ASSERT((uint64_t)(d - TO) == outn, "output is written in order"); outn += e - b;
  if (D + W >= b && D + W < e) { ASSERT(!got, "once"); got = 1; gotpos = (uint64_t)(d - TO) + (uint64_t)(D + W - b); } }
void harness(void) { N = nondet_u64(); ASSUME(N >= 1 && N < (1ull << 40)); CB cb; D = malloc(N); TO = malloc(1ull << 41); cb.m_length = N; cb.m_data = D; cb.m_start = nondet_u64(); cb.m_head = nondet_u64(); cb.m_inBuffer = nondet_u64(); ASSUME(VALID);
  uint64_t n0 = cb.m_inBuffer, k = nondet_u64(); _Bool w = nondet_bool(); ASSUME(w ? k < n0 : k == 0); W = w ? AT(k) : N; uint8_t x = w ? D[W] : 0;
  ASSERT(@{utils::CircularBuffer<unsigned char>::full}(&cb) == (n0 == N), "full exactly at capacity");
  if (nondet_bool()) { ASSUME(n0 < N); uint8_t v = nondet_u8(); @{utils::CircularBuffer<unsigned char>::push}(&cb, &v); REACH("push"); ASSERT(VALID && cb.m_inBuffer == n0 + 1 && (!w || (AT(k) == W && D[W] == x)) && D[AT(n0)] == v, "the new element is last, the others stay"); }
  else { uint64_t len = nondet_u64(), want = len < n0 ? len : n0; ASSUME(len < (1ull << 41)); uint64_t r = @{utils::CircularBuffer<unsigned char>::consume}(&cb, TO, len); REACH("consume");
    ASSERT(r == want && outn == r, "as many as asked for and available"); ASSERT(VALID && cb.m_inBuffer == n0 - r, "the rest stays"); if (!w) ; else if (k < r) ASSERT(got && gotpos == k, "oldest elements come out in order"); else ASSERT(!got && AT(k - r) == W && D[W] == x, "younger elements keep their order"); } }
""", pre=r"""typedef @T{utils::CircularBuffer<unsigned char>} CB; static uint64_t N, W, gotpos, outn; static uint8_t *D, *TO; static _Bool got; static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d);
""", unwind=2, flags=CAD))
    G.append(Group("buffer_new", r"""
void harness(void) { CB cb; uint64_t n = nondet_u64(); ASSUME(n >= 1 && n < (1ull << 40)); @{utils::CircularBuffer<unsigned char>::CircularBuffer|size_t}(&cb, n); REACH("made"); ASSERT(cb.m_length == n && cb.m_start == 0 && (cb.m_head == 0 || cb.m_head == n) && cb.m_inBuffer == 0, "empty buffer of the requested capacity"); ASSERT(__CPROVER_OBJECT_SIZE(cb.m_data) >= n, "with memory for it"); }""",
                   pre="typedef @T{utils::CircularBuffer<unsigned char>} CB;", unwind=2))
    return G
