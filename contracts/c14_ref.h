/* Reference: a deterministic automaton over the characters, with the exact value (saturating far above the result types). */
/* character classes: 0 white space, 1 '0', 2 '1'-'9', 3 'x', 4 other hex letters, 5 '.', 6 sign, 7 anything else, 8 the terminator */
static const uint8_t CLS[256] = {
    8, 7, 7, 7, 7, 7, 7, 7, 7, 0, 0, 0, 0, 0, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    0, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 6, 7, 6, 5, 7, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 7, 7, 7, 7, 7, 7,
    7, 4, 4, 4, 4, 4, 4, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    7, 4, 4, 4, 4, 4, 4, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 3, 7, 7, 7, 7, 7, 7, 7,
    7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7};
/* digit values */
static const uint8_t VAL[256] = {
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0, 0, 0, 0, 0,
    0, 10, 11, 12, 13, 14, 15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 10, 11, 12, 13, 14, 15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
#define BIG (1ull << 33)
static uint64_t sat(uint64_t v) { return v > BIG ? BIG : v; }
/* ws* ( "0x" hex+ | dec+ ) ws*  after an optional  ws* sign  (start in SLEAD) or without sign (start in LEAD);
 * fixed point (start in FSIGN): ws* sign? dec* ( '.' dec* )? ws* with at least one digit, digits beyond the exponent dropped */
#ifdef UNINTERPRETED   /* lockstep proofs: hold for every digit-append function, so for the exact one that append_digit's contract fixes */
uint64_t __CPROVER_uninterpreted_push(uint64_t v, uint32_t radix, uint32_t digit);
#define PUSH(v, radix, digit) __CPROVER_uninterpreted_push(v, radix, digit)
#else
#define PUSH(v, radix, digit) ((radix) == 10 ? (uint64_t) (v) * 10 + (digit) : (uint64_t) (v) * 16 + (digit))
#endif
enum { LEAD, ZERO, DEC, HEX0, HEX, TRAIL, FAIL, SLEAD, FSIGN, FINT, FINTD, FFRAC, FFRACD };
struct ref { int q; bool neg; int32_t fr; uint64_t v; uint32_t lim; };
static const int8_t NEXT[13][9] = {
    /* LEAD   */ {LEAD,  ZERO,   DEC,    FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* ZERO   */ {TRAIL, DEC,    DEC,    HEX0, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* DEC    */ {TRAIL, DEC,    DEC,    FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* HEX0   */ {FAIL,  HEX,    HEX,    FAIL, HEX,  FAIL,   FAIL, FAIL, FAIL},
    /* HEX    */ {TRAIL, HEX,    HEX,    FAIL, HEX,  FAIL,   FAIL, FAIL, FAIL},
    /* TRAIL  */ {TRAIL, FAIL,   FAIL,   FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* FAIL   */ {FAIL,  FAIL,   FAIL,   FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* SLEAD  */ {SLEAD, ZERO,   DEC,    FAIL, FAIL, FAIL,   LEAD, FAIL, FAIL},
    /* FSIGN  */ {FSIGN, FINTD,  FINTD,  FAIL, FAIL, FFRAC,  FINT, FAIL, FAIL},
    /* FINT   */ {FAIL,  FINTD,  FINTD,  FAIL, FAIL, FFRAC,  FAIL, FAIL, FAIL},
    /* FINTD  */ {TRAIL, FINTD,  FINTD,  FAIL, FAIL, FFRACD, FAIL, FAIL, FAIL},
    /* FFRAC  */ {FAIL,  FFRACD, FFRACD, FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL},
    /* FFRACD */ {TRAIL, FFRACD, FFRACD, FAIL, FAIL, FAIL,   FAIL, FAIL, FAIL}};
/* One character; once above every representable value the number stays there.  Macros: no calls for the verifier to instrument. */
/* the same step away from a sign: changes only state, value and fraction digits */
#define STEPU(r, c, exponent) { uint8_t c_ = (uint8_t) (c); int q_ = CLS[c_] == 6 ? FAIL : NEXT[(r).q][CLS[c_]]; \
    bool frac_ = q_ == FFRACD && CLS[c_] != 5; \
    bool d_ = q_ == ZERO || q_ == DEC || q_ == HEX || q_ == FINTD || (frac_ && (r).fr < (exponent)); \
    if (q_ == HEX0) (r).v = 0; \
    if (d_ && (r).v <= (r).lim) (r).v = PUSH((r).v, q_ == HEX ? 16u : 10u, (uint32_t) VAL[c_]); \
    if (d_ && frac_) ++(r).fr; \
    (r).q = q_; }
#define STEP(r, c, exponent) { bool sg_ = (c) == '-' || (c) == '+'; \
    if (sg_ && NEXT[(r).q][6] != FAIL) { (r).q = NEXT[(r).q][6]; if ((c) == '-') { (r).neg = 1; if ((r).q == FINT) (r).lim = 0x80000000u; } } \
    else STEPU(r, c, exponent) }
/* note: a fixed-point number with exponent 0 keeps no fraction digit */
static struct ref ref_start(int q) { struct ref r = {q, 0, 0, 0, q == FSIGN ? 0x7fffffffu : UINT32_MAX}; return r; }
/* value at the end of the text; BIG + 1 when malformed */
static uint64_t ref_end(struct ref r, int32_t exponent) {
    if (!(r.q == ZERO || r.q == DEC || r.q == HEX || r.q == TRAIL || r.q == FINTD || r.q == FFRACD)) return BIG + 1;
    return r.v;
}
static struct ref ref_run(int q, const char * s, int n, int32_t exponent) {
    struct ref r = ref_start(q);
    for (int k = 0; k < n; ++k) { if (!s[k]) break; STEP(r, s[k], exponent); }
    return r;
}
/* v * 10^n, saturating */
static uint64_t ref_scale(uint64_t v, int32_t n) { for (int k = 0; k < 11; ++k) if (v && n > k && v <= BIG) v = sat(PUSH(v, 10, 0)); return v; }
static uint64_t ref_fixed(struct ref r, int32_t exponent) { uint64_t v = ref_end(r, exponent); return v > BIG ? v : ref_scale(v, exponent - r.fr); }
