// Harness vocabulary. Each harness is compiled twice:
//   goto-cc (VP_SOLVER):  inputs are nondeterministic, assertions go to the solver;
//   gcc (replay):           inputs are read from $VP_INPUTS, in the order the solver's trace chose them.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>

void harness(void);

#ifdef VP_SOLVER
extern uint64_t vp_rec; // every symbolic input passes through here: the trace shows the assignments
uint8_t nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
static inline uint8_t  vp_u8(void)  { uint8_t v  = nondet_vp_u8();  vp_rec = v; return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_vp_u16(); vp_rec = v; return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); vp_rec = v; return v; }
static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); vp_rec = v; return v; }
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, text) __CPROVER_assert((c), "VP " text)
// Must come back violated: shows that the point is reachable under the assumptions.
#define VP_WITNESS(text) __CPROVER_assert(0, "WITNESS " text)
#define VP_REACH(c, text) __CPROVER_assert(!(c), "WITNESS " text)
#elif defined(VP_SYMEX)
uint64_t vp_sym(uint32_t bits); // a new symbolic value
void vp_assume_(int c);
void vp_assert_(int c, const char* text);
void vp_reach_(int c, const char* text);
void vp_stop_(void);
static inline uint8_t  vp_u8(void)  { return (uint8_t) vp_sym(8); }
static inline uint16_t vp_u16(void) { return (uint16_t) vp_sym(16); }
static inline uint32_t vp_u32(void) { return (uint32_t) vp_sym(32); }
static inline uint64_t vp_u64(void) { return vp_sym(64); }
#define VP_ASSUME(c) vp_assume_(!!(c))
#define VP_ASSERT(c, text) vp_assert_(!!(c), text)
#define VP_WITNESS(text) vp_reach_(1, text)
#define VP_REACH(c, text) vp_reach_(!!(c), text)
#else
uint64_t vp_next_input(void);
void vp_assume_failed(const char* expr);
void vp_assert_failed(const char* text);
void vp_reached(const char* text);
static inline uint8_t  vp_u8(void)  { return (uint8_t) vp_next_input(); }
static inline uint16_t vp_u16(void) { return (uint16_t) vp_next_input(); }
static inline uint32_t vp_u32(void) { return (uint32_t) vp_next_input(); }
static inline uint64_t vp_u64(void) { return (uint64_t) vp_next_input(); }
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(#c); } while(0)
#define VP_ASSERT(c, text) do { if (!(c)) vp_assert_failed(text); } while(0)
#define VP_WITNESS(text) vp_reached(text)
#define VP_REACH(c, text) do { if (c) vp_reached(text); } while(0)
#endif

static inline uint8_t vp_flag(void) { uint8_t v = vp_u8(); VP_ASSUME(v <= 1); return v; }
static inline uint32_t vp_range(uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(); VP_ASSUME(v >= lo && v <= hi); return v; }
static inline uint8_t vp_range8(uint8_t lo, uint8_t hi) { uint8_t v = vp_u8(); VP_ASSUME(v >= lo && v <= hi); return v; }

// A choice that each path makes for good.
static inline uint32_t vp_pick(uint32_t lo, uint32_t hi)
{
    uint32_t v = vp_range(lo, hi), i;
    for (i = lo; i < hi; ++i) if (v == i) return i;
    return hi;
}

// Case split inside one query: each case runs on its own with the choice a constant, nothing is merged afterwards.
#define VP_CASES(var, n, call) do { int var##_c; uint32_t var##_v = vp_range(0, (n) - 1); \
    for (var##_c = 0; var##_c < (int) (n); ++var##_c) \
        if (var##_v == (uint32_t) var##_c) { int var = var##_c; call; VP_STOP(); } VP_STOP(); } while(0)
// The room the environment has: exceeding it makes the run inconclusive instead of cutting histories off.
#ifdef VP_SYMEX
void vp_environment_room_exceeded(void);
#define VP_LIMIT(c) do { if (!(c)) vp_environment_room_exceeded(); } while(0)
#else
#define VP_LIMIT(c) VP_ASSUME(c)
#endif
#ifdef VP_SOLVER
#define VP_STOP() __CPROVER_assume(0)
#elif defined(VP_SYMEX)
#define VP_STOP() vp_stop_()
#else
void vp_done(void);
#define VP_STOP() vp_done()
#endif

#endif
