// Interface between harnesses and the symbolic executor (symbolic run) or the replay runtime (native run).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t kse_sym(const char *name, unsigned bits);           // fresh symbolic value, zero-extended
void kse_make_symbolic(void *p, size_t n, const char *name); // n fresh symbolic bytes
void kse_assume(int c);
void kse_assert(int c, const char *label);
void kse_reach(const char *label);                           // vacuity witness
uint64_t kse_choose(unsigned n, const char *name);           // 0..n-1, one path each
uint64_t kse_pick(unsigned n, const char *name);              // symbolic value below n: branches on it fork
uint64_t kse_concretize(uint64_t v);                         // fork over all feasible values
void kse_log(const char *s, uint64_t v);
uint64_t kse_live_allocs(void);                              // live heap blocks
int kse_symbolic(void);
void kse_atomic_begin(void);                                 // no scheduling points in between
void kse_atomic_end(void);
void kse_races(int on);
void kse_set_clock(uint64_t ns);
uint64_t kse_clock(void);
void kse_fail(const char *label);
void kse_yield(void);
void kse_stop(void);
}
static inline int64_t sym_i64(const char *n) { return (int64_t)kse_sym(n, 64); }
static inline uint64_t sym_u64(const char *n) { return kse_sym(n, 64); }
static inline int32_t sym_i32(const char *n) { return (int32_t)kse_sym(n, 32); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)kse_sym(n, 32); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)kse_sym(n, 16); }
static inline uint8_t sym_u8(const char *n) { return (uint8_t)kse_sym(n, 8); }
static inline bool sym_bool(const char *n) { return kse_sym(n, 1) != 0; }
#define ASSUME(c) kse_assume((c) ? 1 : 0)
#define CHECK(c, label) kse_assert((c) ? 1 : 0, label)
#define REACH(label) kse_reach(label)
#define HARNESS(name) extern "C" void kse_main_##name()
