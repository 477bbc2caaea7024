// Interface between harnesses, the environment model and fsym (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_sym(const char* name, unsigned width) noexcept;       // fresh symbolic value
void vf_hint(uint64_t,uint64_t) noexcept;                          // likely value of a fresh symbolic value (no constraint)
void vf_assume(bool) noexcept;                                    // constrain the current path
void vf_check(bool, const char* what) noexcept;                   // the property: must hold on every path
void vf_fail(const char* what) noexcept;                          // reached = violation
void vf_reach(const char* label) noexcept;                        // vacuity witness
void vf_log(const char* tag, uint64_t v) noexcept;                // observable event (compared on replay)
unsigned vf_choice(const char* name, unsigned n) noexcept;        // symbolic choice in [0,n), explored value by value
uint64_t vf_concrete(uint64_t) noexcept;                          // case split over all feasible values
void vf_end() noexcept;                                           // discard path
void vf_bound(const char* what) noexcept;                         // path leaves the stated bound
void vf_expect_terminate(bool) noexcept;
void vf_terminate(const char*) noexcept;
int  vf_is_engine() noexcept;
bool vf_is_sym(uint64_t) noexcept;
uint64_t vf_live(unsigned kind) noexcept;                         // live blocks: 0 malloc 1 new 2 new[] 3 mmap 4 exception
extern uint64_t vf_live_base[4];                                  // what was allocated before the entry
uint64_t vf_fctx_live() noexcept;
bool vf_heap_ok(const void*) noexcept;
void* vf_malloc(size_t,unsigned kind,size_t align) noexcept;
void vf_free(void*,unsigned kind) noexcept;
size_t vf_usable(void*) noexcept;
void vf_protect(void*,size_t,bool ok) noexcept;
// threads
int  vf_thread_spawn(void(*)(void*),void*) noexcept;
int  vf_thread_self() noexcept;
bool vf_thread_done(int) noexcept;
void* vf_join_addr(int) noexcept;
void vf_point(const volatile void*, int write) noexcept;          // possible preemption before a visible operation
int  vf_block(const volatile void*, int timed) noexcept;          // 0 woken, 1 timed out
int  vf_wake(const volatile void*, unsigned n) noexcept;
void vf_yield() noexcept;
void vf_hb_acq(const volatile void*) noexcept;
void vf_hb_rel(const volatile void*) noexcept;
void vf_exempt(const volatile void*, size_t) noexcept;            // ghost data, not checked for races
// environment model (env.cpp)
uint64_t vfe_now() noexcept;
uint64_t vfe_last_now() noexcept;
void vfe_clock_at_least(uint64_t) noexcept;                       // time passes
void vfe_clock_point(bool) noexcept;
void vfe_thread_join(int) noexcept;
extern int vfe_affinity_rc, vfe_affinity_calls[8]; extern unsigned char vfe_affinity_set[8][128];
extern bool vfe_deadlock_ok;
extern uintptr_t vfe_stk_sp; extern size_t vfe_stk_size;          // stack of the last context made
extern bool vfe_timeouts_late;                                      // time-outs happen only when no thread can run otherwise
extern uint64_t vfe_clock_base, vfe_clock_max, vfe_clock_step;    // step: least advance per reading
extern unsigned vfe_alloc_fail; // number of remaining allowed allocation failures of the harness allocators
}
static inline uint64_t vf_range(const char* n, uint64_t lo, uint64_t hi){ uint64_t v=vf_sym(n,64); vf_hint(v,lo); if(lo) vf_assume(v>=lo); vf_assume(v<=hi); return v; }
static inline unsigned vf_u32(const char* n){ return (unsigned)vf_sym(n,32); }
static inline bool vf_bool(const char* n){ return vf_sym(n,1)!=0; }
#define VF_ENTRY extern "C" __attribute__((used,noinline)) void
