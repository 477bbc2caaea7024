#pragma once
#define INTRIN_LIST X(vf_malloc) X(vf_free) X(vf_sym) X(vf_assume) X(vf_check) X(vf_reach) X(vf_log) X(vf_choice) X(vf_fail) X(vf_end) X(vf_concrete) \
 X(vf_expect_terminate) X(vf_terminate) X(vf_throw) X(vf_live) X(vf_thread_spawn) X(vf_thread_self) X(vf_thread_done) X(vf_point) X(vf_block) X(vf_wake) X(vf_yield) \
 X(make_fcontext) X(jump_fcontext) X(ontop_fcontext) X(vf_is_engine) X(vf_bound) X(vf_protect) X(vf_fctx_live) X(vf_usable) X(vf_hb_acq) X(vf_hb_rel) X(vf_exempt) X(vf_is_sym) X(vf_heap_ok) X(vf_join_addr) X(vf_vaddr) X(vf_hint)
enum Intrin {
#define X(n) I_##n,
INTRIN_LIST
#undef X
I_COUNT };
