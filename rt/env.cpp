// Environment model, common to the symbolic run and to the native replay: clocks, pthread objects, futex, affinity.
// Calls of these functions in the code under test are redirected here by the instrumentation pass (see front.cpp).
#include "vf.h"
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <sched.h>
#include <cstdarg>
#include <cstring>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <linux/futex.h>
#include <sys/syscall.h>
extern "C" {
// ---- clock: every reading is an arbitrary value not smaller than the previous one
uint64_t vfe_clock_base=1000, vfe_clock_max=(1ull<<62), vfe_clock_step=0; static uint64_t last_now=0; static uint64_t sys_off=0; static bool clk_point=false; static bool clk_init=false; static bool sysinit=false;
bool vfe_deadlock_ok=false, vfe_timeouts_late=false; unsigned vfe_alloc_fail=0;
static char clk_obj;
void vfe_clock_point(bool b) noexcept { clk_point=b; vf_exempt(&last_now,8); vf_exempt(&vfe_clock_max,8); vf_exempt(&clk_init,1); vf_exempt(&sys_off,8); vf_exempt(&sysinit,1); }
uint64_t vfe_now() noexcept {
    if(clk_point) vf_point(&clk_obj,1);
    uint64_t n=vf_sym("now",64); if(!clk_init){ clk_init=true; last_now=vfe_clock_base; }
    vf_hint(n,last_now+vfe_clock_step); vf_assume(n>=last_now+vfe_clock_step); vf_assume(n<=vfe_clock_max); last_now=n; return n; }
uint64_t vfe_last_now() noexcept { return clk_init?last_now:vfe_clock_base; }
void vfe_clock_at_least(uint64_t t) noexcept { if(!clk_init){ clk_init=true; last_now=vfe_clock_base; } last_now = last_now<t ? t : last_now; if(vfe_timeouts_late) vfe_clock_max=1ull<<62; }
int64_t vfe_steady_now(){ return (int64_t)vfe_now(); }
// system clock: a fixed unknown offset to the steady clock
int64_t vfe_system_now(){ if(!sysinit){ sysinit=true; sys_off=vf_range("sysoff",0,1ull<<60); } return (int64_t)(vfe_now()+sys_off); }
uint64_t vfe_sysoff() noexcept { return sys_off; }
// ---- mutexes: first word of the object: 0 free, else owner+1; second word: recursion
static bool again(pthread_mutex_t* m){ volatile int* w=(volatile int*)m; if(*w!=vf_thread_self()+1||(m->__data.__kind&3)!=PTHREAD_MUTEX_RECURSIVE) return false; w[1]++; return true; }
int vfe_pthread_mutex_lock(pthread_mutex_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); if(again(m)) return 0; while(*w) { vf_block(m,0); } *w=vf_thread_self()+1; vf_hb_acq(m); return 0; }
int vfe_pthread_mutex_trylock(pthread_mutex_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); if(again(m)) return 0; if(*w) return EBUSY; *w=vf_thread_self()+1; vf_hb_acq(m); return 0; }
int vfe_pthread_mutex_unlock(pthread_mutex_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); vf_check(*w==vf_thread_self()+1,"OS mutex unlocked by a thread that does not hold it"); if((m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE&&w[1]){ w[1]--; return 0; } vf_hb_rel(m); *w=0; vf_wake(m,1000); return 0; }
int vfe_pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ memset(m,0,sizeof *m); if(a) m->__data.__kind=*(const int*)a&3; return 0; }
int vfe_pthread_mutex_destroy(pthread_mutex_t* m){ vf_check(*(volatile int*)m==0,"OS mutex destroyed while locked"); return 0; }
// ---- shared mutexes: first word: 0 free, -1 exclusive, n shared
int vfe_pthread_rwlock_rdlock(pthread_rwlock_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); while(*w<0) vf_block(m,0); ++*w; vf_hb_acq(m); return 0; }
int vfe_pthread_rwlock_tryrdlock(pthread_rwlock_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); if(*w<0) return EBUSY; ++*w; vf_hb_acq(m); return 0; }
int vfe_pthread_rwlock_wrlock(pthread_rwlock_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); while(*w) vf_block(m,0); *w=-1; vf_hb_acq(m); return 0; }
int vfe_pthread_rwlock_trywrlock(pthread_rwlock_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); if(*w) return EBUSY; *w=-1; vf_hb_acq(m); return 0; }
int vfe_pthread_rwlock_unlock(pthread_rwlock_t* m){ volatile int* w=(volatile int*)m; vf_point(m,1); vf_check(*w!=0,"OS shared mutex unlocked although it is free"); vf_hb_rel(m); if(*w<0) *w=0; else --*w; vf_wake(m,1000); return 0; }
unsigned vfe_hardware_concurrency(){ return 4; }
static int cwait(pthread_cond_t* c,pthread_mutex_t* m,int timed,uint64_t deadline){
    volatile int* w=(volatile int*)m; vf_point(c,1); vf_check(*w==vf_thread_self()+1,"condition wait without holding the OS mutex");
    vf_hb_rel(m); *w=0; vf_wake(m,1000); int r=vf_block(c,timed&&vfe_timeouts_late?2:timed);
    if(r==1) vfe_clock_at_least(deadline);
    vf_point(m,1); while(*w) vf_block(m,0); *w=vf_thread_self()+1; vf_hb_acq(m); return r==1?ETIMEDOUT:0; }
int vfe_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ return cwait(c,m,0,0); }
int vfe_pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t,const struct timespec* ts){
    uint64_t d=(uint64_t)ts->tv_sec*1000000000ull+(uint64_t)ts->tv_nsec; return cwait(c,m,1,d); }
int vfe_pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){
    uint64_t d=(uint64_t)ts->tv_sec*1000000000ull+(uint64_t)ts->tv_nsec; return cwait(c,m,1,d>sys_off?d-sys_off:0); }
int vfe_pthread_cond_signal(pthread_cond_t* c){ vf_point(c,1); vf_wake(c,1); return 0; }
int vfe_pthread_cond_broadcast(pthread_cond_t* c){ vf_point(c,1); vf_wake(c,1000); return 0; }
int vfe_pthread_cond_init(pthread_cond_t*,const pthread_condattr_t*){ return 0; }
int vfe_pthread_cond_destroy(pthread_cond_t*){ return 0; }
// out-of-line members of std::condition_variable
void vfe_cv_ctor(std::condition_variable*){} void vfe_cv_dtor(std::condition_variable*){}
void vfe_cv_wait(std::condition_variable* c,std::unique_lock<std::mutex>* l){ cwait((pthread_cond_t*)(void*)c,l->mutex()->native_handle(),0,0); }
void vfe_cv_notify_one(std::condition_variable* c){ vfe_pthread_cond_signal((pthread_cond_t*)(void*)c); }
void vfe_cv_notify_all(std::condition_variable* c){ vfe_pthread_cond_broadcast((pthread_cond_t*)(void*)c); }
// ---- call_once: 0 not run, 1 running, 2 done
int vfe_pthread_once(pthread_once_t* o,void(*f)()){ volatile int* w=(volatile int*)o; vf_point(o,1); while(*w==1) vf_block(o,0); if(*w==2){ vf_hb_acq(o); return 0; } *w=1; f(); vf_point(o,1); vf_hb_rel(o); *w=2; vf_wake(o,1000); return 0; }
// ---- futex and friends
long vfe_syscall(long nr,int* a,int op,int v,void*,void*,int){
    op&=127; op&=~128;
    if(nr!=SYS_futex) vf_fail("unmodelled system call");
    if((op&127)==FUTEX_WAIT){ vf_point(a,0); if(*(volatile int*)a!=(int)v) { errno=EAGAIN; return -1; } vf_block(a,0); return 0; }
    if((op&127)==FUTEX_WAKE){ vf_point(a,1); return vf_wake(a,(unsigned)v); }
    vf_fail("unmodelled futex operation"); return -1; }
int vfe_sched_yield(void){ vf_yield(); return 0; }
int vfe_nanosleep(const struct timespec*,struct timespec*){ vf_yield(); return 0; }
// affinity: per thread, the set requested last; threads are identified by 4711+number
int vfe_affinity_rc=0, vfe_affinity_calls[8]; unsigned char vfe_affinity_set[8][128];
int vfe_pthread_setaffinity_np(pthread_t h,size_t n,const cpu_set_t* s){ unsigned t=(unsigned)(h-4711); vf_check(t<8,"affinity set for a thread that does not exist"); vf_check(n<=128,"affinity set of an unexpected size"); vf_exempt(vfe_affinity_set,sizeof vfe_affinity_set); vf_exempt(vfe_affinity_calls,sizeof vfe_affinity_calls); vf_exempt(&vfe_affinity_rc,4); vfe_affinity_calls[t]++; if(vfe_affinity_rc) return vfe_affinity_rc; memset(vfe_affinity_set[t],0,128); memcpy(vfe_affinity_set[t],s,n); return 0; }
pthread_t vfe_pthread_self(){ return 4711+vf_thread_self(); }
// the part of a stack handed over for execution
uintptr_t vfe_stk_sp=0; size_t vfe_stk_size=0; void* make_fcontext(void*,size_t,void(*)());
void* vfe_make_fcontext(void* sp,size_t n,void(*f)()){ vf_exempt(&vfe_stk_sp,8); vf_exempt(&vfe_stk_size,8); vfe_stk_sp=(uintptr_t)sp; vfe_stk_size=n; return make_fcontext(sp,n,f); }
void vfe_thread_join(int t) noexcept { vf_point(vf_join_addr(t),1); while(!vf_thread_done(t)) vf_block(vf_join_addr(t),0); }
}
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(){ __once_call(); } }
