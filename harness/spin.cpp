// C28: the spinlock variants, used directly and as the lock inside the library
#include "h.hpp"
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
using namespace boost::fibers;
//@file prop=C28 mt=1 hb=1
template<class L> struct sl { L l; volatile int owner=-1; long data=0; };
template<class L> struct sa { sl<L>* s; int me; unsigned n; unsigned kinds; unsigned got; };
template<class L> static void cs(sl<L>* s,int me){ vf_check(s->owner==-1,"two threads hold the spinlock at the same time"); s->owner=me; long d=s->data; vf_point(&s->owner,1); vf_check(s->owner==me,"two threads hold the spinlock at the same time"); s->data=d+1; s->owner=-1; }
template<class L> static void th(void* p){ auto* a=(sa<L>*)p; for(unsigned k=0;k<a->n;k++){ if(a->kinds>1&&vf_choice("op",2)){ if(a->s->l.try_lock()){ cs(a->s,a->me); a->s->l.unlock(); a->got++; } else vf_reach("refused"); } else { a->s->l.lock(); cs(a->s,a->me); a->s->l.unlock(); a->got++; } } }
template<class L> static void go(unsigned nt,unsigned n,unsigned kinds){ auto* s=new sl<L>; sa<L> a[3]; int t[3]; vf_exempt((void*)&s->owner,4); for(unsigned i=0;i<nt;i++) a[i]=sa<L>{s,(int)i,n,kinds,0}; for(unsigned i=1;i<nt;i++) t[i]=vf_thread_spawn(th<L>,&a[i]); th<L>(&a[0]); for(unsigned i=1;i<nt;i++) vfe_thread_join(t[i]); long w=0; for(unsigned i=0;i<nt;i++) w+=a[i].got; vf_check(s->data==w,"an update made under the spinlock was lost"); vf_check(s->l.try_lock(),"a spinlock that nobody holds refused a non-blocking attempt"); vf_check(!s->l.try_lock(),"a held spinlock was acquired again"); s->l.unlock(); s->l.lock(); s->l.unlock(); delete s; vf_reach("done"); }
//@ entry=s_ttas pb=4 jobs=2 reach=done,refused bound="test-and-test-and-set lock: 2 threads x 2 operations (lock, try_lock)"
VF_ENTRY s_ttas(){ go<detail::spinlock_ttas>(2,2,2); }
//@ entry=s_adapt pb=4 jobs=2 reach=done,refused bound="adaptive lock: 2 threads x 2 operations (lock, try_lock)"
VF_ENTRY s_adapt(){ go<detail::spinlock_ttas_adaptive>(2,2,2); }
//@ entry=s_futex pb=3 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=2" reach=done,refused bound="futex lock, retry threshold 2: 2 threads x 2 operations"
VF_ENTRY s_futex(){ go<detail::spinlock_ttas_futex>(2,2,2); }
//@ entry=s_afutex pb=3 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=2" reach=done,refused bound="adaptive futex lock, retry threshold 2: 2 threads x 2 operations"
VF_ENTRY s_afutex(){ go<detail::spinlock_ttas_adaptive_futex>(2,2,2); }
//@ entry=s_ttas3 pb=4 jobs=2 reach=done bound="test-and-test-and-set lock: 3 threads x 1 lock"
VF_ENTRY s_ttas3(){ go<detail::spinlock_ttas>(3,1,1); }
//@ entry=s_adapt3 pb=4 jobs=2 reach=done bound="adaptive lock: 3 threads x 1 lock"
VF_ENTRY s_adapt3(){ go<detail::spinlock_ttas_adaptive>(3,1,1); }
//@ entry=s_futex3 pb=4 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=1" reach=done bound="futex lock, retry threshold 1: 3 threads x 1 lock"
VF_ENTRY s_futex3(){ go<detail::spinlock_ttas_futex>(3,1,1); }
//@ entry=s_afutex3 pb=4 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=1" reach=done bound="adaptive futex lock, retry threshold 1: 3 threads x 1 lock"
VF_ENTRY s_afutex3(){ go<detail::spinlock_ttas_adaptive_futex>(3,1,1); }
// the library built on each variant
struct lib { mutex m; condition_variable cv; bool go=false; long data=0; };
static void lt(void* p){ auto* x=(lib*)p; { std::unique_lock<mutex> lk(x->m); x->go=true; x->data++; } x->cv.notify_one(); }
static void lib_go(){ lib x; int t=vf_thread_spawn(lt,&x); { std::unique_lock<mutex> lk(x.m); x.cv.wait(lk,[&]{ return x.go; }); x.data++; } vfe_thread_join(t); vf_check(x.data==2,"an update made under the mutex was lost"); vf_reach("done"); }
//@ entry=s_lib_adapt pb=2 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE" reach=done bound="mutex and condition variable between 2 threads, adaptive spinlock"
VF_ENTRY s_lib_adapt(){ lib_go(); }
//@ entry=s_lib_futex pb=3 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=1" reach=done bound="mutex and condition variable between 2 threads, futex spinlock"
VF_ENTRY s_lib_futex(){ lib_go(); }
//@ entry=s_lib_afutex pb=3 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=1" reach=done bound="mutex and condition variable between 2 threads, adaptive futex spinlock"
VF_ENTRY s_lib_afutex(){ lib_go(); }
//@ entry=s_lib_std pb=2 jobs=2 defs="-DBOOST_FIBERS_SPINLOCK_STD_MUTEX" reach=done bound="mutex and condition variable between 2 threads, std::mutex as spinlock"
VF_ENTRY s_lib_std(){ lib_go(); }
