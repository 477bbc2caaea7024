// C21, C22, C06: a thread that sleeps until a deadline is woken at once by a notification of another thread
#include "h.hpp"
#include <boost/fiber/algo/shared_work.hpp>
#include <boost/fiber/algo/work_stealing.hpp>
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
//@file prop=C21 mt=1 hb=1
// Time: the clock stays below FAR unless a thread times out at FAR, and threads time out only when nothing else can run.
static constexpr uint64_t FAR=1ull<<50;
static void calm(){ vfe_clock_point(false); vfe_clock_max=FAR-1; vfe_timeouts_late=true; }
static void early(){ vf_check(vfe_last_now()<FAR,"a fiber that was woken did not run before its thread's next deadline had passed"); }
enum what { COND, MUTEX, PROMISE, CHAN, TCOND, TMUTEX, TFUT, TCHAN, BARR };
struct xt { mutex m; timed_mutex tm; condition_variable cv; bool go=false, got=false; promise<int> p; future<int> f; buffered_channel<int> c{2}; barrier b{2}; std::atomic<int> stage{0}; what w; };
// a fiber of the sleeping thread blocks, here without a deadline of its own or with FAR as its deadline
static void block(xt* x){ switch(x->w){
    case COND: { std::unique_lock<mutex> lk(x->m); while(!x->go) x->cv.wait(lk); break; }
    case TCOND: { std::unique_lock<mutex> lk(x->m); while(!x->go) vf_check(x->cv.wait_until(lk,tp_of(FAR))==cv_status::no_timeout,"a timed wait that was notified reported a timeout"); break; }
    case MUTEX: x->tm.lock(); x->tm.unlock(); break;
    case TMUTEX: vf_check(x->tm.try_lock_until(tp_of(FAR)),"a timed lock failed although the mutex was released before the deadline"); x->tm.unlock(); break;
    case PROMISE: vf_check(x->f.get()==7,"wrong value"); break;
    case TFUT: vf_check(x->f.wait_until(tp_of(FAR))==future_status::ready,"a timed wait reported a timeout although the result was there before the deadline"); break;
    case CHAN: { int v=0; vf_check(x->c.pop(v)==channel_op_status::success&&v==7,"wrong value"); break; }
    case TCHAN: { int v=0; vf_check(x->c.pop_wait_until(v,tp_of(FAR))==channel_op_status::success&&v==7,"a timed pop reported a timeout although a value was there before the deadline"); break; }
    case BARR: x->b.wait(); break; }
    early(); x->got=true; }
static void unblock(xt* x){ switch(x->w){
    case COND: case TCOND: { { std::unique_lock<mutex> lk(x->m); x->go=true; } x->cv.notify_one(); break; }
    case MUTEX: case TMUTEX: x->tm.unlock(); break;
    case PROMISE: case TFUT: x->p.set_value(7); break;
    case CHAN: case TCHAN: x->c.push(7); break;
    case BARR: x->b.wait(); break; } }
static bool timed(what w){ return w==TCOND||w==TMUTEX||w==TFUT||w==TCHAN; }
template<class A,class... P> static void body(xt* x,P... p){ if constexpr(!std::is_same<A,algo::round_robin>::value) use_scheduling_algorithm<A>(p...); 
    fiber z; bool sleeper=!timed(x->w)&&x->w!=MUTEX; if(sleeper||x->w==MUTEX) z=fiber([]{ this_fiber::sleep_until(tp_of(FAR)); }); this_fiber::yield(); x->stage=1;
    block(x); x->stage=2; if(z.joinable()) z.join(); }
static void thr_rr(void* p){ body<algo::round_robin>((xt*)p); }
static void thr_sw(void* p){ body<algo::shared_work>((xt*)p,true); }
static void run(what w,void(*t)(void*)){ calm(); auto* x=new xt; x->w=w; x->f=x->p.get_future(); if(w==MUTEX||w==TMUTEX) x->tm.lock(); int id=vf_thread_spawn(t,x); if(w==MUTEX||w==TMUTEX||w==BARR) while(!x->stage) vf_yield(); unblock(x); vfe_thread_join(id); vf_check(x->got,"ghost"); delete x; vf_reach("done"); }
//@ entry=mt_wake_cond pb=3 jobs=2 reach=done bound="a thread with a sleeping fiber and one blocked on a condition variable that another thread notifies"
VF_ENTRY mt_wake_cond(){ run(COND,thr_rr); }
//@ entry=mt_wake_mutex pb=3 jobs=2 prop=C21,C03 reach=done bound="a thread with a sleeping fiber and one blocked on a timed mutex that another thread releases"
VF_ENTRY mt_wake_mutex(){ run(MUTEX,thr_rr); }
//@ entry=mt_wake_future pb=3 jobs=2 prop=C21,C14 reach=done bound="a thread with a sleeping fiber and one blocked on a future that another thread makes ready"
VF_ENTRY mt_wake_future(){ run(PROMISE,thr_rr); }
//@ entry=mt_wake_chan pb=2 jobs=2 reach=done bound="a thread with a sleeping fiber and one blocked on a channel that another thread pushes to"
VF_ENTRY mt_wake_chan(){ run(CHAN,thr_rr); }
//@ entry=mt_wake_barrier pb=3 jobs=2 prop=C21,C07 reach=done bound="a thread with a sleeping fiber and one blocked at a barrier that another thread reaches"
VF_ENTRY mt_wake_barrier(){ run(BARR,thr_rr); }
//@ entry=mt_wake_tcond pb=3 jobs=2 prop=C21,C06,C22 reach=done bound="a timed wait with a far deadline, notified by another thread"
VF_ENTRY mt_wake_tcond(){ run(TCOND,thr_rr); }
//@ entry=mt_wake_tmutex pb=3 jobs=2 prop=C21,C04,C22 reach=done bound="a timed lock with a far deadline, released by another thread"
VF_ENTRY mt_wake_tmutex(){ run(TMUTEX,thr_rr); }
//@ entry=mt_wake_tfuture pb=3 jobs=2 prop=C21,C14,C22 reach=done bound="a timed wait for a future with a far deadline, made ready by another thread"
VF_ENTRY mt_wake_tfuture(){ run(TFUT,thr_rr); }
//@ entry=mt_wake_tchan pb=2 jobs=2 prop=C21,C22 reach=done bound="a timed pop with a far deadline, another thread pushes"
VF_ENTRY mt_wake_tchan(){ run(TCHAN,thr_rr); }
//@ entry=mt_wake_sw pb=3 jobs=2 prop=C21,C23 reach=done bound="as mt_wake_cond with the work-sharing scheduler, suspending when idle"
VF_ENTRY mt_wake_sw(){ run(COND,thr_sw); }
// the algorithms themselves: a notification that precedes or meets the suspension ends it before its deadline
template<class A,class... P> static void direct(P... p){ calm(); A a(p...); bool forever=vf_bool("forever"); tpoint t=forever?(tpoint::max)():tp_of(FAR); int id=vf_thread_spawn([](void* q){ static_cast<A*>(q)->notify(); },&a); a.suspend_until(t); early(); vfe_thread_join(id); vf_reach("done"); }
//@ entry=mt_notify_rr pb=4 reach=done bound="notify against suspend_until, default scheduler"
VF_ENTRY mt_notify_rr(){ direct<algo::round_robin>(); }
//@ entry=mt_notify_sw pb=4 prop=C21,C23 reach=done bound="notify against suspend_until, work-sharing scheduler"
VF_ENTRY mt_notify_sw(){ direct<algo::shared_work>(true); }
//@ entry=mt_notify_ws pb=4 prop=C21,C24 reach=done bound="notify against suspend_until, work-stealing scheduler"
VF_ENTRY mt_notify_ws(){ direct<algo::work_stealing>(1u,true); }
// the order of wakeups by another thread is the order of resumption
struct xo { mutex m; condition_variable cv[2]; bool go[2]={}; std::atomic<int> ready{0}; unsigned n=0, log[2]; };
static void thr_order(void* p){ auto* x=(xo*)p; fiber f[2]; for(unsigned i=0;i<2;i++) f[i]=fiber([x,i]{ detail::spinlock s; { std::unique_lock<mutex> lk(x->m); if(++x->ready,true) x->cv[i].wait(lk,[x,i]{ return x->go[i]; }); lk.unlock(); } x->log[x->n++]=i; }); f[0].join(); f[1].join(); }
//@ entry=mt_wake_order prop=C19,C21 pb=2 jobs=4 reach=done bound="2 fibers of a thread woken one after the other by another thread, in either order"
VF_ENTRY mt_wake_order(){ auto* x=new xo; int t=vf_thread_spawn(thr_order,x); while(x->ready<2) vf_yield(); unsigned a=vf_choice("first",2); { std::unique_lock<mutex> lk(x->m); x->go[0]=x->go[1]=true; } x->cv[a].notify_one(); x->cv[1-a].notify_one(); vfe_thread_join(t); vf_check(x->n==2,"a fiber did not run exactly once"); vf_check(x->log[0]==a,"fibers woken by another thread were not resumed in the order in which they were woken"); delete x; vf_reach("done"); }
