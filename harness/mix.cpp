// C03-C07, C09, C12, C21, C22: a thread with two blocked fibers, one of them with a deadline, against one operation of another thread
#include "h.hpp"
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
typedef channel_op_status st_t;
//@file prop=C22 mt=1 hb=1
static tpoint deadline(){ return tp_of(vf_range("deadline",0,1ull<<40)); }
// A: the fiber with a deadline; B: the other one, the main fiber of its thread. Either may be the first to block.
template<class X> static void pair_thread(void* p){ auto* x=(X*)p; bool first=vf_bool("timed_first"); fiber a(first?launch::dispatch:launch::post,[x]{ x->a(); }); x->b(); a.join(); }
template<class X,class F> static void pair_run(X* x,F f){ int t=vf_thread_spawn(pair_thread<X>,x); f(x); vfe_thread_join(t); x->end(); delete x; vf_reach("done"); }
// condition variables: the only notification is not consumed by a wait that reports a timeout
template<class CV> struct xcv { mutex m; CV cv; unsigned waiting=0; bool afirst=false; bool sent=false; cv_status st=cv_status::timeout; bool passed=false, gotb=false;
    void a(){ std::unique_lock<mutex> lk(m); afirst= waiting++==0; tpoint d=deadline(); st=cv.wait_until(lk,d); if(st==cv_status::timeout){ vf_check(vfe_last_now()>=ns_of(d),"a timed wait reported a timeout before its deadline"); vf_reach("timeout"); } else { vf_check(sent,"a wait ended without a notification"); vf_reach("notified"); passed=true; cv.notify_one(); } }
    void b(){ std::unique_lock<mutex> lk(m); waiting++; cv.wait(lk); vf_check(sent,"a wait ended without a notification"); gotb=true; }
    void end(){ vf_check(gotb,"ghost"); vf_check(afirst||st==cv_status::timeout,"one notification ended two waits"); } };
template<class CV> static void send(xcv<CV>* x,bool locked){ for(;;){ std::unique_lock<mutex> lk(x->m); if(x->waiting==2){ x->sent=true; if(!locked) lk.unlock(); x->cv.notify_one(); break; } lk.unlock(); vf_yield(); } }
//@ entry=mt_mix_cv prop=C06,C22,C21,C05 pb=2 jobs=4 reach=done,timeout,notified bound="one timed and one untimed waiting fiber of a thread, in either order, one notify_one by another thread outside the lock"
VF_ENTRY mt_mix_cv(){ pair_run(new xcv<condition_variable>,[](auto* x){ send(x,false); }); }
//@ entry=mt_mix_cvl prop=C06,C22,C21 pb=2 jobs=4 reach=done,timeout,notified bound="as mt_mix_cv, condition_variable_any, notified under the lock"
VF_ENTRY mt_mix_cvl(){ pair_run(new xcv<condition_variable_any>,[](auto* x){ send(x,true); }); }
// timed mutexes: the release reaches the untimed locker even if the timed one gives up at that moment
template<class M> struct xm { M m; std::atomic<int> held{0}; bool gotb=false; int in=0; void cs(){ vf_check(in==0,"two fibers own the mutex at the same time"); in=1; vf_point(&in,1); in=0; m.unlock(); }
    void a(){ held++; tpoint d=deadline(); if(m.try_lock_until(d)){ vf_reach("got"); cs(); } else { vf_check(vfe_last_now()>=ns_of(d),"timed acquisition failed before its deadline"); vf_reach("timeout"); } }
    void b(){ held++; m.lock(); gotb=true; cs(); } void end(){ vf_check(gotb&&m.try_lock(),"mutex still owned after every owner released it"); m.unlock(); } };
template<class M> static void mrun(){ auto* x=new xm<M>; x->m.lock(); x->in=1; pair_run(x,[](auto* x){ if(vf_bool("late")) while(x->held<2) vf_yield(); x->in=0; x->m.unlock(); }); }
//@ entry=mt_mix_tm prop=C03,C04,C22 pb=2 jobs=4 reach=done,timeout,got bound="one timed and one untimed locking fiber of a thread, in either order, released by another thread"
VF_ENTRY mt_mix_tm(){ mrun<timed_mutex>(); }
//@ entry=mt_mix_rtm prop=C03,C04,C22 pb=2 jobs=4 reach=done,timeout,got bound="as mt_mix_tm, recursive"
VF_ENTRY mt_mix_rtm(){ mrun<recursive_timed_mutex>(); }
// channels: one value reaches the untimed consumer even if the timed one gives up at that moment
template<class CH> struct xc { CH* c; std::atomic<int> n{0}; bool again=false, gotb=false;
    void a(){ n++; tpoint d=deadline(); long v=0; st_t r=c->pop_wait_until(v,d); if(r==st_t::success){ vf_check(v==5,"a value was lost, duplicated, changed or reordered"); again=true; vf_reach("got"); vf_check(c->push(6)==st_t::success,"push: wrong status"); } else { vf_check(r==st_t::timeout,"pop: wrong status"); vf_check(vfe_last_now()>=ns_of(d),"pop timed out before its deadline"); vf_reach("timeout"); } }
    void b(){ n++; long v=0; vf_check(c->pop(v)==st_t::success,"pop: wrong status"); vf_check(v==(again?6:5),"a value was lost, duplicated, changed or reordered"); gotb=true; } void end(){ vf_check(gotb,"ghost"); delete c; } };
template<class CH> static void crun(CH* c){ auto* x=new xc<CH>; x->c=c; pair_run(x,[](auto* x){ if(vf_bool("late")) while(x->n<2) vf_yield(); vf_check(x->c->push(5)==st_t::success,"push: wrong status"); }); }
//@ entry=mt_mix_bpop prop=C09,C08,C22 pb=1 jobs=4 reach=done,timeout,got bound="one timed and one untimed popping fiber of a thread, in either order, one push by another thread; buffered"
VF_ENTRY mt_mix_bpop(){ crun(new buffered_channel<long>(2)); }
//@ entry=mt_mix_upop prop=C11,C12,C22 pb=1 jobs=4 reach=done,timeout,got bound="as mt_mix_bpop; unbuffered"
VF_ENTRY mt_mix_upop(){ crun(new unbuffered_channel<long>); }
// channels: room (or a consumer) reaches the untimed producer even if the timed one gives up at that moment
template<class CH> struct xp { CH* c; std::atomic<int> n{0}; unsigned pre=0; st_t ra=st_t::closed; unsigned seen[4]={};
    void a(){ n++; tpoint d=deadline(); ra=c->push_wait_until(1l,d); if(ra==st_t::success) vf_reach("got"); else { vf_check(ra==st_t::timeout,"push: wrong status"); vf_check(vfe_last_now()>=ns_of(d),"push timed out before its deadline"); vf_reach("timeout"); } }
    void b(){ n++; vf_check(c->push(2l)==st_t::success,"push: wrong status"); }
    void take(long v){ vf_check(v>=1&&v<=3&&!seen[v],"a value was lost, duplicated, changed or reordered"); seen[v]=1; }
    void end(){ if constexpr(std::is_same<CH,buffered_channel<long>>::value){ long v; while(c->try_pop(v)==st_t::success) take(v); } vf_check(seen[2]&&seen[3]==pre&&seen[1]==(ra==st_t::success),"the statuses of the pushes and the values received disagree"); delete c; } };
template<class CH> static void prun(CH* c,unsigned pre){ auto* x=new xp<CH>; x->c=c; x->pre=pre; if(pre) x->c->push(3l); pair_run(x,[](auto* x){ if(vf_bool("late")) while(x->n<2) vf_yield(); do { long v=0; vf_check(x->c->pop(v)==st_t::success,"pop: wrong status"); x->take(v); } while(!x->seen[2]); }); }
//@ entry=mt_mix_bpush prop=C09,C08,C22 pb=1 jobs=4 reach=done,timeout,got bound="one timed and one untimed pushing fiber of a thread on a full channel, in either order, values taken by another thread"
VF_ENTRY mt_mix_bpush(){ prun(new buffered_channel<long>(2),1); }
//@ entry=mt_mix_upush prop=C11,C12,C22 pb=1 jobs=8 reach=done,timeout,got bound="one timed and one untimed pushing fiber of a thread, in either order, values taken by another thread; unbuffered"
VF_ENTRY mt_mix_upush(){ prun(new unbuffered_channel<long>,0); }
//@ entry=mt_mix_bpop2 prop=C09,C22 pb=2 jobs=8 tier=thorough reach=done,timeout,got bound="as mt_mix_bpop"
VF_ENTRY mt_mix_bpop2(){ crun(new buffered_channel<long>(2)); }
//@ entry=mt_mix_bpush2 prop=C09,C22 pb=2 jobs=8 tier=thorough reach=done,timeout,got bound="as mt_mix_bpush"
VF_ENTRY mt_mix_bpush2(){ prun(new buffered_channel<long>(2),1); }
//@ entry=mt_mix_upop2 prop=C12,C22 pb=2 jobs=8 tier=thorough reach=done,timeout,got bound="as mt_mix_upop"
VF_ENTRY mt_mix_upop2(){ crun(new unbuffered_channel<long>); }
// a barrier and a future shared by two fibers of a thread and another thread
struct xb { barrier b_{3}; std::atomic<int> leaders{0}, out{0}, in{0}; void w(){ in++; bool l=b_.wait(); vf_check(in>=3,"a barrier let a fiber pass before the group was complete"); if(l) leaders++; out++; } void a(){ w(); } void b(){ w(); } void end(){ vf_check(out==3&&leaders==1,"a barrier must have exactly one leader per group"); } };
//@ entry=mt_mix_bar prop=C07,C21 pb=2 jobs=4 reach=done bound="a barrier of 3: two fibers of a thread and another thread"
VF_ENTRY mt_mix_bar(){ pair_run(new xb,[](auto* x){ x->w(); }); }
struct xf { promise<long> p; shared_future<long> f; bool set=false; long d=0; void a(){ tpoint t=deadline(); if(f.wait_until(t)==future_status::timeout){ vf_check(vfe_last_now()>=ns_of(t),"a timed wait reported a timeout before its deadline"); vf_reach("timeout"); } else { vf_check(f.get()==9&&d==4,"a waiter read another value than the one set"); vf_reach("ready"); } } void b(){ vf_check(f.get()==9&&d==4,"a waiter read another value than the one set"); } void end(){} };
//@ entry=mt_mix_fut prop=C14,C22,C21 pb=2 jobs=4 reach=done,timeout,ready bound="one timed and one untimed waiting fiber of a thread, set by another thread"
VF_ENTRY mt_mix_fut(){ auto* x=new xf; x->f=x->p.get_future().share(); pair_run(x,[](auto* x){ x->d=4; x->p.set_value(9); }); }
