// C05, C06: condition variables
#include "h.hpp"
#include <mutex>
using namespace boost::fibers;
//@file prop=C05
static const int EDL=(int)std::errc::resource_deadlock_would_occur;
template<class CV> struct world {
    mutex m; CV cv; unsigned notes=0; int tokens=0, nwait=0, woken=0, timed_out=0, returned=0; int in_cs=0; unsigned all_gen=0;
    static constexpr int NW=4; bool waiting[NW]={}; bool must[NW]={}; // must: covered by a notify_all
    void owns(std::unique_lock<mutex>& lk){ vf_check(lk.owns_lock(),"wait returned without owning the lock"); vf_check(err_of([&]{ m.try_lock(); })==EDL,"wait returned without owning the lock"); vf_check(in_cs==0,"two fibers inside the critical section"); }
    // kind 0 wait, 1 wait_until, 2 wait_for
    void wait(int me,unsigned kind){
        std::unique_lock<mutex> lk(m); vf_check(in_cs==0,"two fibers inside the critical section");
        unsigned n0=notes; nwait++; waiting[me]=true; must[me]=false; cv_status st=cv_status::no_timeout; uint64_t dl=0;
        if(kind==0) cv.wait(lk);
        else if(kind==1){ dl=vf_range("deadline",0,1ull<<40); st=cv.wait_until(lk,tp_of(dl)); }
        else { uint64_t d=vf_range("rel",0,1ull<<40); dl=vfe_last_now()+d; st=cv.wait_for(lk,nsec((int64_t)d)); }
               owns(lk); waiting[me]=false; returned++;
        in_cs++;
        if(st==cv_status::no_timeout){ vf_check(notes>n0,"a wait returned although no notification was made since it began"); woken++; vf_check(woken<=tokens,"more waiters were woken than notifications justify"); vf_reach("notified"); }
        else { timed_out++; vf_check(vfe_last_now()>=dl,"a timed wait reported a timeout before its deadline"); vf_check(!must[me]||limbo(),"a waiter that was notified reported a timeout"); vf_reach("timeout"); }
        nwait--; in_cs--; boost::this_fiber::yield(); }
    bool timed=false; bool limbo() const { return timed; }
    void one(){ int unn=0; unn=nwait-(tokens-woken); if(unn>0) tokens++; notes++; cv.notify_one(); }
    void all(){ int unn=nwait-(tokens-woken); if(unn>0) tokens+=unn; notes++; for(int i=0;i<NW;i++) if(waiting[i]) must[i]=true; cv.notify_all(); }
};
// NW waiters, NOPS notification steps
template<class CV,int NW> static void st(int nops,unsigned kinds,bool locked){
    use_any(); world<CV> w; w.timed=kinds>1; fiber f[NW];
    for(int i=0;i<NW;i++) f[i]=fiber([&w,i,kinds]{ w.wait(i,kinds>1?vf_choice("kind",kinds):0); });
    for(int s=0;s<nops;s++){
        unsigned o=vf_choice("op",3);
        if(locked&&o<2) w.m.lock();
        if(o==0) w.one(); else if(o==1) w.all(); else boost::this_fiber::yield();
        if(locked&&o<2) w.m.unlock(); }
    quiesce();
       if(kinds==1){ vf_check(w.woken==w.tokens,"a notification did not wake exactly one waiting fiber (or all of them)"); }
    else vf_check(w.nwait==0||w.woken==w.tokens,"a notification was lost although a fiber was waiting");
    // let the rest go
    while(w.returned<NW){ w.all(); quiesce(); if(kinds>1) break; }
    if(kinds>1){ w.all(); }
    for(auto&x:f) x.join(); vf_check(w.returned==NW,"ghost"); vf_reach("done"); }
//@ entry=h_cv_2 reach=done,notified bound="2 waiters, 3 steps of notify_one/notify_all/yield"
VF_ENTRY h_cv_2(){ st<condition_variable,2>(3,1,false); }
//@ entry=h_cv_3 jobs=2 reach=done,notified bound="3 waiters, 3 steps"
VF_ENTRY h_cv_3(){ st<condition_variable,3>(3,1,false); }
//@ entry=h_cvany_2 reach=done,notified bound="2 waiters, 3 steps, notifications under the lock" jobs=2
VF_ENTRY h_cvany_2(){ st<condition_variable_any,2>(3,1,true); }
//@ entry=h_cv_timed_2 prop=C05,C06 reach=done,notified,timeout jobs=4 bound="2 waiters of 3 kinds, 2 steps, symbolic deadlines and clock"
VF_ENTRY h_cv_timed_2(){ st<condition_variable,2>(2,3,false); }
//@ entry=h_cvany_timed_2 prop=C06 reach=done,notified,timeout jobs=4 bound="2 waiters of 3 kinds, 2 steps under the lock, symbolic deadlines and clock"
VF_ENTRY h_cvany_timed_2(){ st<condition_variable_any,2>(2,3,true); }
//@ entry=h_cv_timed_3 prop=C05,C06 tier=thorough reach=done,notified,timeout jobs=8 bound="3 waiters of 3 kinds, 3 steps"
VF_ENTRY h_cv_timed_3(){ st<condition_variable,3>(3,3,false); }
// one timed waiter and one notification: the verdict is exact
template<class CV> static void verdict(){
    use_any(DISP_ANY); mutex m; CV cv; bool waiting=false, notified=false, done=false; cv_status st=cv_status::no_timeout; uint64_t dl=vf_range("deadline",0,1ull<<40);
    fiber f([&]{ std::unique_lock<mutex> lk(m); waiting=true; st=cv.wait_until(lk,tp_of(dl)); vf_check(lk.owns_lock()&&err_of([&]{ m.try_lock(); })==EDL,"wait returned without owning the lock"); done=true; waiting=false; });
    unsigned y=vf_choice("yields",3); for(unsigned i=0;i<y;i++) boost::this_fiber::yield();
    if(vf_bool("notify")){ if(waiting) notified=true; if(vf_bool("all")) cv.notify_all(); else cv.notify_one(); }
    f.join();
    if(st==cv_status::timeout) { vf_check(vfe_last_now()>=dl,"a timed wait reported a timeout before its deadline"); vf_reach("timeout"); }
    else { vf_check(notified,"a timed wait reported no timeout although it was not notified"); vf_reach("notified"); } }
//@ entry=h_cv_verdict prop=C06 reach=timeout,notified bound="1 timed waiter, at most 1 notification, the dispatcher in any order"
VF_ENTRY h_cv_verdict(){ verdict<condition_variable>(); }
//@ entry=h_cvany_verdict prop=C06 reach=timeout,notified bound="1 timed waiter, at most 1 notification, the dispatcher in any order"
VF_ENTRY h_cvany_verdict(){ verdict<condition_variable_any>(); }
// predicate forms
template<class CV> static void pred(unsigned k){
    use_any(); mutex m; CV cv; bool flag=false; bool r=true; uint64_t d=vf_range("d",0,1ull<<40); uint64_t dl=0; unsigned evals=0; bool last=false;
    fiber f([&]{ std::unique_lock<mutex> lk(m); auto p=[&]{ evals++; vf_check(lk.owns_lock(),"predicate evaluated without the lock"); last=flag; return flag; };
        if(k==0) cv.wait(lk,p); else if(k==1){ dl=d; r=cv.wait_until(lk,tp_of(d),p); } else { dl=vfe_last_now()+d; r=cv.wait_for(lk,nsec((int64_t)d),p); }
        vf_check(r==last&&evals>0,"a predicate wait must return the value of the predicate"); if(!r){ vf_check(vfe_last_now()>=dl,"a predicate wait returned false before its deadline"); vf_reach("false"); } else { vf_check(flag,"a predicate wait returned true although the predicate is false"); vf_reach("true"); } });
    for(unsigned s=0;s<deep(3,6);s++){ unsigned o=vf_choice("op",3); if(o==0){ m.lock(); flag=true; m.unlock(); cv.notify_one(); } else if(o==1) cv.notify_all(); else boost::this_fiber::yield(); }
    if(k==0||vf_bool("final")){ flag=true; cv.notify_all(); quiesce(); }
    f.join(); vf_reach("done"); }
//@ entry=h_cv_pred prop=C05 reach=done,true bound="1 waiter, 3 steps"
VF_ENTRY h_cv_pred(){ pred<condition_variable>(0); }
//@ entry=h_cv_pred_until prop=C06 reach=done,true,false bound="1 waiter, 3 steps"
VF_ENTRY h_cv_pred_until(){ pred<condition_variable>(1); }
//@ entry=h_cv_pred_for prop=C06 reach=done,true,false bound="1 waiter, 3 steps"
VF_ENTRY h_cv_pred_for(){ pred<condition_variable>(2); }
//@ entry=h_cvany_pred prop=C05 reach=done,true bound="1 waiter, 3 steps"
VF_ENTRY h_cvany_pred(){ pred<condition_variable_any>(0); }
//@ entry=h_cvany_pred_until prop=C06 reach=done,true,false bound="1 waiter, 3 steps"
VF_ENTRY h_cvany_pred_until(){ pred<condition_variable_any>(1); }
//@ entry=h_cvany_pred_for prop=C06 reach=done,true,false bound="1 waiter, 3 steps"
VF_ENTRY h_cvany_pred_for(){ pred<condition_variable_any>(2); }
// ---- threads
template<class CV> struct shared { mutex m; CV cv; int flag=0; long data=0; int taken=0; };
template<class CV> static void waiter(void* p){ auto*s=(shared<CV>*)p; std::unique_lock<mutex> lk(s->m); while(s->flag==0) s->cv.wait(lk); vf_check(s->data==42,"what was written before the notification is not visible"); s->flag--; s->taken++; }
template<class CV> static void mt(bool locked,unsigned nw){ auto* s=new shared<CV>; int t[2]; for(unsigned i=0;i<nw;i++) t[i]=vf_thread_spawn(waiter<CV>,s);
    { std::unique_lock<mutex> lk(s->m); s->data=42; s->flag=nw; if(locked){ if(nw>1) s->cv.notify_all(); else s->cv.notify_one(); } }
    if(!locked){ if(nw>1) s->cv.notify_all(); else s->cv.notify_one(); }
    for(unsigned i=0;i<nw;i++) vfe_thread_join(t[i]); vf_check(s->taken==(int)nw,"a waiter did not return"); delete s; vf_reach("done"); }
//@ entry=mt_cv_locked prop=C05,C33,C21 mt=1 hb=1 pb=3 reach=done bound="1 waiting thread, notified under the lock"
VF_ENTRY mt_cv_locked(){ mt<condition_variable>(true,1); }
//@ entry=mt_cv prop=C05,C33,C21 mt=1 hb=1 pb=3 reach=done bound="1 waiting thread, notified after releasing the lock"
VF_ENTRY mt_cv(){ mt<condition_variable>(false,1); }
//@ entry=mt_cvany_all prop=C05,C33 mt=1 hb=1 pb=2 jobs=4 reach=done bound="2 waiting threads, notify_all"
VF_ENTRY mt_cvany_all(){ mt<condition_variable_any>(true,2); }
template<class CV> static void twaiter(void* p){ auto*s=(shared<CV>*)p; std::unique_lock<mutex> lk(s->m); uint64_t dl=vf_range("deadline",0,1ull<<40); while(s->flag==0){ if(s->cv.wait_until(lk,tp_of(dl))==cv_status::timeout){ vf_check(vfe_last_now()>=dl,"a timed wait reported a timeout before its deadline"); vf_reach("timeout"); break; } }
    if(s->flag){ s->flag--; s->taken++; vf_reach("notified"); } }
//@ entry=mt_cv_timed prop=C06,C21,C22,C33 mt=1 hb=1 pb=3 jobs=4 reach=done,timeout,notified bound="1 timed waiting thread, notified by another"
VF_ENTRY mt_cv_timed(){ auto* s=new shared<condition_variable>; int t=vf_thread_spawn(twaiter<condition_variable>,s); { std::unique_lock<mutex> lk(s->m); s->flag=1; s->cv.notify_one(); } vfe_thread_join(t); vf_check(s->flag+s->taken==1,"ghost"); delete s; vf_reach("done"); }
// one notification for each of two threads: each ends exactly one wait
static void owaiter(void* p){ auto*s=(shared<condition_variable>*)p; std::unique_lock<mutex> lk(s->m); s->data++; s->cv.wait(lk); vf_check(s->flag>0,"a wait ended without a notification of its own"); s->flag--; s->taken++; }
//@ entry=mt_cv_one2 prop=C05 mt=1 hb=1 pb=1 jobs=8 reach=done bound="2 waiting threads, notify_one twice, together or one after the other has returned"
VF_ENTRY mt_cv_one2(){ auto* s=new shared<condition_variable>; int t[2]; for(int i=0;i<2;i++) t[i]=vf_thread_spawn(owaiter,s); bool apart=vf_bool("apart"); 
    for(;;){ s->m.lock(); bool b=s->data==2; if(b) break; s->m.unlock(); vf_yield(); }
    s->flag=1; s->cv.notify_one(); if(apart){ s->m.unlock(); for(;;){ s->m.lock(); if(s->taken==1) break; s->m.unlock(); vf_yield(); } } s->flag++; s->cv.notify_one(); s->m.unlock();
    for(int i=0;i<2;i++) vfe_thread_join(t[i]); vf_check(s->taken==2,"a waiter did not return"); delete s; vf_reach("done"); }
