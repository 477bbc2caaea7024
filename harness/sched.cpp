// C19, C20, C25, C26, C32, C36: default scheduler, sleeping, fiber-specific storage, properties, replacing the scheduler, protocol of custom schedulers
#include "h.hpp"
#include <deque>
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
//@file prop=C19
static launch pol(){ return vf_bool("dispatch")?launch::dispatch:launch::post; }
static int64_t now_ns(){ return (int64_t)std::chrono::steady_clock::now().time_since_epoch().count(); }
// ---- C19: the default scheduler observed
struct rr : algo::round_robin { context* g[16]; unsigned n=0; static inline unsigned picks=0;
    void awakened(context* c) noexcept override { for(unsigned i=0;i<n;i++) vf_check(g[i]!=c,"a fiber already ready was announced again"); vf_check(n<16,"harness: queue"); g[n++]=c; algo::round_robin::awakened(c); vf_check(has_ready_fibers(),"has_ready_fibers() is false although a fiber is ready"); }
    context* pick_next() noexcept override { vf_check(has_ready_fibers()==(n>0),"has_ready_fibers() is wrong"); context* c=algo::round_robin::pick_next(); if(!n){ vf_check(c==nullptr,"a fiber was picked that is not ready"); return c; } vf_check(c==g[0],"the fiber picked is not the one that has been ready longest"); for(unsigned i=1;i<n;i++) g[i-1]=g[i]; n--; picks++; return c; } };
//@ entry=h_rr_fifo reach=done jobs=4 bound="3 fibers of 2, 2 and 1 operations (yield, wait, notify one/all, sleep, launch) and the main fiber"
VF_ENTRY h_rr_fifo(){ use_scheduling_algorithm<rr>(); vfe_clock_step=100; mutex m; condition_variable cv; unsigned waiting=0, fin=0, extra=0; fiber f[3];
    for(unsigned i=0;i<3;i++) f[i]=fiber(i==1&&vf_bool("dispatch")?launch::dispatch:launch::post,[&,i]{ for(unsigned k=0;k<(i==2?1:2);k++) switch(vf_choice("op",5)){ case 0: this_fiber::yield(); break; case 1: { std::unique_lock<mutex> lk(m); waiting++; cv.wait(lk); break; } case 2: { std::unique_lock<mutex> lk(m); if(waiting) waiting--; cv.notify_one(); break; } case 3: this_fiber::sleep_for(nsec(150)); break; case 4: extra++; fiber([&]{ fin++; }).detach(); break; } fin++; });
    while(fin<3+extra){ { std::unique_lock<mutex> lk(m); waiting=0; cv.notify_all(); } this_fiber::yield(); } for(auto& x:f) x.join(); vf_reach("done"); }
//@ entry=h_rr_cycle reach=done bound="4 fibers yielding 1-3 times each and the main fiber; observed from the fibers only"
static unsigned cyc_n; static unsigned cyc_log[64];
VF_ENTRY h_rr_cycle(){ unsigned rounds[4]; fiber f[4]; for(unsigned i=0;i<4;i++) rounds[i]=1+vf_choice("rounds",3);
    for(unsigned i=0;i<4;i++) f[i]=fiber([i,r=rounds[i]]{ for(unsigned k=0;k<r;k++){ cyc_log[cyc_n++]=i; this_fiber::yield(); } });
    // main runs once per round: every ready fiber has run exactly once since, in order of creation
    for(unsigned k=0;k<4;k++){ cyc_n=0; this_fiber::yield(); unsigned want[4],w=0; for(unsigned i=0;i<4;i++) if(rounds[i]>k) want[w++]=i; vf_check(cyc_n==w,"a ready fiber ran twice or not at all before another one ran"); for(unsigned i=0;i<w;i++) vf_check(cyc_log[i]==want[i],"ready fibers were not resumed in the order they became ready"); }
    for(auto& x:f) x.join(); vf_reach("done"); }
//@ entry=h_rr_wake reach=done bound="4 fibers made ready in any order by separate notifications, launched or yielding in between"
VF_ENTRY h_rr_wake(){ mutex m; condition_variable c[3]; fiber f[3]; unsigned log[8],n=0; for(unsigned i=0;i<3;i++) f[i]=fiber([&,i]{ std::unique_lock<mutex> lk(m); c[i].wait(lk); lk.unlock(); log[n++]=i; }); this_fiber::yield();
    unsigned id[3]={0,1,2}, want[4]; unsigned w=0; fiber g; unsigned at=vf_choice("at",4); for(unsigned k=3;k;k--){ if(3-k==at){ g=fiber([&]{ log[n++]=7; }); want[w++]=7; } unsigned x=k>1?vf_choice("next",k):0; want[w++]=id[x]; { std::unique_lock<mutex> lk(m); if(vf_bool("all")) c[id[x]].notify_all(); else c[id[x]].notify_one(); } id[x]=id[k-1]; } if(at==3){ g=fiber([&]{ log[n++]=7; }); want[w++]=7; }
    vf_check(n==0,"a fiber ran while another one was running"); this_fiber::yield(); vf_check(n==4,"a ready fiber did not run before the yielding one ran again"); for(unsigned i=0;i<4;i++) vf_check(log[i]==want[i],"ready fibers were not resumed in the order they became ready"); for(auto& x:f) x.join(); g.join(); vf_reach("done"); }
// ---- C20
struct slp : any_order { using any_order::any_order; static inline struct { context* c; int64_t d; bool on; } z[6]; static inline unsigned nz=0; static inline int64_t mark=-1, last=INT64_MIN;
    static void sleeping(unsigned i,int64_t d){ z[i].c=context::active(); z[i].d=d; z[i].on=true; if(nz<=i) nz=i+1; }
    void awakened(context* c) noexcept override { any_order::awakened(c); for(unsigned i=0;i<nz;i++) if(z[i].on&&z[i].c==c){ z[i].on=false; int64_t n=(int64_t)vfe_last_now(); vf_check(n>=z[i].d,"a sleeping fiber was made ready before its wake-up time");
        for(unsigned k=0;k<nz;k++) if(z[k].on) vf_check(z[k].d>=z[i].d,"a sleeping fiber was made ready before another one with an earlier wake-up time"); } }
    void suspend_until(tpoint const& t) noexcept override { int64_t e=INT64_MAX; for(unsigned i=0;i<nz;i++) if(z[i].on&&z[i].d<e) e=z[i].d; vf_check((int64_t)ns_of(t)==e,"the thread is not suspended until the earliest deadline"); any_order::suspend_until(t); } };
//@ entry=h_sleep_any prop=C20 reach=done jobs=2 bound="2 sleeping fibers, any wake-up times including past, equal and the largest but one; any launch policy"
VF_ENTRY h_sleep_any(){ bf::use_scheduling_algorithm<slp>(DISP_FIFO,true); fiber f[2]; unsigned n=0; for(unsigned i=0;i<2;i++) f[i]=fiber(pol(),[&,i]{ int64_t d=(int64_t)vf_sym("d",64); vf_assume(d<INT64_MAX); slp::sleeping(i,d); this_fiber::sleep_until(tp_of((uint64_t)d)); vf_check((int64_t)vfe_last_now()>=d,"a sleeping fiber was resumed before its wake-up time"); n++; });
    for(auto& x:f) x.join(); vf_check(n==2,"a sleeping fiber was not resumed exactly once"); after=no_leak; vf_reach("done"); }
//@ entry=h_sleep_order prop=C20,C36 reach=done jobs=4 bound="3 sleeping fibers, any wake-up times up to 2^40 ns"
VF_ENTRY h_sleep_order(){ bf::use_scheduling_algorithm<slp>(DISP_FIFO,true); fiber f[3]; unsigned n=0; for(unsigned i=0;i<3;i++) f[i]=fiber([&,i]{ int64_t d=(int64_t)vf_range("d",0,1ull<<40); slp::sleeping(i,d); this_fiber::sleep_until(tp_of((uint64_t)d)); vf_check((int64_t)vfe_last_now()>=d,"a sleeping fiber was resumed before its wake-up time"); n++; });
    for(auto& x:f) x.join(); vf_check(n==3,"a sleeping fiber was not resumed exactly once"); after=no_leak; vf_reach("done"); }
//@ entry=h_sleep_twice prop=C20 reach=done bound="2 fibers sleeping twice each, any durations and wake-up times up to 2^40 ns"
VF_ENTRY h_sleep_twice(){ bf::use_scheduling_algorithm<slp>(DISP_FIFO,true); fiber f[2]; unsigned n=0; for(unsigned i=0;i<2;i++) f[i]=fiber([&,i]{ for(unsigned k=0;k<2;k++){ int64_t d=(int64_t)vf_range("d",0,1ull<<40); slp::sleeping(i,d); this_fiber::sleep_until(tp_of((uint64_t)d)); vf_check((int64_t)vfe_last_now()>=d,"a sleeping fiber was resumed before its wake-up time"); n++; } });
    for(auto& x:f) x.join(); vf_check(n==4,"a sleeping fiber was not resumed exactly once"); after=no_leak; vf_reach("done"); }
//@ entry=h_sleep_busy prop=C20 reach=done,slept bound="a sleeping fiber among fibers and a main fiber that keep yielding, default scheduler"
VF_ENTRY h_sleep_busy(){ uint64_t d=vf_range("d",0,1ull<<40); bool woke=false; bool stop=false; fiber f([&]{ this_fiber::sleep_until(tp_of(d)); vf_check(vfe_last_now()>=d,"a sleeping fiber was resumed before its wake-up time"); woke=true; }), g([&]{ while(!stop) this_fiber::yield(); }); this_fiber::yield();
    for(unsigned k=0;k<3;k++){ int64_t t=now_ns(); this_fiber::yield(); this_fiber::yield(); if(t>=(int64_t)d){ vf_check(woke,"a sleeping fiber is not resumed after its wake-up time while others keep yielding"); vf_reach("slept"); } } stop=true; g.join(); f.join(); vf_check(woke,"join returned early"); vf_reach("done"); }
//@ entry=h_sleep_main prop=C20 reach=done bound="the main fiber sleeping, with and without other sleeping or yielding fibers, default scheduler; durations up to 2^40 ns"
VF_ENTRY h_sleep_main(){ uint64_t d=vf_range("d",0,1ull<<40); uint64_t e=vf_range("e",0,1ull<<40); bool w=vf_bool("with"); fiber f; bool done=false; if(w) f=fiber(pol(),[&]{ this_fiber::yield(); this_fiber::sleep_for(nsec((int64_t)e)); done=true; }); uint64_t t=vfe_last_now(); this_fiber::sleep_for(nsec((int64_t)d)); vf_check(vfe_last_now()-t>=d,"a sleeping fiber was resumed before its wake-up time"); if(w){ f.join(); vf_check(done,"join returned early"); } after=no_leak; vf_reach("done"); }
// ---- C36: protocol seen by a custom scheduler
struct proto : any_order { using any_order::any_order; struct st { context* c; int s; }; static inline st z[24]; static inline unsigned nz=0; static inline unsigned aw=0; static st& of(context* c){ for(unsigned i=0;i<nz;i++) if(z[i].c==c) return z[i]; vf_check(nz<24,"harness"); z[nz]={c,0}; return z[nz++]; }
    void awakened(context* c) noexcept override { st& s=of(c); vf_check(s.s!=1,"a fiber was announced while it was ready"); vf_check(s.s!=3,"a fiber was announced after it had finished"); s.s=1; aw++; any_order::awakened(c); }
    context* pick_next() noexcept override { context* c=any_order::pick_next(); if(c){ of(c).s=2; } return c; } };
static void life(unsigned k,mutex& m,condition_variable& cv,bool& go,buffered_channel<int>& ch){ vf_check(has_ready_fibers()==(cur_any->n>0),"has_ready_fibers does not report what the scheduler says"); switch(k){ case 0: this_fiber::yield(); break; case 1: { std::unique_lock<mutex> lk(m); cv.wait(lk,[&]{ return go; }); break; } case 2: this_fiber::sleep_for(nsec(10)); break; case 3: { std::unique_lock<mutex> lk(m); (void)cv.wait_for(lk,nsec((int64_t)vf_range("w",0,100)),[&]{ return go; }); break; } case 4: { int v; if(ch.pop(v)==channel_op_status::success){} break; } } }
//@ entry=h_proto prop=C36 reach=done jobs=8 bound="2 fibers of one blocking operation each out of 5, every resume order the scheduler may pick"
VF_ENTRY h_proto(){ bf::use_scheduling_algorithm<proto>(DISP_ANY); mutex m; condition_variable cv; bool go=false; buffered_channel<int> ch(4); unsigned fin=0; fiber f[2]; for(unsigned i=0;i<2;i++) f[i]=fiber(pol(),[&]{ life(vf_choice("op",5),m,cv,go,ch); fin++; proto::of(context::active()).s=3; });
    { std::unique_lock<mutex> lk(m); go=true; } cv.notify_all(); ch.close(); for(auto& x:f) x.join(); vf_check(fin==2,"a fiber did not run exactly once"); after=no_leak; vf_reach("done"); }
//@ entry=h_proto3 prop=C36 reach=done jobs=8 bound="3 fibers of one blocking operation each out of 5, resumed in order of readiness"
VF_ENTRY h_proto3(){ bf::use_scheduling_algorithm<proto>(DISP_FIFO); mutex m; condition_variable cv; bool go=false; buffered_channel<int> ch(4); unsigned fin=0; fiber f[3]; for(unsigned i=0;i<3;i++) f[i]=fiber([&]{ life(vf_choice("op",5),m,cv,go,ch); fin++; proto::of(context::active()).s=3; });
    { std::unique_lock<mutex> lk(m); go=true; } cv.notify_all(); ch.close(); for(auto& x:f) x.join(); vf_check(fin==3,"a fiber did not run exactly once"); after=no_leak; vf_reach("done"); }
// ---- C25
struct val { static inline unsigned made=0, gone=0; static inline unsigned cleaned[32]; unsigned id; val():id(made++){ cleaned[id]=0; } }; 
static void clean(val* v){ vf_check(v!=nullptr,"the cleanup function was called with null"); vf_check(val::cleaned[v->id]==0,"the cleanup function was called twice for a value"); val::cleaned[v->id]++; val::gone++; }
struct own { val* v[32]; unsigned n=0; val* mk(){ val* x=new val; v[n++]=x; return x; } void free(){ for(unsigned i=0;i<n;i++) delete v[i]; } };
typedef fiber_specific_ptr<val> fp;
static void fss_body(own& o,fp& a,fp& b,unsigned ops,bool ylds){ val* cur[2]={nullptr,nullptr}; vf_check(!a.get()&&!b.get(),"a fiber-specific pointer is not null at first");
    for(unsigned k=0;k<ops;k++){ unsigned w=vf_choice("which",2); fp& p=w?b:a; val* old=cur[w]; switch(vf_choice("op",5)){
        case 0: cur[w]=o.mk(); p.reset(cur[w]); vf_check(p.get()==cur[w]&&&*p==cur[w]&&p->id==cur[w]->id,"a fiber-specific pointer does not return the value last stored by this fiber"); vf_check(!old||val::cleaned[old->id]==1,"a replaced value was not cleaned up"); break;
        case 1: p.reset(cur[w]); vf_check(!old||val::cleaned[old->id]==0,"storing the value already stored cleaned it up"); break;
        case 2: { val* r=p.release(); vf_check(r==old,"release returned another value"); cur[w]=nullptr; if(r) vf_check(val::cleaned[r->id]==0,"a released value was cleaned up"); if(old) val::cleaned[old->id]=100; break; }
        case 3: p.reset(nullptr); cur[w]=nullptr; vf_check(!old||val::cleaned[old->id]==1,"a replaced value was not cleaned up"); break;
        case 4: if(ylds) this_fiber::yield(); break; }
        vf_check(a.get()==cur[0]&&b.get()==cur[1],"a fiber-specific pointer does not return the value last stored by this fiber"); for(unsigned i=0;i<2;i++) if(cur[i]) vf_check(val::cleaned[cur[i]->id]==0,"a value still stored was cleaned up"); } }
static void fss_end(own& o){ for(unsigned i=0;i<o.n;i++) vf_check(val::cleaned[o.v[i]->id]==1||val::cleaned[o.v[i]->id]==100,"a value was never cleaned up although its fiber ended"); o.free(); }
//@ entry=h_fss prop=C25 reach=done jobs=4 bound="2 pointers at different distances in memory, 2 fibers of 2 operations (store, store same, release, reset, yield), interleaved; joined or detached"
VF_ENTRY h_fss(){ bf::use_scheduling_algorithm<any_order>(DISP_FIFO,true); own o; { struct alignas(64) { fp p[8]; } pp{{fp(clean),fp(clean),fp(clean),fp(clean),fp(clean),fp(clean),fp(clean),fp(clean)}}; fp& a=pp.p[0]; fp& b=pp.p[1u<<vf_choice("apart",3)]; fiber f([&]{ fss_body(o,a,b,2,true); }), g([&]{ fss_body(o,a,b,2,true); }); vf_check(!a.get(),"a fiber-specific pointer is not null at first"); f.join(); g.join(); quiesce(); vf_check(!a.get()&&!b.get(),"a value of another fiber is visible"); fss_end(o); } after=no_leak; vf_reach("done"); }
//@ entry=h_fss_main prop=C25 reach=done jobs=2 bound="2 pointers, 3 operations by the main fiber; values left at the end of the thread"
static own* OM; static fp *PA,*PB;
VF_ENTRY h_fss_main(){ OM=new own; PA=new fp(clean); PB=new fp(clean); after=[]{ fss_end(*OM); delete OM; no_leak(); }; fiber f([]{ vf_check(!PA->get(),"a value of another fiber is visible"); this_fiber::yield(); vf_check(!PA->get(),"a value of another fiber is visible"); }); fss_body(*OM,*PA,*PB,3,true); f.join(); if(vf_bool("destroy")){ delete PB; delete PA; } else { static struct late { ~late(){} } l; auto* pa=PA; auto* pb=PB; boost::fibers::context::active(); struct D { fp*a,*b; }; static D d{pa,pb}; auto old=after; (void)old; after=[]{ fss_end(*OM); delete OM; delete PA; delete PB; }; } vf_reach("done"); }
//@ entry=h_fss_dtor prop=C25 reach=done bound="a pointer destroyed by a fiber that has a value; default and custom cleanup"
VF_ENTRY h_fss_dtor(){ use_any(); own o; tracked* t=nullptr; fiber f(pol(),[&]{ { fp a(clean); if(vf_bool("set")) a.reset(o.mk()); } { fiber_specific_ptr<tracked> d; if(vf_bool("tr")) d.reset(new tracked(3)); if(vf_bool("rep")) d.reset(new tracked(4)); if(vf_bool("none")) { fiber_specific_ptr<tracked> n(nullptr); static tracked s(1); n.reset(&s); } } vf_check(ts.live<=1,"a value of a destroyed pointer was not cleaned up"); }); f.join(); fss_end(o); vf_reach("done"); }
//@ entry=h_fss_block prop=C25,C17 reach=done bound="a cleanup function that yields, locks or sleeps; the fiber joined before or after its end by the main fiber and another one, or detached; any resume order"
static mutex* MB; static unsigned block_kind; static void cleanb(val* v){ clean(v); switch(block_kind){ case 0: this_fiber::yield(); break; case 1: { std::unique_lock<mutex> lk(*MB); break; } case 2: this_fiber::sleep_for(nsec(10)); break; } val::gone++; }
VF_ENTRY h_fss_block(){ vfe_clock_step=10; block_kind=vf_choice("kind",3); bf::use_scheduling_algorithm<any_order>(DISP_FIFO,block_kind==2); mutex m; MB=&m; own o; { fp p(cleanb); unsigned joined=0; bool dt=vf_bool("detach"); fiber f([&]{ p.reset(o.mk()); }), g; if(dt) f.detach(); else g=fiber([&]{ f.join(); vf_check(val::gone==2,"join returned before the fiber's values were cleaned up"); joined++; }); fiber h([&]{ m.lock(); this_fiber::yield(); this_fiber::yield(); m.unlock(); }); h.join(); if(!dt) g.join(); else quiesce(); vf_check(joined==(dt?0u:1u),"join did not return"); while(dt&&val::gone<2) this_fiber::yield(); fss_end(o); } after=no_leak; vf_reach("done"); }
//@ entry=h_fss_nest prop=C25,C17 reach=done bound="cleanup functions that read, store, release or reset the other pointer of the fiber, or store to their own, while the fiber or the thread ends; 2 pointers in either order, the second pointer set or not"
static fp *NA,*NB; static own* NO; static unsigned nest_kind; static val* nest_new;
static void nestb(val* v){ clean(v); switch(nest_kind){ case 0: { val* x=NA->get(); if(x) vf_check(val::cleaned[x->id]==0,"a fiber-specific pointer returns a value that was cleaned up"); break; } case 1: { val* x=NA->get(); if(x) vf_check(val::cleaned[x->id]==0,"a fiber-specific pointer returns a value that was cleaned up"); NA->reset(nullptr); break; } case 2: { val* x=NA->release(); if(x){ vf_check(val::cleaned[x->id]==0,"a fiber-specific pointer returns a value that was cleaned up"); val::cleaned[x->id]=100; } break; } case 3: NA->reset(nest_new=NO->mk()); vf_check(NA->get()==nest_new,"a fiber-specific pointer does not return the value last stored by this fiber"); break; case 4: if(!nest_new) NB->reset(nest_new=NO->mk()); break; } }
VF_ENTRY h_fss_nest(){ nest_kind=vf_choice("kind",5); nest_new=nullptr; NO=new own; bool sw=vf_bool("order"), seta=vf_bool("a"); struct two { fp x,y; two(bool s):x(s?nestb:clean),y(s?clean:nestb){} }; auto* t=new two(sw); NA=sw?&t->y:&t->x; NB=sw?&t->x:&t->y; auto body=[seta]{ if(seta) NA->reset(NO->mk()); NB->reset(NO->mk()); };
    static two* T; T=t; after=[]{ fss_end(*NO); delete NO; delete T; no_leak(); }; if(vf_bool("main")) body(); else { fiber f(pol(),body); if(vf_bool("detach")) f.detach(); else { f.join(); fss_end(*NO); NO->n=0; } } vf_reach("done"); }
//@ entry=mt_fss prop=C25,C33 mt=1 hb=1 pb=2 jobs=2 reach=done bound="one pointer used by the main fibers and a fiber of 2 threads"
struct xf { fp* p; own o[2]; unsigned ok=0; }; static void fthr(void* q){ auto* x=(xf*)q; vf_check(!x->p->get(),"a fiber-specific pointer is not null at first"); val* v=x->o[1].mk(); x->p->reset(v); fiber f([x]{ vf_check(!x->p->get(),"a value of another fiber is visible"); }); f.join(); vf_check(x->p->get()==v,"a fiber-specific pointer does not return the value last stored by this fiber"); x->ok++; }
VF_ENTRY mt_fss(){ xf* x=new xf; val::made=0; x->p=new fp(clean); int t; { val* v=x->o[0].mk(); x->p->reset(v); x->ok=0; val::made=8; t=vf_thread_spawn(fthr,x); for(unsigned k=0;k<2;k++){ vf_check(x->p->get()==v,"a fiber-specific pointer does not return the value last stored by this fiber"); this_fiber::yield(); } } vfe_thread_join(t); vf_check(x->ok==1,"harness"); fss_end(x->o[1]); vf_check(val::cleaned[x->o[0].v[0]->id]==0,"a value still stored was cleaned up"); delete x->p; fss_end(x->o[0]); delete x; vf_reach("done"); }
// ---- C26
struct prio : fiber_properties { static inline int live=0; static inline unsigned made=0; int p=0; context* c(){ return ctx_; } algo::algorithm* al(){ return algo_; } explicit prio(context* c):fiber_properties(c){ live++; made++; } ~prio() override { live--; } void set(int v){ if(v!=p){ p=v; notify(); } } };
struct psched : algo::algorithm_with_properties<prio> { static inline psched* me=nullptr; static inline unsigned changes=0, dead=0; static inline context* last=nullptr; scheduler::ready_queue_type q; unsigned n=0; psched(){ me=this; } ~psched(){ dead++; }
    void chk(context* c,prio& p){ vf_check(&p==c->get_properties(),"the properties passed are not those of the fiber"); vf_check(p.c()==c,"the properties do not refer to their fiber"); vf_check(p.al()==this,"the properties do not refer to the scheduler"); }
    void awakened(context* c,prio& p) noexcept override { chk(c,p); vf_check(!c->ready_is_linked(),"a fiber already ready was announced again"); auto i=q.begin(); for(;i!=q.end();++i) if(properties(&*i).p<p.p) break; q.insert(i,*c); n++; }
    context* pick_next() noexcept override { if(q.empty()) return nullptr; context* c=&q.front(); q.pop_front(); n--; return c; } bool has_ready_fibers() const noexcept override { return !q.empty(); }
    void property_change(context* c,prio& p) noexcept override { chk(c,p); vf_check(c->ready_is_linked(),"a change was announced for a fiber that is not ready"); last=c; changes++; c->ready_unlink(); n--; awakened(c,p); }
    void suspend_until(tpoint const& t) noexcept override { if(t==(tpoint::max)()){ vf_fail("all fibers are blocked although one of them should have been woken"); vf_end(); } vfe_clock_at_least(ns_of(t)); } void notify() noexcept override {} };
static void prio_end(){ vf_check(prio::live==0,"a properties object was leaked or released twice"); vf_check(psched::dead==1,"the scheduler was not released once"); no_leak(); }
//@ entry=h_props prop=C26 reach=done,changed,same jobs=2 bound="3 fibers (ready, blocked or running) whose priority is changed twice to any value, by the main fiber or by themselves"
VF_ENTRY h_props(){ use_scheduling_algorithm<psched>(); after=prio_end; mutex m; condition_variable cv; bool go=false; fiber f[2]; prio* own_[2]={}; unsigned ran=0;
    for(unsigned i=0;i<2;i++) f[i]=fiber([&,i]{ prio& me=this_fiber::properties<prio>(); own_[i]=&me; unsigned c=psched::changes; me.set(me.p+vf_choice("delta",2)); vf_check(psched::changes==c,"a change was announced for a fiber that is not ready"); if(i==0){ std::unique_lock<mutex> lk(m); cv.wait(lk,[&]{ return go; }); } else this_fiber::yield(); vf_check(&this_fiber::properties<prio>()==&me,"a fiber has different properties at different times"); ran++; });
    if(vf_bool("late")) this_fiber::yield();
    for(unsigned k=0;k<2;k++){ unsigned i=vf_choice("who",2); prio& p=f[i].properties<prio>(); if(own_[i]) vf_check(&p==own_[i],"the properties of the handle are not those the fiber sees"); int v=(int)vf_u32("prio"); bool rdy=false; for(auto& x:psched::me->q) if(&x==p.c()) rdy=true; unsigned c=psched::changes, n=psched::me->n; int was=p.p; p.set(v); vf_check(p.p==v,"the change was lost"); unsigned want= rdy&&v!=was?1:0; vf_check(psched::changes==c+want,"a change must be announced exactly once, and only for a ready fiber"); if(want){ vf_check(psched::last==p.c(),"a change was announced for another fiber"); vf_reach("changed"); } else vf_reach("same"); vf_check(psched::me->n==n,"announcing a change lost or duplicated a ready fiber"); int mx=INT32_MAX; for(auto& x:psched::me->q){ int y=psched::me->properties(&x).p; vf_check(y<=mx,"harness: order"); mx=y; } }
    for(unsigned i=0;i<2;i++) if(f[i].properties<prio>().p<-1000||true) {} { std::unique_lock<mutex> lk(m); go=true; } cv.notify_all(); for(auto& x:f){ prio& p=x.properties<prio>(); p.set(INT32_MAX); x.join(); } vf_check(ran==2,"a fiber did not run exactly once"); vf_reach("done"); }
//@ entry=h_props_main prop=C26 reach=done,first bound="the main fiber asks for its own properties before it has ever yielded, 0 to 2 other fibers ready, then again after switches"
VF_ENTRY h_props_main(){ use_scheduling_algorithm<psched>(); after=prio_end; unsigned n=vf_choice("n",3), ran=0; fiber f[2]; for(unsigned i=0;i<n;i++) f[i]=fiber([&]{ prio& me=this_fiber::properties<prio>(); vf_check(me.c()==context::active(),"the properties do not refer to their fiber"); this_fiber::yield(); vf_check(&this_fiber::properties<prio>()==&me,"a fiber has different properties at different times"); ran++; });
    if(vf_bool("yield")) this_fiber::yield(); else vf_reach("first"); prio& me=this_fiber::properties<prio>(); vf_check(me.c()==context::active()&&me.al()==psched::me,"the main fiber has the wrong properties"); unsigned c=psched::changes; me.set(vf_choice("p",2)); vf_check(psched::changes==c,"a change was announced for a fiber that is not ready"); for(unsigned i=0;i<n;i++) f[i].join(); vf_check(ran==n,"a fiber did not run exactly once"); vf_check(&this_fiber::properties<prio>()==&me,"a fiber has different properties at different times"); vf_reach("done"); }
//@ entry=h_props_given prop=C26 reach=done bound="properties given at creation: every constructor form, launch policy; run, joined, detached"
VF_ENTRY h_props_given(){ use_scheduling_algorithm<psched>(); after=prio_end; unsigned ran=0; prio* mine=new prio(nullptr); mine->p=7; fiber_properties* fpp=mine; auto fn=[&ran,mine](int){ vf_check(&this_fiber::properties<prio>()==mine,"a fiber has other properties than given"); vf_check(mine->c()==context::active(),"the properties do not refer to their fiber"); this_fiber::yield(); vf_check(&this_fiber::properties<prio>()==mine,"a fiber has different properties at different times"); ran++; };
    fiber f; switch(vf_choice("form",4)){ case 0: f=fiber(fpp,fn,1); break; case 1: f=fiber(pol(),fpp,fn,1); break; case 2: f=fiber(fpp,std::allocator_arg,stk(),fn,1); break; case 3: f=fiber(pol(),fpp,std::allocator_arg,stk(),fn,1); break; }
    vf_check(&f.properties<prio>()==mine,"the properties of the handle are not those given"); unsigned made=prio::made; if(vf_bool("detach")){ f.detach(); while(!ran) this_fiber::yield(); } else f.join(); vf_check(ran==1,"a fiber did not run exactly once"); prio& me=this_fiber::properties<prio>(); vf_check(me.c()==context::active()&&&me!=mine,"the main fiber has the wrong properties"); (void)made; vf_reach("done"); }
// ---- C32
struct al : any_order { static inline unsigned dead=0; static inline unsigned made=0; unsigned id; unsigned aw=0,pk=0; al(dispatcher_mode d=DISP_FIFO,bool f=false):any_order(d,f),id(made++){} ~al(){ vf_check(n==0,"a scheduler was released although fibers are ready in it"); dead++; } void awakened(context* c) noexcept override { vf_check(id+1==made,"an old scheduler is still used"); aw++; any_order::awakened(c); } context* pick_next() noexcept override { pk++; return any_order::pick_next(); } void suspend_until(tpoint const& t) noexcept override { vf_check(id+1==made,"an old scheduler is still used"); any_order::suspend_until(t); } };
struct al_end { static void f(){ vf_check(al::dead==al::made,"a scheduler was not released"); no_leak(); } };
//@ entry=h_set_algo prop=C32,C17 reach=done jobs=8 bound="replacing the default or a custom scheduler once or twice, by the main fiber or a fiber, with 3 fibers ready, blocked, sleeping or finished; any resume order after"
VF_ENTRY h_set_algo(){ after=al_end::f; if(vf_bool("custom")) use_scheduling_algorithm<al>(DISP_FIFO,true); mutex m; condition_variable cv; bool go=false; unsigned fin[3]={}; fiber f[3]; for(unsigned i=0;i<3;i++) f[i]=fiber([&,i]{ switch(vf_choice("op",i?3:4)){ case 0: this_fiber::yield(); break; case 1: { std::unique_lock<mutex> lk(m); cv.wait(lk,[&]{ return go; }); break; } case 2: this_fiber::sleep_for(nsec(10)); break; case 3: use_scheduling_algorithm<al>(DISP_FIFO,true); vf_check(al::made>0,"x"); break; } fin[i]++; });
    if(vf_bool("run")) this_fiber::yield(); use_scheduling_algorithm<al>(DISP_FIFO); unsigned m0=al::made; vf_check(al::dead+1==al::made,"the old scheduler was not released, or the new one is not kept"); if(vf_bool("again")){ this_fiber::yield(); use_scheduling_algorithm<al>(DISP_LAST); vf_check(al::dead+1==al::made&&al::made>m0,"the old scheduler was not released, or the new one is not kept"); }
    { std::unique_lock<mutex> lk(m); go=true; } cv.notify_all(); for(auto& x:f) x.join(); for(unsigned i=0;i<3;i++) vf_check(fin[i]==1,"a fiber did not run exactly once"); al* c=static_cast<al*>(cur_any); unsigned k=c->pk; fiber z([]{}); z.join(); vf_check(c->pk>k,"the new scheduler is not used"); vf_reach("done"); }
//@ entry=h_init prop=C32,C31 reach=first,later bound="preparing a thread before and after first use"
struct ia { static inline unsigned a=0,d=0; boost::context::stack_context allocate(){ a++; return fixedsize_stack(8192).allocate(); } void deallocate(boost::context::stack_context& s){ d++; fixedsize_stack(8192).deallocate(s); } };
VF_ENTRY h_init(){ after=[]{ vf_check(ia::a==ia::d,"the dispatcher's stack was not given back"); al_end::f(); }; bool used=vf_bool("used"); if(used){ if(vf_bool("how")) this_fiber::yield(); else { fiber f([]{}); f.join(); } }
    bool r=initialize_thread(new al(DISP_FIFO),make_stack_allocator_wrapper<ia>()); vf_check(r==!used,"the result does not tell whether the thread was prepared"); vf_check(ia::a==(used?0u:1u),"the stack allocator is used although the thread was in use, or not used although it was not"); vf_check(al::dead==0,"the new scheduler was released"); unsigned n=0; fiber f([&]{ this_fiber::yield(); n++; }); f.join(); al* c=static_cast<al*>(cur_any); vf_check(n==1&&c->pk>0,"the new scheduler is not used");
    bool r2=initialize_thread(new al(DISP_FIFO),make_stack_allocator_wrapper<ia>()); vf_check(!r2&&al::dead==1,"a scheduler set later must replace the old one"); fiber g([&]{ this_fiber::yield(); n++; }); g.join(); vf_check(n==2,"a fiber did not run exactly once"); if(used){ vf_reach("later"); return; } g=fiber([]{}); g.join(); vf_reach("first"); }
//@ entry=mt_set_algo prop=C32,C33,C21 mt=1 hb=1 pb=2 jobs=2 reach=done bound="replacing the scheduler of a thread while a fiber of it is woken from another thread; 2 threads"
struct xs { mutex m; condition_variable cv; bool go=false; std::atomic<int> ready{0}; unsigned fin=0; }; static void sthr(void* p){ auto* x=(xs*)p; fiber f([x]{ std::unique_lock<mutex> lk(x->m); x->ready=1; x->cv.wait(lk,[x]{ return x->go; }); x->fin++; }); this_fiber::yield(); use_scheduling_algorithm<algo::round_robin>(); f.join(); }
VF_ENTRY mt_set_algo(){ xs x; int t=vf_thread_spawn(sthr,&x); while(!x.ready) vf_yield(); { std::unique_lock<mutex> lk(x.m); x.go=true; } x.cv.notify_one(); vfe_thread_join(t); vf_check(x.fin==1,"a fiber did not run exactly once"); vf_reach("done"); }
