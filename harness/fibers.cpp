// C16, C17, C18, C27, C30, C31: fiber handles, lifetime, launch policies, identity, stacks, thread exit
#include "h.hpp"
#include <functional>
#include <atomic>
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
//@file prop=C16
static launch pol(){ return vf_bool("dispatch")?launch::dispatch:launch::post; }
static void yields(unsigned n){ for(unsigned k=n>1?vf_choice("yields",n):0;k--;) this_fiber::yield(); }
template<class T> static void swp(T& a,T& b){ T c(a); a=b; b=c; }
// ---- join
//@ entry=h_join_order reach=done jobs=4 bound="3 fibers yielding 0-1 times, any launch policy, joined in any order, any resume order of fibers"
VF_ENTRY h_join_order(){ use_any(); bool fin[3]={}; fiber f[3]; unsigned id[3]={0,1,2};
    for(unsigned i=0;i<3;i++) f[i]=fiber(pol(),[&fin,i]{ yields(2); fin[i]=true; });
    for(unsigned n=3;n;n--){ unsigned k=n>1?vf_choice("next",n):0, i=id[k]; id[k]=id[n-1]; f[i].join(); vf_check(fin[i],"join returned before the fiber's function had finished"); vf_check(!f[i].joinable(),"a handle is joinable after join"); vf_check(err_of([&]{ f[i].join(); })==EINVAL,"joining again must report invalid_argument"); }
    after=no_leak; vf_reach("done"); }
//@ entry=h_join_chain reach=done jobs=2 bound="a fiber joined by a fiber joined by the main fiber, and a sibling; any launch policy and resume order, blocked, sleeping or yielding"
VF_ENTRY h_join_chain(){ use_any(DISP_ANY); bool a=false,b=false,c=false; mutex m; condition_variable cv; bool go=false;
    fiber fa(pol(),[&]{ unsigned w=vf_choice("how",3); if(w==0) yields(2); else if(w==1){ std::unique_lock<mutex> lk(m); cv.wait(lk,[&]{ return go; }); } else this_fiber::sleep_for(nsec((int64_t)vf_range("d",0,1000))); a=true; });
    fiber fb(pol(),[&,f=std::move(fa)]() mutable { yields(2); f.join(); vf_check(a&&!f.joinable(),"join returned before the fiber's function had finished"); b=true; });
    fiber fc(pol(),[&]{ { std::unique_lock<mutex> lk(m); go=true; } cv.notify_all(); c=true; });
    vf_check(!fa.joinable(),"a moved-from handle is joinable"); 
    fb.join(); vf_check(a&&b,"join returned before the fiber's function had finished"); fc.join(); vf_check(c,"join returned before the fiber's function had finished"); after=no_leak; vf_reach("done"); }
//@ entry=h_join_self reach=self bound="a fiber joining itself; any resume order"
VF_ENTRY h_join_self(){ use_any(DISP_ANY); fiber f; bool ran=false; f=fiber([&]{ yields(2); int e=err_of([&]{ f.join(); }); vf_check(e==EDEADLK,"joining oneself must report resource_deadlock_would_occur"); vf_check(f.joinable(),"a failed join changed the handle"); ran=true; }); yields(3); f.join(); vf_check(ran&&!f.joinable(),"join returned before the fiber's function had finished"); after=no_leak; vf_reach("self"); }
//@ entry=h_join_two prop=C16,C27 reach=done,both jobs=2 bound="one handle joined by two or three fibers; any launch policy and resume order"
VF_ENTRY h_join_two(){ use_any(); bool fin=false, both=vf_bool("three"); unsigned n=0; fiber f(pol(),[&]{ yields(2); this_fiber::yield(); fin=true; }); auto j=[&]{ if(!f.joinable()) vf_check(err_of([&]{ f.join(); })==EINVAL,"joining again must report invalid_argument"); else f.join(); vf_check(fin,"join returned before the fiber's function had finished"); n++; };
    if(!fin){ fiber a(j), b(j); this_fiber::yield(); if(both&&!fin){ f.join(); vf_check(fin,"join returned before the fiber's function had finished"); vf_reach("both"); } a.join(); b.join(); vf_check(n==2,"join did not return in every fiber"); } else f.join(); vf_check(!f.joinable(),"a handle is joinable after join"); after=no_leak; vf_reach("done"); }
//@ entry=h_misuse reach=done bound="handles empty by default, by join, detach, move or swap; join and detach on them"
VF_ENTRY h_misuse(){ use_any(); fiber f,g; unsigned how=vf_choice("how",6); unsigned ran=0; auto fn=[&]{ ran++; };
    switch(how){ case 0: break; case 1: f=fiber(pol(),fn); f.join(); break; case 2: f=fiber(pol(),fn); f.detach(); break; case 3: f=fiber(pol(),fn); g=std::move(f); break; case 4: f=fiber(pol(),fn); f.swap(g); break; case 5: f=fiber(pol(),fn); { fiber h(std::move(f)); g=std::move(h); } break; }
    bool has= how>=3; vf_check(!f.joinable(),"an empty handle is joinable"); vf_check(g.joinable()==has,"the handle moved to is not joinable"); vf_check(f.get_id()==fiber::id(),"an empty handle has the id of a fiber");
    int e= vf_bool("op")?err_of([&]{ f.join(); }):err_of([&]{ f.detach(); }); vf_check(e==EINVAL,"joining or detaching an empty handle must report invalid_argument"); vf_check(!f.joinable()&&g.joinable()==has,"a failed operation changed the handle");
    if(has) g.join(); quiesce(); vf_check(ran==(how?1u:0u),"the function did not run exactly once"); after=no_leak; vf_reach("done"); }
//@ entry=h_detach reach=done bound="a detached fiber; any launch policy and resume order"
VF_ENTRY h_detach(){ use_any(DISP_ANY); unsigned ran=0; { fiber f(pol(),[&]{ yields(2); ran++; }); yields(2); f.detach(); vf_check(!f.joinable(),"a handle is joinable after detach"); } quiesce(); vf_check(ran==1,"a detached fiber did not run exactly once"); after=no_leak; vf_reach("done"); }
struct boom { int v; };
//@ entry=h_terminate reach=destroy,assign,throw,throw_d,self bound="a joinable handle destroyed, overwritten or assigned to itself, before or after its fiber has finished; an exception leaving a joined or detached fiber"
VF_ENTRY h_terminate(){ use_any(); bool late=vf_bool("late"); switch(vf_choice("how",5)){
    case 0: { fiber f(pol(),[]{}); if(late) this_fiber::yield(); vf_reach("destroy"); vf_expect_terminate(true); } break;
    case 1: { fiber f(pol(),[]{}); fiber g; if(vf_bool("both")) g=fiber(pol(),[]{}); if(late) this_fiber::yield(); vf_reach("assign"); vf_expect_terminate(true); f=std::move(g); } break;
    case 2: { fiber f([late]{ if(late) this_fiber::yield(); vf_reach("throw"); vf_expect_terminate(true); throw boom{1}; }); f.join(); } break;
    case 3: { fiber f([late]{ if(late) this_fiber::yield(); vf_reach("throw_d"); vf_expect_terminate(true); throw std::runtime_error("x"); }); f.detach(); quiesce(); } break;
    case 4: { fiber f(pol(),[]{}); fiber& g=f; if(late) this_fiber::yield(); vf_reach("self"); vf_expect_terminate(true); f=std::move(g); } break; }
    vf_expect_terminate(false); vf_fail("the program was not terminated"); }
//@ entry=h_assign_ok reach=done bound="assignment to and destruction of handles that are not joinable"
VF_ENTRY h_assign_ok(){ use_any(); unsigned ran=0; { fiber f,g(pol(),[&]{ ran++; }); switch(vf_choice("was",3)){ case 0: break; case 1: f=fiber(pol(),[&]{ ran++; }); f.join(); ran--; break; case 2: f=fiber(pol(),[&]{ ran++; }); f.detach(); quiesce(); ran--; if(ran>1) ran=1; break; }
    fiber::id i=g.get_id(); f=std::move(g); vf_check(f.joinable()&&f.get_id()==i,"assignment lost the fiber"); f.join(); fiber& r=f; f=std::move(r); } vf_check(ran==1,"the function did not run exactly once"); after=no_leak; vf_reach("done"); }
// ---- across threads
struct xj { fiber f; std::atomic<int> ready{0}; long data=0; unsigned ran=0; };
static void owner(void* p){ auto* x=(xj*)p; bool late=vf_bool("late"); x->f=fiber(pol(),[x,late]{ if(late) this_fiber::yield(); x->data=42; x->ran++; }); x->ready.store(1,std::memory_order_release); }
//@ entry=mt_join prop=C16,C27,C33 mt=1 hb=1 pb=3 jobs=4 reach=done bound="a fiber of one thread joined by the main fiber of another while its thread ends; 2 threads"
VF_ENTRY mt_join(){ xj x; int t=vf_thread_spawn(owner,&x); while(!x.ready.load(std::memory_order_acquire)) vf_yield(); x.f.join(); vf_check(x.ran==1&&x.data==42,"join returned before the fiber's function had finished"); vf_check(!x.f.joinable(),"a handle is joinable after join"); vfe_thread_join(t); after=no_leak; vf_reach("done"); }
// ---- C18
//@ entry=h_launch prop=C18 reach=post,dispatch,none bound="policy post, dispatch or not given; by the main fiber or a fiber; every constructor form"
static unsigned order_; static unsigned ran_at, cont; static void note(){ ran_at=++order_; }
struct props : fiber_properties { using fiber_properties::fiber_properties; };
static fiber mk(unsigned form,unsigned p){ launch l= p==2?launch::dispatch:launch::post; auto fn=[](int){ note(); };
    if(p==0) switch(form){ case 0: return fiber(fn,1); case 1: return fiber(std::allocator_arg,stk(),fn,1); case 2: return fiber((fiber_properties*)new props(nullptr),fn,1); default: return fiber((fiber_properties*)new props(nullptr),std::allocator_arg,stk(),fn,1); }
    switch(form){ case 0: return fiber(l,fn,1); case 1: return fiber(l,std::allocator_arg,stk(),fn,1); case 2: return fiber(l,(fiber_properties*)new props(nullptr),fn,1); default: return fiber(l,(fiber_properties*)new props(nullptr),std::allocator_arg,stk(),fn,1); } }
static void launcher(){ unsigned form=vf_choice("form",4), p=vf_choice("policy",3); order_=ran_at=0; fiber f=mk(form,p); unsigned c=++order_; cont++;
    if(p==2){ vf_check(ran_at!=0&&ran_at<c,"a fiber launched with dispatch did not run before its creator continued"); vf_reach("dispatch"); } else { vf_check(ran_at==0,"a fiber launched with post ran before its creator was switched out");
        mutex m; m.lock(); m.unlock(); { buffered_channel<int> ch(2); ch.push(1); } promise<int> pr; pr.set_value(1); (void)pr.get_future().get(); vf_check(ran_at==0,"a fiber launched with post ran before its creator was switched out"); if(p) vf_reach("post"); else vf_reach("none"); }
    unsigned o=order_; switch(vf_choice("then",3)){ case 0: f.join(); vf_check(order_==(p==2?o:o+1),"fiber or creator did not continue exactly once"); break; case 1: this_fiber::yield(); f.join(); break; case 2: this_fiber::sleep_for(nsec(1)); f.join(); break; } vf_check(ran_at!=0,"a launched fiber did not run"); }
VF_ENTRY h_launch(){ use_any(); if(vf_bool("inner")){ fiber g(launcher); g.join(); } else launcher(); vf_check(cont==1,"the creator did not continue exactly once"); after=no_leak; }
//@ entry=h_launch_many prop=C18 reach=done bound="3 fibers with any policies, the second created by the first; any resume order"
VF_ENTRY h_launch_many(){ use_any(DISP_ANY); unsigned n=0, c=0; bool d0=vf_bool("d0"), d1=vf_bool("d1"), d2=vf_bool("d2"); auto L=[](bool d){ return d?launch::dispatch:launch::post; };
    fiber g; bool r0=false,r1=false,r2=false; fiber f(L(d0),[&]{ r0=true; n++; g=fiber(L(d1),[&]{ r1=true; n++; }); vf_check(d1?r1:!r1,"launch policy not honoured"); c++; });
    vf_check(d0?r0:!r0,"launch policy not honoured"); fiber h(L(d2),[&]{ r2=true; n++; }); vf_check(d2?r2:!r2,"launch policy not honoured"); f.join(); g.join(); h.join(); vf_check(n==3&&c==1,"fiber or creator did not continue exactly once"); after=no_leak; vf_reach("done"); }
// ---- C30
//@ entry=h_ids prop=C30 reach=done bound="3 fibers and the main fiber: all comparisons; any launch policy and resume order"
static void total(fiber::id a,fiber::id b,bool same){ vf_check((a==b)==same&&(a!=b)!=same,"ids: equality is wrong"); vf_check((a<b)+(b<a)+(a==b)==1,"ids: not totally ordered"); vf_check((a<=b)==((a<b)||a==b)&&(a>b)==(b<a)&&(a>=b)==(b<=a),"ids: the comparisons disagree"); if(same) vf_check(std::hash<fiber::id>()(a)==std::hash<fiber::id>()(b),"ids: equal ids with different hashes"); }
VF_ENTRY h_ids(){ use_any(); fiber::id in[3]; fiber f[3]; for(unsigned i=0;i<3;i++) f[i]=fiber(pol(),[&in,i]{ in[i]=this_fiber::get_id(); this_fiber::yield(); vf_check(in[i]==this_fiber::get_id(),"the id of a fiber changed"); });
    fiber::id all[5]={f[0].get_id(),f[1].get_id(),f[2].get_id(),this_fiber::get_id(),fiber::id()}; for(unsigned a=0;a<5;a++) for(unsigned b=0;b<5;b++) total(all[a],all[b],a==b);
    for(unsigned a=0;a<5;a++) for(unsigned b=0;b<5;b++) for(unsigned c=0;c<5;c++) vf_check(!(all[a]<all[b]&&all[b]<all[c])||all[a]<all[c],"ids: order not transitive");
    vf_check(!all[4]&&static_cast<bool>(all[3]),"only the default id is false"); for(unsigned a=0;a<3;a++) for(unsigned b=0;b<3;b++) vf_check((f[a]<f[b])==(all[a]<all[b]),"handles are not ordered like their ids");
    quiesce(); for(unsigned i=0;i<3;i++){ vf_check(in[i]==all[i],"the id of the handle is not the id the fiber sees"); f[i].join(); vf_check(f[i].get_id()==fiber::id(),"an empty handle has the id of a fiber"); } vf_reach("done"); }
//@ entry=h_swap prop=C30,C16 reach=done bound="3 moves or swaps between 3 handles with 2 fibers, at any time of the fibers' execution"
VF_ENTRY h_swap(){ bf::use_scheduling_algorithm<any_order>(DISP_FIFO,true); unsigned ran[2]={}; fiber h[3]; int who[3]={0,1,-1}; fiber::id id[2]; for(unsigned i=0;i<2;i++){ h[i]=fiber(pol(),[&ran,i]{ this_fiber::yield(); ran[i]++; }); id[i]=h[i].get_id(); }
    for(unsigned k=0;k<deep(3,4);k++){ unsigned a=vf_choice("a",3), b=(a+1+vf_choice("b",2))%3; switch(vf_choice("op",4)){ case 0: h[a].swap(h[b]); swp(who[a],who[b]); break; case 1: swap(h[a],h[b]); swp(who[a],who[b]); break;
        case 2: if(who[a]>=0) vf_end(); h[a]=std::move(h[b]); who[a]=who[b]; who[b]=-1; break; case 3: this_fiber::yield(); break; }
        for(unsigned i=0;i<3;i++){ vf_check(h[i].joinable()==(who[i]>=0),"a moved or swapped handle has the wrong joinable()"); vf_check(h[i].get_id()==(who[i]>=0?id[who[i]]:fiber::id()),"a moved or swapped handle refers to the wrong fiber"); } }
    for(unsigned i=0;i<3;i++) if(who[i]>=0){ h[i].join(); vf_check(ran[who[i]]==1,"join returned before the right fiber had finished"); } vf_check(ran[0]==1&&ran[1]==1,"moving a handle affected the execution"); after=no_leak; vf_reach("done"); }
// ---- C17
static void end_life(){ vf_check(ts.live==0,"an argument or function object was leaked or destroyed twice"); vf_check(stk::allocs==stk::frees,"a stack was not given back"); no_leak(); }
struct fun { tracked t; unsigned* n; unsigned how; void operator()(tracked a,int b,std::unique_ptr<int> c,int& r){ t.ok(); a.ok(); vf_check(a.v==7&&b==8&&*c==9&&t.v==5,"wrong arguments"); vf_check(stk::frees==0,"a stack was given back before its fiber had finished"); ++*n; r++;
    if(how==1) this_fiber::yield(); else if(how==2) this_fiber::sleep_for(nsec(10)); t.ok(); a.ok(); vf_check(*c==9,"an argument was released while the fiber runs"); vf_check(stk::frees==0,"a stack was given back before its fiber had finished"); } };
//@ entry=h_life prop=C17 reach=done bound="function object and 4 arguments by move, by value and by reference; joined, detached before or after it ran, or left to the end of the thread; yielding or sleeping; any resume order"
VF_ENTRY h_life(){ use_any(DISP_ANY); unsigned n=0; int r=0; unsigned how=vf_choice("how",3); after=end_life;
    { fiber f(pol(),std::allocator_arg,stk(),fun{tracked(5),&n,how},tracked(7),8,std::make_unique<int>(9),std::ref(r));
    switch(vf_choice("end",4)){ case 0: f.join(); vf_check(n==1&&r==1,"the function did not run exactly once"); break; case 1: f.detach(); break; case 2: yields(2); f.detach(); break; case 3: { fiber g(pol(),[&n,h=std::move(f)]() mutable { h.join(); vf_check(n==1,"the function did not run exactly once"); }); g.join(); } break; } }
    quiesce(); if(how==2) this_fiber::sleep_for(nsec(100)); vf_check(n==1&&r==1,"the function did not run exactly once"); vf_check(ts.copies==0,"an argument was duplicated"); vf_reach("done"); }
struct obj { unsigned n=0; int v=0; void m(int a){ n++; v=a; } };
//@ entry=h_life_member prop=C17 reach=done bound="copied lvalue function object, std::ref function"
VF_ENTRY h_life_member(){ use_any(DISP_ANY); after=end_life; { unsigned n=0; obj o; int r=0; fun f0{tracked(5),&n,1}; fiber g(pol(),[&o](int a){ o.m(a); },4);
    struct cp { tracked t; unsigned* n; void operator()(){ t.ok(); vf_check(t.v==3,"wrong function object"); ++*n; } } c{tracked(3),&n}; fiber f(pol(),std::allocator_arg,stk(),c); vf_check(ts.copies==1,"an lvalue function object must be copied once"); fiber h(pol(),std::ref(c)); 
    f.join(); g.join(); if(vf_bool("d")) h.detach(); else h.join(); quiesce(); c.t.v=4; vf_check(n==2&&o.n==1&&o.v==4,"the function did not run exactly once"); } vf_reach("done"); }
//@ entry=h_life_throw prop=C17,C31 reach=thrown,ok bound="the copy of the function object or the move of an argument throws when the fiber is created"
struct thrower { bool* armed; thrower(bool* a):armed(a){} thrower(thrower const& o):armed(o.armed){ if(*armed) throw boom{2}; } void operator()(){} };
VF_ENTRY h_life_throw(){ use_any(); after=end_life; bool armed=vf_bool("throws"); { thrower t{&armed}; bool thrown=false; fiber f; try { f=fiber(pol(),std::allocator_arg,stk(),t); } catch(boom const& b){ thrown=true; vf_check(b.v==2,"another exception"); } armed=false; vf_check(thrown!=f.joinable(),"a fiber exists although its construction threw"); if(thrown){ vf_check(stk::allocs==stk::frees,"the stack was leaked when creating the fiber failed"); vf_reach("thrown"); } else { f.join(); vf_reach("ok"); } } }
// ---- C31
//@ entry=h_layout prop=C31 reach=done jobs=4 bound="every stack of 4096-4160 bytes at any address modulo 256, two sizes of function objects and one aligned to 64"
template<unsigned K> struct big { char b[K]; static inline uintptr_t at; void operator()(){ } };
template<> struct big<64> { alignas(64) char b[64]; big(){} big(big const& o){ ok(); o.ok(); } void ok() const { uintptr_t volatile v=(uintptr_t)this; uintptr_t p=v; vf_check(p%64==0,"a function object is not aligned as its type demands"); } void operator()(){ ok(); } };
struct lay { static inline uintptr_t lo, sp, bottom; static inline size_t given; static inline unsigned frees; alignas(256) static inline char mem[8192];
    boost::context::stack_context allocate(){ boost::context::stack_context s; s.size=given; s.sp=(void*)sp; return s; } void deallocate(boost::context::stack_context& s){ vf_check((uintptr_t)s.sp==sp&&s.size==given,"another stack was given back than allocated"); frees++; } };
template<unsigned K> static void layout(){ use_any(); fiber warm([]{}); warm.join(); lay::lo=(uintptr_t)lay::mem; lay::given=4096+vf_range("size",0,64); lay::sp=lay::lo+vf_range("off",0,255)+lay::given; lay::frees=0; lay::bottom=lay::sp-lay::given;
    fiber f(std::allocator_arg,lay(),big<K>()); context* c=*(context**)&f; uintptr_t p=(uintptr_t)c; const size_t S=sizeof(worker_context<big<K>>), A=alignof(worker_context<big<K>>);
    vf_check(p>=lay::bottom&&p+S<=lay::sp,"the control structure is not inside the stack"); vf_check(p%A==0,"the control structure is not aligned"); vf_check(vfe_stk_sp<=p,"the control structure overlaps the part of the stack used for execution"); vf_check(vfe_stk_sp-vfe_stk_size>=lay::bottom,"the part of the stack used for execution is not inside the stack"); vf_check(vfe_stk_size+S+1024>=lay::given,"more of the stack is wasted than alignment needs");
    f.join(); quiesce(); vf_check(lay::frees==1,"the stack was not given back once"); vf_reach("done"); }
VF_ENTRY h_layout(){ switch(vf_choice("size",3)){ case 0: layout<1000>(); break; case 1: layout<1>(); break; case 2: layout<64>(); break; } }
//@ entry=h_layout_disp prop=C31 reach=done bound="the dispatcher's stack of 4096-4160 bytes at any address modulo 256, set by initialize_thread"
VF_ENTRY h_layout_disp(){ lay::lo=(uintptr_t)lay::mem; lay::given=4096+vf_range("size",0,64); lay::sp=lay::lo+vf_range("off",0,255)+lay::given; lay::bottom=lay::sp-lay::given; after=[]{ vf_check(lay::frees==1,"the dispatcher's stack was not given back once"); no_leak(); };
    struct A { boost::context::stack_context allocate(){ return lay().allocate(); } void deallocate(boost::context::stack_context& s){ lay().deallocate(s); } };
    bool r=initialize_thread(new any_order(DISP_FIFO),make_stack_allocator_wrapper<A>()); vf_check(r,"the thread was not prepared"); context* d=nullptr; for(unsigned i=0;i<cur_any->n;i++) if(cur_any->q[i]->is_context(type::dispatcher_context)) d=cur_any->q[i];
    if(!d){ vf_reach("none"); } else { uintptr_t p=(uintptr_t)d; vf_check(p>=lay::bottom&&p+sizeof(context)<=lay::sp,"the control structure is not inside the stack"); vf_check(p%alignof(context)==0,"the control structure is not aligned"); vf_check(vfe_stk_sp<=p,"the control structure overlaps the part of the stack used for execution"); vf_check(vfe_stk_sp-vfe_stk_size>=lay::bottom,"the part of the stack used for execution is not inside the stack"); }
    fiber f([]{ this_fiber::yield(); }); f.join(); vf_reach("done"); }
//@ entry=h_noalloc prop=C31,C17 reach=failed bound="the stack allocator throws bad_alloc"
VF_ENTRY h_noalloc(){ use_any(); after=end_life; { fiber w(std::allocator_arg,stk(),[]{}); w.join(); quiesce(); unsigned long a=vf_live(0),b=vf_live(1); stk::fail=true; bool thrown=false; fiber f; unsigned n=0; try{ if(vf_bool("async")){ auto r=async(pol(),std::allocator_arg,stk(),[&n](tracked t){ n++; },tracked(7)); } else f=fiber(pol(),std::allocator_arg,stk(),[&n](tracked t){ n++; },tracked(7)); } catch(std::bad_alloc const&){ thrown=true; } vf_check(thrown&&!f.joinable(),"allocation failure must be reported by bad_alloc"); vf_check(ts.live==0,"an argument was leaked or destroyed twice"); vf_check(vf_live(0)==a&&vf_live(1)==b,"memory was leaked after an allocation failure"); stk::fail=false; quiesce(); vf_check(n==0,"a fiber ran although it could not be created"); fiber g(pol(),std::allocator_arg,stk(),[&n](tracked t){ n++; },tracked(7)); g.join(); vf_check(n==1,"a fiber created after an allocation failure did not run"); } vf_reach("failed"); }
//@ entry=h_stacks prop=C31,C17 reach=fixed,pooled,protected bound="the fixed size, pooled and protected stack allocators"
VF_ENTRY h_stacks(){ use_any(); after=no_leak; unsigned n=0; auto fn=[&n]{ this_fiber::yield(); n++; }; switch(vf_choice("alloc",3)){
    case 0: { fiber f(pol(),std::allocator_arg,fixedsize_stack(4096),fn), g(pol(),std::allocator_arg,fixedsize_stack(8192),fn); f.join(); g.join(); vf_reach("fixed"); break; }
    case 1: { pooled_fixedsize_stack s(4096); fiber f(pol(),std::allocator_arg,pooled_fixedsize_stack(s),fn), g(pol(),std::allocator_arg,s,fn); f.join(); g.join(); fiber h(pol(),std::allocator_arg,s,fn); if(vf_bool("d")){ h.detach(); } else h.join(); quiesce(); n--; vf_reach("pooled"); break; }
    case 2: { fiber f(pol(),std::allocator_arg,protected_fixedsize_stack(8192),fn), g(pol(),std::allocator_arg,protected_fixedsize_stack(16384),fn); g.join(); f.join(); vf_reach("protected"); break; } }
    quiesce(); vf_check(n==2,"a fiber did not run exactly once"); }
// ---- C27
struct ex { unsigned fin=0, want=0; mutex m; condition_variable cv; bool go=false; buffered_channel<int> ch{2}; int sum=0; };
static void leave(ex& x,unsigned k){ x.want++; switch(k){ case 0: fiber(pol(),[&x]{ x.fin++; }).detach(); break; case 1: fiber(pol(),[&x]{ this_fiber::yield(); this_fiber::yield(); x.fin++; }).detach(); break; case 2: fiber(pol(),[&x]{ uint64_t d=vf_range("d",0,1000); uint64_t t=vfe_last_now(); this_fiber::sleep_for(nsec((int64_t)d)); vf_check(vfe_last_now()>=t+d,"a sleeping fiber was resumed early at the end of its thread"); x.fin++; }).detach(); break;
    case 3: fiber(pol(),[&x]{ std::unique_lock<mutex> lk(x.m); x.cv.wait(lk,[&]{ return x.go; }); x.fin++; }).detach(); x.want++; fiber(pol(),[&x]{ this_fiber::yield(); { std::unique_lock<mutex> lk(x.m); x.go=true; } x.cv.notify_all(); x.fin++; }).detach(); break;
    case 4: fiber(pol(),[&x]{ fiber f(pol(),[&x]{ this_fiber::yield(); x.fin++; }); x.want++; f.detach(); x.fin++; }).detach(); break;
    case 5: fiber(pol(),[&x]{ x.want++; fiber f(pol(),[&x]{ x.sum=x.ch.value_pop(); x.fin++; }); this_fiber::sleep_for(nsec(5)); x.ch.push(3); f.join(); x.fin++; }).detach(); break; } }
static ex* X; static void end_exit(){ vf_check(X->fin==X->want,"the thread ended before all of its fibers had finished"); delete X; no_leak(); }
//@ entry=h_exit prop=C27,C17 reach=done jobs=4 bound="2 detached fibers out of 6 kinds (finished, yielding, sleeping, blocked, spawning, producer/consumer) when the thread ends; any resume order"
VF_ENTRY h_exit(){ use_any(); X=new ex; after=end_exit; leave(*X,vf_choice("k",6)); leave(*X,vf_choice("k",6)); yields(2); vf_reach("done"); }
//@ entry=h_exit_rr prop=C27,C17 reach=done bound="as h_exit with the default scheduler; the clock advances at least 400 ns per reading (the dispatcher polls it at shutdown)"
VF_ENTRY h_exit_rr(){ vfe_clock_step=400; X=new ex; after=end_exit; leave(*X,vf_choice("k",6)); leave(*X,vf_choice("k",6)); vf_reach("done"); }
static void fresh(void* p){ auto* n=(unsigned*)p; switch(vf_choice("op",8)){ case 0: { mutex m; m.lock(); m.unlock(); break; } case 1: this_fiber::yield(); break; case 2: { uint64_t t=vfe_last_now(); this_fiber::sleep_for(nsec(5)); vf_check(vfe_last_now()>=t+5,"sleep returned early"); break; } case 3: vf_check(this_fiber::get_id()!=fiber::id(),"no id"); break; case 4: { buffered_channel<int> c(2); int v; vf_check(c.pop_wait_for(v,nsec(5))==channel_op_status::timeout,"wrong status"); break; } case 5: { auto f=async([]{ return 4; }); vf_check(f.get()==4,"wrong value"); break; } case 6: { fiber_specific_ptr<int> q; vf_check(!q.get(),"not null"); q.reset(new int(3)); vf_check(*q==3,"wrong value"); break; } case 7: { condition_variable_any c; mutex m; std::unique_lock<mutex> l(m); vf_check(c.wait_for(l,nsec(5))==cv_status::timeout,"wrong status"); break; } } ++*n; }
//@ entry=h_fresh prop=C27 reach=done mt=1 pb=1 bound="8 operations as the first use of fibers on a new thread"
VF_ENTRY h_fresh(){ after=no_leak; unsigned n=0; int t=vf_thread_spawn(fresh,&n); vfe_thread_join(t); vf_check(n==1,"the thread did not finish"); vf_reach("done"); }
// a fiber left behind is woken by another thread while its thread is ending
struct xe { mutex m; condition_variable cv; bool go=false; unsigned fin=0; };
static void leaver(void* p){ auto* x=(xe*)p; fiber(pol(),[x]{ std::unique_lock<mutex> lk(x->m); x->cv.wait(lk,[&]{ return x->go; }); x->fin++; }).detach(); }
//@ entry=mt_exit prop=C27,C21,C33 mt=1 hb=1 pb=2 jobs=4 reach=done bound="a detached fiber woken by another thread while its thread ends; 2 threads"
VF_ENTRY mt_exit(){ auto* x=new xe; after=no_leak; int t=vf_thread_spawn(leaver,x); { std::unique_lock<mutex> lk(x->m); x->go=true; } x->cv.notify_one(); vfe_thread_join(t); vf_check(x->fin==1,"the thread ended before all of its fibers had finished"); delete x; vf_reach("done"); }
