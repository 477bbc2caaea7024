// C34: the NUMA-aware work-stealing scheduler and pinning of threads
#include "steal.hpp"
#include <boost/fiber/numa/algo/work_stealing.hpp>
#include <mutex>
#include <condition_variable>
#include <system_error>
//@file prop=C34 extra="src/numa/algo/work_stealing.cpp src/numa/linux/pin_thread.cpp"
typedef numa::algo::work_stealing WS0;
// the order of the attempts of the thread under observation
static unsigned attempts[16], nattempts; static int watched=-1;
struct NW : WS0 { unsigned cpu; NW(unsigned c,unsigned n,std::vector<numa::node> const& t,bool s=false):WS0(c,n,t,s),cpu(c){}
    static void* operator new(size_t n){ void* p=::operator new(n); vf_exempt(p,8); vf_exempt((char*)p+sizeof(WS0),8); return p; } static void operator delete(void* p){ ::operator delete(p); }
    context* steal() noexcept override { last_draw[vf_thread_self()]=-1; if(vf_thread_self()==watched&&nattempts<16) attempts[nattempts++]=cpu; return WS0::steal(); } };
struct topo { std::vector<numa::node> nodes; unsigned n=0; unsigned cpu[4], nd[4]; bool local(unsigned a,unsigned b){ return nd[a]==nd[b]; } };
static numa::node mk(unsigned id){ numa::node x; x.id=id; x.distance.push_back(10); return x; }
// n processors distributed over nn nodes; numbers neither contiguous nor in the order of the nodes
static topo* mktopo(unsigned n,unsigned nn){ static const unsigned id[3]={3,0,7}, cp[4]={5,0,2,6}; auto* t=new topo; for(unsigned i=0;i<nn;i++) t->nodes.push_back(mk(id[i])); t->n=n;
    for(unsigned i=0;i<n;i++){ unsigned k=nn>1?vf_choice("node",nn):0; t->cpu[i]=cp[i]; t->nd[i]=id[k]; t->nodes[k].logical_cpus.insert(cp[i]); } return t; }
static NW* alg_of[8]; struct NM : NW { NM(unsigned c,unsigned n,std::vector<numa::node> const& t,bool s=false):NW(c,n,t,s){ vf_exempt(alg_of,sizeof alg_of); alg_of[vf_thread_self()]=this; } };
static topo* T; static std::mutex gm; static std::condition_variable gc; static unsigned ready_threads; static bool go_on; static context* posted[4]; static unsigned posted_mask, ran_mask; static int self_idx; static unsigned nthreads;
static void pinned(unsigned i){ unsigned t=(unsigned)vf_thread_self(); vf_check(vfe_affinity_calls[t]>=1,"the thread was not pinned"); for(unsigned b=0;b<128;b++){ unsigned want=b==T->cpu[i]/8?1u<<(T->cpu[i]%8):0; vf_check(vfe_affinity_set[t][b]==want,"the thread is not pinned to exactly its own processor"); } }
static void post(unsigned i){ if((posted_mask>>i)&1) fiber(launch::post,[i]{ vf_check(!((ran_mask>>i)&1),"a fiber was run twice"); ran_mask|=1u<<i; }).detach(); }
// what the other threads do: install the scheduler, make one fiber ready if wanted, and wait
static void other(void* p){ unsigned i=(unsigned)(uintptr_t)p; use_scheduling_algorithm<NM>(T->cpu[i],T->nd[i],T->nodes,false); pinned(i); NW* mine=alg_of[vf_thread_self()];
    // the dispatcher, which is bound to the thread, is queued behind the fiber
    context* own[4]; unsigned nown=0; while(mine->has_ready_fibers()) own[nown++]=mine->pick_next(); post(i); for(unsigned k=0;k<nown;k++) mine->awakened(own[k]);
    { std::unique_lock<std::mutex> l(gm); ready_threads++; gc.notify_all(); gc.wait(l,[]{ return go_on; }); }
    while((posted_mask&~ran_mask)>>i&1) this_fiber::yield(); }
static const char* config(const char* w,unsigned me,unsigned v){ char* b=new char[64]; unsigned k=0; while(*w) b[k++]=*w++; for(const char* c="nodes ";*c;) b[k++]=*c++; for(unsigned i=0;i<T->n;i++) b[k++]='0'+T->nd[i]; for(const char* c=" thief ";*c;) b[k++]=*c++; b[k++]='0'+me; for(const char* c=" victim ";*c;) b[k++]=*c++; b[k++]='0'+v; b[k]=0; return b; }
static void phase(unsigned n,unsigned nn,bool all){
    T=mktopo(n,nn); ghosts(); self_idx=(int)(n>1?vf_choice("self",n):0); unsigned me=self_idx; nthreads=n;
    // all others have a ready fiber, or exactly one of them has
    posted_mask=0; unsigned target=me; if(n>1){ if(all) posted_mask=((1u<<n)-1)&~(1u<<me); else { target=vf_choice("target",n-1); if(target>=me) target++; posted_mask=1u<<target; } }
    if(!all&&n>1) vf_reach(config("want:",me,target));
    int th[4]; unsigned k=0; for(unsigned i=0;i<n;i++) if(i!=me) th[k++]=vf_thread_spawn(other,(void*)(uintptr_t)i);
    use_scheduling_algorithm<NM>(T->cpu[me],T->nd[me],T->nodes,false); pinned(me); NW* mine=alg_of[vf_thread_self()];
    { std::unique_lock<std::mutex> l(gm); gc.wait(l,[&]{ return ready_threads==n-1; }); }
    context* own[4]; unsigned nown=0; while(mine->has_ready_fibers()){ own[nown++]=mine->pick_next(); vf_check(own[nown-1]!=nullptr,"pick_next() returned nothing although a fiber of the thread is ready"); }
    unsigned nlocal=0; for(unsigned i=0;i<n;i++) if(i!=me&&T->local(i,me)) nlocal++;
    nattempts=0; watched=vf_thread_self(); context* c=mine->pick_next(); watched=-1;
    bool seen_remote=false, seen_local=false;
    for(unsigned a=0;a<nattempts;a++){ unsigned v=4; for(unsigned i=0;i<n;i++) if(T->cpu[i]==attempts[a]) v=i; vf_check(v<n,"a processor outside of the topology was a victim"); if(v==me) continue;
        if(T->local(v,me)){ vf_check(!seen_remote,"a processor of another node was tried before those of the own node"); seen_local=true; } else { vf_check(nlocal==0||seen_local,"a processor of another node was tried before those of the own node"); seen_remote=true; } }
    if(c){ vf_check(c->get_scheduler()==context::active()->get_scheduler(),"a stolen fiber was not attached to this thread"); vf_check(!c->is_context(type::pinned_context),"a fiber bound to its thread was stolen");
        mine->awakened(c); }
    else { vf_check(!(all&&n>1&&nlocal==n-1),"nothing was stolen although every processor of the node has a ready fiber"); vf_check(!(nn==1&&n==2),"nothing was stolen although the other processor of the node has a ready fiber"); }
    for(unsigned i=0;i<nown;i++) mine->awakened(own[i]);
    // run what was stolen
    unsigned before=ran_mask; this_fiber::yield(); unsigned got=ran_mask&~before; vf_check((got!=0)==(c!=nullptr),"a stolen fiber was not run");
    if(got){ unsigned v=0; while(!((got>>v)&1)) v++; bool loc=T->local(v,me); vf_check(loc||nlocal!=1||!((posted_mask>>[&]{ for(unsigned i=0;i<n;i++) if(i!=me&&T->local(i,me)) return i; return 0u; }())&1),"a fiber of another node was taken although the only other processor of the node has a ready fiber"); vf_reach(loc?"local":"remote"); if(!all) vf_reach(config("got:",me,v)); }
    { std::unique_lock<std::mutex> l(gm); go_on=true; gc.notify_all(); } for(unsigned i=0;i<k;i++) vfe_thread_join(th[i]); vf_reach("done"); }
static void at_end(){ vf_check(ran_mask==posted_mask,"a fiber was not run"); }
//@ entry=numa_1 mt=1 pb=0 jobs=1 reach=done bound="1 processor, 1 node or 2 of which one has no processors; idle"
VF_ENTRY numa_1(){ after=at_end; if(vf_choice("empty node",2)) phase(1,2,false); else phase(1,1,false); }
//@ entry=numa_2 mt=1 pb=0 jobs=2 reach=done,local,remote bound="2 processors on 2 nodes in any distribution, any of them as self, the other with a ready fiber; the victim drawn arbitrarily"
VF_ENTRY numa_2(){ after=at_end; phase(2,2,false); }
//@ entry=numa_3 mt=1 pb=0 jobs=4 reach=done,local,remote bound="3 processors on 3 nodes in any distribution, any of them as self, any other one with a ready fiber; the victims drawn arbitrarily"
VF_ENTRY numa_3(){ after=at_end; phase(3,3,false); }
//@ entry=numa_3all mt=1 pb=0 sched=one jobs=4 reach=done,local,remote bound="one thread schedule; 3 processors on 3 nodes in any distribution, any of them as self, all others with a ready fiber; the victims drawn arbitrarily"
VF_ENTRY numa_3all(){ after=at_end; phase(3,3,true); }
//@ entry=numa_4 mt=1 pb=0 sched=one jobs=8 reach=done,local,remote bound="one thread schedule; 4 processors on 3 nodes in any distribution, any of them as self, any other one with a ready fiber; the victims drawn arbitrarily"
VF_ENTRY numa_4(){ after=at_end; phase(4,3,false); }
//@ entry=numa_4all mt=1 pb=0 sched=one jobs=8 reach=done,local,remote bound="one thread schedule; 4 processors on 2 nodes in any distribution, any of them as self, all others with a ready fiber; the victims drawn arbitrarily"
VF_ENTRY numa_4all(){ after=at_end; phase(4,2,true); }
// concurrent use: as for work_stealing
struct topo2 { std::vector<numa::node> nodes; }; static topo2* TT;
struct NP : poll<NW> { NP(unsigned c,unsigned n,bool s):poll<NW>(c,n,TT->nodes,s){} };
template<int I> static void on(void* p){ peer<NP>((sarg*)p,I==2?4u:2u,I==2?9u:1u); }
static void two_numa(bool same,unsigned na,unsigned nb,unsigned yields,bool susp){ TT=new topo2; TT->nodes.push_back(mk(1)); TT->nodes[0].logical_cpus.insert(1); if(same) TT->nodes[0].logical_cpus.insert(2); else { TT->nodes.push_back(mk(9)); TT->nodes[1].logical_cpus.insert(4); }
    vf_exempt(alg_of,sizeof alg_of); two<NP>(na,nb,yields,susp,same?on<1>:on<2>,1u,1u); delete TT; }
//@ entry=numa_poll mt=1 hb=1 pb=2 jobs=4 reach=done,moved bound="2 threads without suspension on the same node or on two nodes, 1 fiber created on each"
VF_ENTRY numa_poll(){ two_numa(vf_choice("same",2),1,1,1,false); }
//@ entry=numa_one mt=1 hb=1 pb=2 jobs=4 reach=done,elsewhere bound="2 threads without suspension on the same node or on two nodes, 2 fibers created on one"
VF_ENTRY numa_one(){ two_numa(vf_choice("same",2),2,0,0,false); }
//@ entry=numa_susp mt=1 hb=1 pb=1 jobs=4 reach=done bound="2 threads, suspending when idle, 1 fiber created on each"
VF_ENTRY numa_susp(){ two_numa(vf_choice("same",2),1,1,1,true); }
//@ entry=numa_sleep mt=1 hb=1 pb=1 jobs=4 reach=done bound="2 threads, suspending when idle or not, a sleeping fiber"
VF_ENTRY numa_sleep(){ vfe_clock_step=50; two_numa(vf_choice("same",2),1,0,SLEEPS,vf_bool("suspend")); }
//@ entry=numa_block mt=1 hb=1 pb=1 jobs=4 reach=done bound="2 threads without suspension; a fiber that waits for another one created on the other thread"
VF_ENTRY numa_block(){ two_numa(vf_choice("same",2),1,1,WAITS,false); }
// pinning
//@ entry=numa_pin mt=1 pb=0 reach=set,refused,other bound="any of 1024 processors, the calling thread or another one, any error"
static void idle(void*){}
VF_ENTRY numa_pin(){ unsigned c=(unsigned)vf_range("cpu",0,1023); vfe_affinity_rc=vf_bool("refuse")?(int)vf_range("error",1,4095):0; unsigned t=0; bool other=vf_choice("other",2)!=0; if(other) t=(unsigned)vf_thread_spawn(idle,nullptr);
    int e=0; try{ if(other) numa::pin_thread(c,(std::thread::native_handle_type)(4711+t)); else numa::pin_thread(c); } catch(std::system_error const& x){ e=x.code().value(); vf_check(x.code().category()==std::system_category(),"the error is not reported in the system category"); vf_check(e!=0,"an error without a code"); }
    vf_check(e==vfe_affinity_rc,"failure of pinning was not reported by its error code"); vf_check(vfe_affinity_calls[t]==1&&vfe_affinity_calls[1-t]==0,"another thread was pinned");
    if(!e){ unsigned w=(unsigned)vf_range("word",0,127); unsigned x=vfe_affinity_set[t][w]; vf_check(x==(w==c/8?1u<<(c%8):0u),"the thread is not pinned to exactly the processor requested"); if(other) vf_reach("other"); else vf_reach("set"); } else vf_reach("refused"); if(other) vfe_thread_join((int)t); }
// a scheduler that cannot pin its thread
//@ entry=numa_nopin mt=1 pb=0 reach=refused bound="creating the scheduler when pinning is refused"
VF_ENTRY numa_nopin(){ topo* t=mktopo(1,1); vfe_affinity_rc=22; int e=0; try{ delete new NW(t->cpu[0],t->nd[0],t->nodes); } catch(std::system_error const& x){ e=x.code().value(); } vf_check(e==22,"failure of pinning was not reported"); vf_reach("refused"); vfe_affinity_rc=0; int r=0; fiber f([&]{ r++; this_fiber::yield(); r++; }); f.join(); vf_check(r==2,"the thread's scheduler does not work any more"); }
