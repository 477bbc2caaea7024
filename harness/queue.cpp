// C29: the queues behind work stealing
#include "h.hpp"
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
namespace vf_q { struct tag; }
namespace boost { namespace fibers { template<> class worker_context<vf_q::tag> : public context { public: worker_context(type t) noexcept : context(1,t,launch::post) {} }; } }
using namespace boost::fibers;
typedef worker_context<vf_q::tag> ctx;
//@file prop=C29
struct ctxs { alignas(64) char b[12][sizeof(ctx)]; unsigned n=0; ctx* mk(bool pinned){ vf_check(n<12,"harness"); return new(b[n++]) ctx(pinned?type::main_context:type::worker_context); } static bool pinned(context* c){ return c->is_context(type::pinned_context); } };
// every sequence of operations by one thread against a list
template<class Q,bool LIFO> static void seq(unsigned cap,unsigned ops,bool pins){ ctxs S; Q q(cap); context* m[12]; unsigned b=0,e=0;
    for(unsigned k=0;k<ops;k++){ switch(vf_choice("op",4)){
        case 0: { context* c=S.mk(pins&&vf_bool("pinned")); q.push(c); m[e++]=c; break; }
        case 1: { context* c=q.pop(); if(b==e) vf_check(!c,"pop returned an entry from an empty queue"); else { context* w=LIFO?m[--e]:m[b++]; vf_check(c==w,"pop did not return the entry that is next"); } break; }
        case 2: { context* c=q.steal(); if(b==e) vf_check(!c,"steal returned an entry from an empty queue"); else if(ctxs::pinned(m[b])) vf_check(!c,"a fiber bound to its thread was stolen"); else { vf_check(c==m[b],"steal did not return the oldest entry"); b++; } break; }
        case 3: if(k+1<ops){ vf_end(); } break; }
        vf_check(q.empty()==(b==e),"empty() is wrong"); }
    while(b!=e){ context* c=q.pop(); context* w=LIFO?m[--e]:m[b++]; vf_check(c==w,"an entry was lost, duplicated or returned out of order"); } vf_check(!q.pop()&&q.empty(),"pop returned an entry from an empty queue"); vf_check(!q.steal(),"steal returned an entry from an empty queue"); after=no_leak; vf_reach("done"); }
//@ entry=q_spin1 reach=done bound="ring with spinlock, initial capacity 2, every sequence of 8 operations (push, pop, steal), entries pinned or not"
VF_ENTRY q_spin1(){ seq<detail::context_spinlock_queue,false>(2,8,true); }
//@ entry=q_spin2 reach=done bound="ring with spinlock, initial capacity 3 or 4, every sequence of 8 operations"
VF_ENTRY q_spin2(){ seq<detail::context_spinlock_queue,false>(3+vf_choice("cap",2),deep(8,11),false); }
//@ entry=q_spmc1 reach=done bound="Chase-Lev deque, initial capacity 1 or 2, every sequence of 7 operations, entries pinned or not"
VF_ENTRY q_spmc1(){ seq<detail::context_spmc_queue,true>(1+vf_choice("cap",2),deep(7,9),true); }
//@ entry=q_spmc2 reach=done bound="Chase-Lev deque, initial capacity 3 or 4, every sequence of 8 operations"
VF_ENTRY q_spmc2(){ seq<detail::context_spmc_queue,true>(3+vf_choice("cap",2),deep(8,11),false); }
// owner and thieves
struct pay { ctx* c; unsigned data; };
template<class Q> struct sh { Q q; ctxs S; pay p[8]; unsigned np=0; unsigned own=0; unsigned char took[3][8]={}; sh(unsigned cap):q(cap){} unsigned ix(context* c){ for(unsigned i=0;i<8;i++) if((void*)c==(void*)S.b[i]) return i; vf_fail("an entry was returned that was never pushed"); return 0; }
    void take(int t,context* c){ unsigned i=ix(c); vf_check(p[i].data==100+i,"what was written before an entry was pushed is not visible"); took[t][i]++; vf_check(took[t][i]==1,"an entry was returned twice"); }
    void push(bool pinned){ ctx* c=S.mk(pinned); unsigned i=ix(c); p[i].c=c; p[i].data=100+i; q.push(c); } };
template<class Q> struct targ { sh<Q>* s; int me; unsigned n; };
template<class Q> static void thief(void* a){ auto* x=(targ<Q>*)a; for(unsigned k=0;k<x->n;k++){ context* c=x->s->q.steal(); if(c){ vf_check(!ctxs::pinned(c),"a fiber bound to its thread was stolen"); x->s->take(x->me,c); } } }
template<class Q> static void mt(unsigned cap,unsigned pre,unsigned ops,unsigned nt,unsigned steals,bool pins){ auto* s=new sh<Q>(cap); targ<Q> a[2]; int t[2]; for(unsigned i=0;i<pre;i++) s->push(false); unsigned first=0; 
    for(unsigned i=0;i<nt;i++){ a[i]=targ<Q>{s,(int)i+1,steals}; t[i]=vf_thread_spawn(thief<Q>,&a[i]); }
    for(unsigned k=0;k<ops;k++){ if(vf_choice("op",2)==0) s->push(pins&&vf_bool("pinned")); else { context* c=s->q.pop(); if(c) s->take(0,c); } (void)first; }
    for(unsigned i=0;i<nt;i++) vfe_thread_join(t[i]); while(context* c=s->q.pop()) s->take(0,c); vf_check(s->q.empty(),"the queue is not empty after everything was taken");
    for(unsigned i=0;i<s->S.n;i++){ unsigned n=s->took[0][i]+s->took[1][i]+s->took[2][i]; vf_check(n==1,n?"an entry was returned twice":"an entry was lost"); if(s->took[1][i]||s->took[2][i]) vf_reach("stolen"); } delete s; vf_reach("done"); }
//@ entry=mt_spin prop=C29,C33 mt=1 hb=1 pb=3 jobs=2 reach=done,stolen bound="ring with spinlock, capacity 2, 1 entry; owner 3 operations, 1 thief 2 steals"
VF_ENTRY mt_spin(){ mt<detail::context_spinlock_queue>(2,1,3,1,2,true); }
//@ entry=mt_spin2 prop=C29,C33 mt=1 hb=1 pb=2 jobs=4 reach=done,stolen bound="ring with spinlock, capacity 4, 2 entries; owner 2 operations, 2 thieves 1 steal each"
VF_ENTRY mt_spin2(){ mt<detail::context_spinlock_queue>(4,2,2,2,1,false); }
//@ entry=mt_spmc prop=C29,C33 mt=1 hb=1 pb=4 jobs=2 reach=done,stolen bound="Chase-Lev deque, capacity 1 (grows), 1 entry; owner 3 operations, 1 thief 2 steals"
VF_ENTRY mt_spmc(){ mt<detail::context_spmc_queue>(1,1,3,1,2,true); }
//@ entry=mt_spmc2 prop=C29,C33 mt=1 hb=1 pb=3 jobs=4 reach=done,stolen bound="Chase-Lev deque, capacity 4, 2 entries; owner 2 operations, 2 thieves 1 steal each"
VF_ENTRY mt_spmc2(){ mt<detail::context_spmc_queue>(4,2,2,2,1,false); }
