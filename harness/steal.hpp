// Common parts of the harnesses of schedulers that share fibers between threads
#pragma once
#include "h.hpp"
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
// the victim is drawn: any value of the range, but not the one drawn just before if it was not used to steal (a scheduler that draws itself draws again)
static int last_draw[3]={-1,-1,-1};
static unsigned long draw(unsigned long a,unsigned long b){ int& l=last_draw[vf_thread_self()]; unsigned long m[8]; unsigned n=0; for(unsigned long v=a;v<=b&&n<8;v++) if((int)v!=l||a==b) m[n++]=v; unsigned long r=m[n>1?vf_choice("victim",n):0]; l=(int)r; return r; }
static void ghosts(){ vf_exempt(last_draw,sizeof last_draw); vf_exempt(&vf_rand_hook,8); vf_rand_hook=draw; }
// an idle thread without suspension gives its processor to the other one
template<class A> struct poll : A { using A::A; static void* operator new(size_t n){ void* p=::operator new(n); vf_exempt(p,8); return p; } /* the constructor of the base publishes the object before this class is complete */ static void operator delete(void* p){ ::operator delete(p); } context* pick_next() noexcept override { last_draw[vf_thread_self()]=-1; context* c=A::pick_next(); if(c) vf_check(c->get_scheduler()==context::active()->get_scheduler(),c->is_context(type::pinned_context)?"a fiber bound to its thread was picked by another one":"a fiber was picked without being attached to this thread"); return c; } void suspend_until(tpoint const& t) noexcept override { vf_yield(); A::suspend_until(t); } void awakened(context* c) noexcept override { vf_check(c!=context::active(),"a fiber was announced as ready while it is running"); A::awakened(c); } };
struct jobs { mutex m; condition_variable cv; unsigned left=0; unsigned started[4]={}; unsigned ended[4]={}; volatile int on[4]={-1,-1,-1,-1}; long data[4]={}; context* ctx[4]={}; condition_variable meet; unsigned here=0; int home[4]={};
    timed_mutex lock; int holder=-1; buffered_channel<uint64_t> bch{2}; unbuffered_channel<uint64_t> uch; promise<uint64_t> pr; future<uint64_t> fu{pr.get_future()}; fiber_specific_ptr<long>* fsp=nullptr; unsigned cleaned=0; };
static jobs* the_jobs; static void fss_clean(long* p){ the_jobs->cleaned++; delete p; }
static void enter(jobs* j,unsigned i){ int me=vf_thread_self(); vf_check(j->on[i]==-1,"a fiber runs on two threads at the same time"); j->on[i]=me; j->data[i]++; vf_point(&j->on[i],1); vf_check(j->on[i]==me,"a fiber runs on two threads at the same time"); }
static void leave(jobs* j,unsigned i){ vf_check(j->on[i]==vf_thread_self(),"a fiber changed its thread without having been suspended"); j->data[i]++; j->on[i]=-1; }
enum { WAITS=100, SLEEPS=101, TIMED=102, LOCKED=103, FSS=104, CHAN=105, FUT=106, JOINS=107 };
static void work(jobs* j,unsigned i,unsigned yields){ j->started[i]++; vf_check(j->started[i]==1,"a fiber was started twice"); j->ctx[i]=context::active(); int t0=vf_thread_self(); if(t0!=j->home[i]) vf_reach("elsewhere");
    if(yields==WAITS){ std::unique_lock<mutex> lk(j->m); j->here++; if(j->here==2) j->meet.notify_one(); else j->meet.wait(lk,[j]{ return j->here==2; }); }
    else if(yields==SLEEPS){ uint64_t d=vf_range("d",0,60); uint64_t t=vfe_last_now(); this_fiber::sleep_for(nsec((int64_t)d)); vf_check(vfe_last_now()-t>=d,"a sleeping fiber was resumed before its wake-up time"); }
    else if(yields==TIMED){ std::unique_lock<mutex> lk(j->m); if(i==0){ uint64_t t=vfe_last_now(), d=vf_bool("far")?1ull<<60:vf_range("d",0,60); bool r=j->meet.wait_until(lk,tp_of(t+d),[j]{ return j->here==1; }); vf_check(r==(j->here==1),"a timed wait reports the wrong result"); vf_check(r||vfe_last_now()>=t+d,"a timed wait gave up before its deadline"); } else { j->here=1; j->meet.notify_one(); } }
    else if(yields==LOCKED){ if(vf_bool("timed")) vf_check(j->lock.try_lock_until((tpoint::max)()),"an acquisition without deadline gave up"); else j->lock.lock(); vf_check(j->holder==-1,"two fibers own the mutex at the same time"); j->holder=i; int t1=vf_thread_self(); this_fiber::yield(); if(t1!=vf_thread_self()) vf_reach("carried"); vf_check(j->holder==(int)i,"two fibers own the mutex at the same time"); vf_check(err_of([j]{ j->lock.lock(); })==EDEADLK,"the owner's relock must report resource_deadlock_would_occur"); j->holder=-1; vf_check(err_of([j]{ j->lock.unlock(); })==0,"the owner cannot release its mutex"); }
    else if(yields==FSS){ vf_check(!j->fsp->get(),"a fiber starts with a value"); long* v=new long(10+i); j->fsp->reset(v); this_fiber::yield(); vf_check(j->fsp->get()==v&&*v==10+(long)i,"a fiber sees the value of another one"); }
    else if(yields==CHAN){ if(i==0){ vf_check(j->bch.push(7)==channel_op_status::success,"push: wrong status"); vf_check(j->bch.push(8)==channel_op_status::success,"push: wrong status"); vf_check(j->uch.push(9)==channel_op_status::success,"push: wrong status"); } else { uint64_t a=j->bch.value_pop(), b=j->bch.value_pop(), c=j->uch.value_pop(); vf_check(a==7&&b==8&&c==9,"a value was lost, duplicated, changed or reordered"); } }
    else if(yields==FUT){ if(i==0) j->pr.set_value(42); else vf_check(j->fu.get()==42,"the future delivered another value"); }
    else if(yields==JOINS){ bool f=false; fiber c(vf_bool("dispatch")?launch::dispatch:launch::post,[&f]{ this_fiber::yield(); f=true; }); c.join(); vf_check(f,"join returned before the fiber's function had finished"); }
    else for(unsigned k=0;k<yields;k++){ enter(j,i); leave(j,i); this_fiber::yield(); vf_check(context::active()==j->ctx[i],"a fiber was resumed as another one"); }
    enter(j,i); leave(j,i); if(t0!=vf_thread_self()) vf_reach("moved"); j->ended[i]++; std::unique_lock<mutex> lk(j->m); if(--j->left==0){ lk.unlock(); j->cv.notify_all(); } }
static void wait_all(jobs* j){ int me=vf_thread_self(); context* c=context::active(); { std::unique_lock<mutex> lk(j->m); j->cv.wait(lk,[&]{ return j->left==0; }); } vf_check(vf_thread_self()==me&&context::active()==c,"a main fiber was resumed on another thread"); }
struct sarg { jobs* j; unsigned first,n,yields; bool susp; };
static void spawn(jobs* j,unsigned first,unsigned n,unsigned yields){ for(unsigned i=first;i<first+n;i++){ j->home[i]=vf_thread_self(); fiber([j,i,yields]{ work(j,i,yields); }).detach(); } }
static void fin(jobs* j,unsigned n){ for(unsigned i=0;i<n;i++){ vf_check(j->started[i]==1&&j->ended[i]==1,"a fiber did not run exactly once"); } }
template<class A,class... P> static void peer(sarg* a,P... p){ use_scheduling_algorithm<A>(p...,a->susp); spawn(a->j,a->first,a->n,a->yields); wait_all(a->j); }
template<class A,class... P> static void two(unsigned na,unsigned nb,unsigned yields,bool susp,void(*other)(void*),P... p){ ghosts(); auto* j=new jobs; the_jobs=j; vf_exempt(&the_jobs,8); j->left=na+nb; if(yields==FSS){ vf_exempt(&j->cleaned,4); j->fsp=new fiber_specific_ptr<long>(fss_clean); } for(auto& o:j->on) vf_exempt((void*)&o,4); sarg b{j,na,nb,yields,susp}; int t=vf_thread_spawn(other,&b); sarg a{j,0,na,yields,susp}; peer<A>(&a,p...); vfe_thread_join(t); fin(j,na+nb); if(yields==FSS){ vf_check(j->cleaned==na+nb,"a value was not cleaned up exactly once"); delete j->fsp; } delete j; vf_reach("done"); }
