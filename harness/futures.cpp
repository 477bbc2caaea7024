// C13-C15: promises, futures, packaged tasks, async
#include "h.hpp"
using namespace boost::fibers;
//@file prop=C13
struct my_exc { uint64_t v; };
typedef future_errc fe;
static bool is_err(std::exception_ptr p,fe c){ try{ std::rethrow_exception(p); } catch(future_error const& e){ return e.code()==std::error_code(std::make_error_code(c)); } catch(...){} return false; }
template<class F> static int ferr(F&& f){ try{ f(); return 0; } catch(future_error const& e){ vf_check(&e.code().category()==&future_category(),"a future error has the wrong category"); int c=e.code().value(); vf_check(c==(int)fe::broken_promise?dynamic_cast<broken_promise const*>(&e)!=nullptr:c==(int)fe::future_already_retrieved?dynamic_cast<future_already_retrieved const*>(&e)!=nullptr:c==(int)fe::promise_already_satisfied?dynamic_cast<promise_already_satisfied const*>(&e)!=nullptr:c==(int)fe::no_state,"a future error has the wrong type"); return c; } }
#define EQ_ERR(expr,c) vf_check(ferr([&]{ expr; })==(int)(c),"wrong error reported by " #expr)
// value adapters
template<class R> struct val; 
template<> struct val<tracked>{ static void set(promise<tracked>& p,uint64_t x){ tracked t(x); p.set_value(t); } static void setm(promise<tracked>& p,uint64_t x){ p.set_value(tracked(x)); } template<class F> static uint64_t get(F& f){ tracked t=f.get(); vf_check(!t.moved,"the value received was moved from"); return t.v; } };
static uint64_t refs[8]; static unsigned nrefs;
template<> struct val<uint64_t&>{ static void set(promise<uint64_t&>& p,uint64_t x){ uint64_t& r=refs[nrefs++&7]; r=x; p.set_value(r); } static void setm(promise<uint64_t&>& p,uint64_t x){ set(p,x); } template<class F> static uint64_t get(F& f){ uint64_t& r=f.get(); vf_check(&r>=refs&&&r<refs+8,"the reference received is not the one set"); return r; } };
template<> struct val<void>{ static void set(promise<void>& p,uint64_t){ p.set_value(); } static void setm(promise<void>& p,uint64_t){ p.set_value(); } template<class F> static uint64_t get(F& f){ f.get(); return 0; } };
//@ entry=h_ferr reach=done bound="any error value against any error condition, symbolic; codes and conditions of every error of futures"
VF_ENTRY h_ferr(){ int a=(int)vf_sym("a",32), b=(int)vf_sym("b",32); auto& cat=future_category(); std::error_code ca(a,cat), cb(b,cat); vf_check((ca==cb)==(a==b),"two future errors compare wrongly"); vf_check((ca==std::error_condition(b,cat))==(a==b),"a future error matches another condition"); vf_check(!(ca==std::error_condition(b,std::generic_category()))&&!(std::error_code(a,std::generic_category())==std::error_condition(b,cat)),"an error matches a condition of another category"); auto d=ca.default_error_condition(); vf_check(d.value()==a&&d.category()==cat,"a future error has the wrong default condition");
    fe all[4]={fe::broken_promise,fe::future_already_retrieved,fe::promise_already_satisfied,fe::no_state}; for(fe x:all) for(fe y:all) vf_check((std::make_error_code(x)==std::make_error_condition(y))==(x==y)&&(std::make_error_code(x)==std::make_error_code(y))==(x==y),"two future errors compare wrongly"); vf_reach("done"); }
// one promise, its future and a shared future, any sequence of operations, against a reference model
template<class R> static void seq(unsigned depth){
    use_any(); bool isv=std::is_void<R>::value; {
    promise<R>* p=new promise<R>; future<R> f; shared_future<R> sf;
    // model: 0 unset, 1 value, 2 exception, 3 broken
    int st=0; uint64_t mv=0; bool obt=false, fv=false, sv=false, pst=true; // pst: promise has a state
    auto outcome=[&](auto&& get){ int o=0; uint64_t x=0; try{ x=get(); o=1; } catch(my_exc const& e){ o=2; x=e.v; } catch(broken_promise const& e){ o=3; x=mv; vf_check(e.code().value()==(int)fe::broken_promise,"wrong code"); }
        vf_check(o==st,"a future delivered another outcome than the one first set"); vf_check(isv&&o==1?true:x==mv,"a future delivered another value than the one first set"); };
    for(unsigned k=0;k<depth;k++){
        switch(vf_choice("op",11)){
        case 0: { int e=ferr([&]{ f=p?p->get_future():future<R>(); }); if(!p){ fv=false; break; } vf_check(e==(obt?(int)fe::future_already_retrieved:!pst?(int)fe::no_state:0),"get_future: wrong error"); if(!e){ obt=true; fv=true; } break; }
        case 1: case 2: { if(!p) break; uint64_t x=vf_sym("v",64); int e=k&1?ferr([&]{ val<R>::setm(*p,x); }):ferr([&]{ val<R>::set(*p,x); }); vf_check(e==(!pst?(int)fe::no_state:st?(int)fe::promise_already_satisfied:0),"set_value: wrong error"); if(!e){ st=1; mv=x; } break; }
        case 3: { if(!p) break; uint64_t x=vf_sym("x",64); int e=ferr([&]{ p->set_exception(std::make_exception_ptr(my_exc{x})); }); vf_check(e==(!pst?(int)fe::no_state:st?(int)fe::promise_already_satisfied:0),"set_exception: wrong error"); if(!e){ st=2; mv=x; } break; }
        case 4: { if(fv&&!st) break; if(!fv){ EQ_ERR(f.get(),fe::no_state); EQ_ERR(f.wait(),fe::no_state); EQ_ERR(f.get_exception_ptr(),fe::no_state); EQ_ERR(f.wait_for(nsec(1)),fe::no_state); EQ_ERR(f.wait_until(tp_of(1)),fe::no_state); break; } outcome([&]{ return val<R>::get(f); }); fv=false; vf_check(!f.valid(),"a one-shot future stays valid after get"); break; }
        case 5: { if(sv&&!st) break; if(!sv){ EQ_ERR(sf.get(),fe::no_state); EQ_ERR(sf.wait(),fe::no_state); break; } outcome([&]{ return val<R>::get(sf); }); vf_check(sf.valid(),"a shared future is not valid any more after get"); break; }
        case 6: { if(vf_bool("convert")){ if(vf_bool("construct")){ shared_future<R> c(std::move(f)); vf_check(c.valid()==fv&&!f.valid(),"a shared future made of a future"); sf=c; } else sf=std::move(f); sv=fv; fv=false; break; } int e=ferr([&]{ sf=f.share(); }); vf_check(e==(fv?0:(int)fe::no_state),"share: wrong error"); if(!e){ sv=true; fv=false; } break; }
        case 7: { if(!p) break; bool keep=obt&&pst; delete p; p=nullptr; if(keep&&!st) st=3; break; }
        case 8: { if(!p) break; promise<R> q(std::move(*p)); EQ_ERR(p->get_future(),fe::no_state); EQ_ERR(val<R>::set(*p,0),fe::no_state); EQ_ERR(val<R>::setm(*p,0),fe::no_state); EQ_ERR(p->set_exception(std::make_exception_ptr(my_exc{0})),fe::no_state); if(vf_bool("swap")){ swap(*p,q); EQ_ERR(q.get_future(),fe::no_state); EQ_ERR(val<R>::set(q,0),fe::no_state); swap(q,*p); } promise<R>* n=new promise<R>(std::allocator_arg,std::allocator<int>()); *n=std::move(q); delete p; p=n; break; } // moves keep everything, including what was retrieved
        case 9: { bool fr=false; if(sv||fv){ std::exception_ptr e; if(!st) break; e= fv?f.get_exception_ptr():sf.get_exception_ptr(); vf_check((st==1)==!e,"get_exception_ptr: wrong result"); if(st==3) vf_check(is_err(e,fe::broken_promise),"get_exception_ptr: not broken_promise"); (void)fr; } break; }
        case 10: { if(fv) vf_check((f.wait_for(nsec(0))==future_status::ready)==(st!=0),"wait_for: wrong status"); if(sv){ shared_future<R> c(sf); vf_check((c.wait_until(tp_of(0))==future_status::ready)==(st!=0),"wait_until: wrong status"); shared_future<R> m; m=std::move(c); vf_check(m.valid()&&!c.valid(),"move of a shared future"); sf=m; } { future<R> g(std::move(f)); vf_check(!f.valid()&&g.valid()==fv,"move of a future"); f=std::move(g); } break; }
        }
        vf_check(f.valid()==fv,"future::valid: wrong"); vf_check(sf.valid()==sv,"shared_future::valid: wrong");
    }
    delete p; } vf_check(ts.live==0,"a value was leaked or destroyed twice"); vf_reach("done"); }
//@ entry=h_prom_val reach=done jobs=4 bound="4 operations (11 kinds), symbolic values, object type"
VF_ENTRY h_prom_val(){ seq<tracked>(4); }
//@ entry=h_prom_ref reach=done jobs=4 bound="4 operations, reference type"
VF_ENTRY h_prom_ref(){ seq<uint64_t&>(4); }
//@ entry=h_prom_void reach=done jobs=4 bound="4 operations, void"
VF_ENTRY h_prom_void(){ seq<void>(4); }
//@ entry=h_prom_val5 reach=done jobs=8 tier=thorough bound="5 operations, symbolic values, object type"
VF_ENTRY h_prom_val5(){ seq<tracked>(5); }
//@ entry=h_prom_void5 reach=done jobs=8 tier=thorough bound="5 operations, void"
VF_ENTRY h_prom_void5(){ seq<void>(5); }
//@ entry=h_prom_throw reach=done,threw bound="value types whose copy may throw; swap; a promise abandoned without its future taken"
struct thrower { uint64_t v; static inline bool now=false; static inline int live=0; thrower(uint64_t x):v(x){ live++; } thrower(thrower const& o):v(o.v){ if(now) throw my_exc{1}; live++; } ~thrower(){ live--; } };
VF_ENTRY h_prom_throw(){ use_any(); { promise<thrower> p,q; future<thrower> f=p.get_future(),g=q.get_future(); thrower t(vf_sym("v",64)),u(vf_sym("u",64)); thrower::now=vf_bool("throw"); bool threw=false;
        try{ p.set_value(t); } catch(my_exc const&){ threw=true; } vf_check(threw==thrower::now,"the exception of a copy was lost"); thrower::now=false; if(threw){ vf_reach("threw"); vf_check(f.wait_for(nsec(0))==future_status::timeout,"a failed set_value made the future ready"); p.set_value(t); }
        swap(p,q); p.set_value(u); vf_check(f.get().v==t.v&&g.get().v==u.v,"swapped promises deliver to the wrong futures"); EQ_ERR(p.set_value(u),fe::promise_already_satisfied); promise<thrower> z; } vf_check(thrower::live==0,"a value was leaked or destroyed twice"); vf_reach("done"); }
// ---- C14 waiting
//@ entry=h_fut_wait prop=C14 reach=done jobs=4 bound="2 waiters of a shared future (get or wait), one setting fiber (value, exception or abandonment), every order"
VF_ENTRY h_fut_wait(){ use_any(DISP_ANY); { promise<tracked> p; shared_future<tracked> sf=p.get_future().share(); unsigned how=vf_choice("how",3); uint64_t x=vf_sym("x",64); bool set=false; unsigned ok=0; fiber f[3];
        for(int i=0;i<2;i++){ bool w=i&&vf_bool("w"); f[i]=fiber([&,w](shared_future<tracked> s){ int o=0; try{ if(w){ s.wait(); vf_check(set,"wait returned before the result was set"); } uint64_t v=s.get().v; vf_check(v==x,"a waiter read another value than the one set"); o=0; } catch(my_exc const& e){ vf_check(e.v==x,"wrong exception"); o=1; } catch(broken_promise const&){ o=2; } vf_check(set,"get returned before the result was set"); vf_check(o==(int)how,"a waiter received the wrong outcome"); ok++; },sf); }
        f[2]=fiber([&](promise<tracked> q){ set=true; if(how==0) q.set_value(tracked(x)); else if(how==1) q.set_exception(std::make_exception_ptr(my_exc{x})); },std::move(p));
        for(auto& g:f) g.join(); vf_check(ok==2,"a waiter did not finish"); } vf_check(ts.live==0,"a value was leaked or destroyed twice"); vf_reach("done"); }
template<bool REL> static void fut_timed(){ use_any(DISP_ANY); { promise<uint64_t> p; shared_future<uint64_t> sf=p.get_future().share(); bool set=false,ready=false; uint64_t dl=vf_range("dl",0,1ull<<40),ts_=vf_range("st",0,1ull<<40); unsigned n=0; 
        fiber a([&](shared_future<uint64_t> s){ bool before=set; future_status r; if(REL){ uint64_t d=dl; dl+=vfe_last_now(); r=s.wait_for(nsec((int64_t)d)); } else r=s.wait_until(tp_of(dl)); bool late=ready;
            if(r==future_status::timeout){ vf_check(vfe_last_now()>=dl,"a timed wait timed out before its deadline"); vf_check(!before,"timeout although the result was ready before the wait"); vf_check(!late,"a timed wait reported timeout although the result is ready"); vf_reach("timeout"); } else { vf_check(set,"ready although nothing was set"); vf_check(s.get()==77,"wrong value"); vf_reach("ready"); } n++; },sf);
        fiber b; if(!REL) b=fiber([&](shared_future<uint64_t> s){ vf_check(s.get()==77,"wrong value"); vf_check(set,"get returned before the result was set"); n++; },sf); else n++;
        fiber c([&](promise<uint64_t> q){ boost::this_fiber::sleep_until(tp_of(ts_)); set=true; q.set_value(77); ready=true; },std::move(p));
        a.join(); if(!REL) b.join(); c.join(); vf_check(n==2,"a waiter did not finish"); } vf_reach("done"); }
//@ entry=h_fut_timed prop=C14,C22 reach=done,ready,timeout jobs=4 bound="a timed waiter with a symbolic deadline, a blocked waiter, a setting fiber, every order"
VF_ENTRY h_fut_timed(){ fut_timed<false>(); }
//@ entry=h_fut_timedr prop=C14 reach=done,ready,timeout jobs=2 bound="wait_for with a symbolic duration, a setting fiber, every order"
VF_ENTRY h_fut_timedr(){ fut_timed<true>(); }
//@ entry=h_fut_tread prop=C14 reach=done,ready bound="timed wait (every deadline) on a result set before"
VF_ENTRY h_fut_tread(){ use_any(); promise<int> p; future<int> f=p.get_future(); p.set_value(5); uint64_t dl=vf_sym("dl",63); bool rel=vf_bool("rel"); future_status s= rel? f.wait_for(nsec((int64_t)dl)) : f.wait_until(tp_of(dl)); vf_check(s==future_status::ready,"a timed wait on a ready future must report ready"); vf_reach("ready"); vf_check(f.get()==5,"wrong value"); vf_reach("done"); }
// threads
struct fsh { promise<long*> p; long d=0; int how; }; static void fsetter(void* q){ auto*s=(fsh*)q; s->d=42; promise<long*> p(std::move(s->p)); if(s->how==0) p.set_value(&s->d); else if(s->how==1) p.set_exception(std::make_exception_ptr(my_exc{42})); }
template<class F> static void mt_get(F f,int how){ int o=0; try{ long* x=f.get(); vf_check(*x==42,"what was written before setting the result is not visible to the receiver"); o=0; } catch(my_exc const& e){ vf_check(e.v==42,"wrong exception"); o=1; } catch(broken_promise const&){ o=2; } vf_check(o==how,"wrong outcome"); }
//@ entry=mt_fut_val prop=C14,C33,C13 mt=1 hb=1 pb=3 jobs=4 reach=done bound="set by another thread"
VF_ENTRY mt_fut_val(){ fsh s; s.how=0; future<long*> f=s.p.get_future(); int t=vf_thread_spawn(fsetter,&s); mt_get(std::move(f),0); vfe_thread_join(t); vf_reach("done"); }
//@ entry=mt_fut_exc prop=C14,C33 mt=1 hb=1 pb=3 jobs=4 reach=done bound="exception set by another thread"
VF_ENTRY mt_fut_exc(){ fsh s; s.how=1; future<long*> f=s.p.get_future(); int t=vf_thread_spawn(fsetter,&s); mt_get(std::move(f),1); vfe_thread_join(t); vf_reach("done"); }
//@ entry=mt_fut_broken prop=C14,C13 mt=1 hb=1 pb=3 jobs=4 reach=done bound="abandoned by another thread"
VF_ENTRY mt_fut_broken(){ fsh s; s.how=2; future<long*> f=s.p.get_future(); int t=vf_thread_spawn(fsetter,&s); mt_get(std::move(f),2); vfe_thread_join(t); vf_reach("done"); }
struct fsh2 { shared_future<long*> f; bool ok=false; }; static void fgetter(void* q){ auto*s=(fsh2*)q; { shared_future<long*> f(std::move(s->f)); vf_check(*f.get()==42,"what was written before setting the result is not visible to the receiver"); } s->ok=true; }
//@ entry=mt_fut_shared prop=C14,C33,C13 mt=1 hb=1 pb=1 jobs=8 reach=done bound="two waiting threads, set by main"
VF_ENTRY mt_fut_shared(){ long d=0; fsh2 a,b; { promise<long*> p; a.f=p.get_future().share(); b.f=a.f; int t=vf_thread_spawn(fgetter,&a),u=vf_thread_spawn(fgetter,&b); d=42; p.set_value(&d); vfe_thread_join(t); vfe_thread_join(u); } vf_check(a.ok&&b.ok,"a waiter did not finish"); vf_reach("done"); }
//@ entry=mt_fut_shared1 prop=C14,C33 mt=1 hb=1 pb=3 jobs=4 reach=done bound="one waiting thread and main's own get, set by main"
VF_ENTRY mt_fut_shared1(){ long d=0; fsh2 a; { promise<long*> p; a.f=p.get_future().share(); shared_future<long*> m=a.f; int t=vf_thread_spawn(fgetter,&a); d=42; p.set_value(&d); vf_check(m.get()==&d,"wrong value"); m=shared_future<long*>(); vfe_thread_join(t); } vf_check(a.ok,"a waiter did not finish"); vf_reach("done"); }
// every other form of waiting, for results of every kind
template<class T> struct fshv { promise<T> p; long d=0; int how; long ref=7; }; static void vset(promise<void>& p,fshv<void>*){ p.set_value(); } static void vset(promise<long&>& p,fshv<long&>* s){ p.set_value(s->ref); } static void vset(promise<long>& p,fshv<long>* s){ const long v=s->ref; p.set_value(v); }
template<class T> static void vsetter(void* q){ auto*s=(fshv<T>*)q; s->d=42; promise<T> p(std::move(s->p)); if(s->how==0) vset(p,s); else if(s->how==1) p.set_exception(std::make_exception_ptr(my_exc{42})); }
template<class F> static bool wait_form(F& f,unsigned form,int how){ switch(form){ case 0: f.wait(); return true; case 1: return f.wait_for(nsec(100))==future_status::ready; case 2: return f.wait_until(tp_of(vfe_last_now()+100))==future_status::ready; default: std::exception_ptr e=f.get_exception_ptr(); vf_check(bool(e)==(how!=0),"get_exception_ptr: wrong outcome"); return true; } }
static void took(future<void>& f,fshv<void>*){ f.get(); } static void took(shared_future<void>& f,fshv<void>*){ f.get(); } template<class F> static void took(F& f,fshv<long&>* s){ vf_check(&f.get()==&s->ref,"wrong reference"); } template<class F> static void took(F& f,fshv<long>* s){ vf_check(f.get()==7,"wrong value"); }
template<class T,class F> static void vwait(fshv<T>& s,F f){ unsigned form=vf_choice("form",4); int t=vf_thread_spawn(vsetter<T>,&s); bool r=wait_form(f,form,s.how); if(r){ vf_check(s.d==42,"what was written before setting the result is not visible after waiting"); vf_check(f.wait_for(nsec(0))==future_status::ready,"a future that was ready is not any more"); vf_reach("ready"); } else vf_reach("timeout");
    int o=0; try{ took(f,&s); } catch(my_exc const& e){ vf_check(e.v==42,"wrong exception"); o=1; } catch(broken_promise const&){ o=2; } vf_check(o==s.how,"wrong outcome"); vfe_thread_join(t); vf_reach("done"); }
//@ entry=mt_fut_forms prop=C14,C33,C13 mt=1 hb=1 pb=1 jobs=8 reach=done,ready,timeout bound="wait, wait_for, wait_until and get_exception_ptr of future and shared_future of void, value and reference; value, exception or abandonment by another thread"
VF_ENTRY mt_fut_forms(){ int how=(int)vf_choice("how",3); bool sh=vf_bool("shared"); switch(vf_choice("type",3)){ case 0: { fshv<void> s; s.how=how; auto f=s.p.get_future(); if(sh) vwait(s,f.share()); else vwait(s,std::move(f)); break; } case 1: { fshv<long&> s; s.how=how; auto f=s.p.get_future(); if(sh) vwait(s,f.share()); else vwait(s,std::move(f)); break; } case 2: { fshv<long> s; s.how=how; auto f=s.p.get_future(); if(sh) vwait(s,f.share()); else vwait(s,std::move(f)); break; } } }
//@ entry=mt_fut_timed prop=C14,C22,C33 mt=1 hb=1 pb=2 jobs=4 reach=done,ready,timeout bound="timed wait, symbolic deadline, set by another thread"
VF_ENTRY mt_fut_timed(){ fsh s; s.how=0; future<long*> f=s.p.get_future(); uint64_t dl=vf_range("dl",0,1ull<<40); int t=vf_thread_spawn(fsetter,&s); future_status r=f.wait_until(tp_of(dl)); if(r==future_status::timeout){ vf_check(vfe_last_now()>=dl,"a timed wait timed out before its deadline"); vf_reach("timeout"); } else vf_reach("ready"); mt_get(std::move(f),0); vfe_thread_join(t); vf_reach("done"); }
// ---- C15 packaged tasks
struct mo { std::unique_ptr<uint64_t> p; }; // moves only
//@ entry=h_task prop=C15 reach=done,exc,val bound="symbolic arguments and outcome, every error"
VF_ENTRY h_task(){ use_any(); { unsigned calls=0; uint64_t a=vf_sym("a",64); uint64_t b=vf_sym("b",32); bool thr=vf_bool("throw"); tracked cap(3);
        packaged_task<tracked(uint64_t,mo,tracked const&)> t([&calls,thr,cap](uint64_t x,mo m,tracked const& y){ calls++; cap.ok(); if(thr) throw my_exc{x+*m.p}; return tracked(x+*m.p+y.v); }), e;
        EQ_ERR(e.get_future(),fe::no_state); EQ_ERR(e.reset(),fe::no_state); EQ_ERR(e(1,mo{},tracked(1)),fe::no_state); vf_check(!e.valid()&&t.valid(),"packaged_task::valid: wrong");
        future<tracked> f=t.get_future(); EQ_ERR(t.get_future(),fe::future_already_retrieved); vf_check(f.wait_for(nsec(0))==future_status::timeout,"the future of a task not invoked is ready");
        if(vf_bool("move")){ packaged_task<tracked(uint64_t,mo,tracked const&)> u(std::move(t)); vf_check(!t.valid()&&u.valid(),"packaged_task move"); EQ_ERR(u.get_future(),fe::future_already_retrieved); EQ_ERR(t.get_future(),fe::no_state); if(vf_bool("swap")) swap(t,u); else t=std::move(u); EQ_ERR(u(1,mo{},tracked(1)),fe::no_state); }
        t(a,mo{std::unique_ptr<uint64_t>(new uint64_t(b))},tracked(7)); vf_check(calls==1,"the callable did not run exactly once");
        EQ_ERR(t(1,mo{std::unique_ptr<uint64_t>(new uint64_t(1))},tracked(1)),fe::promise_already_satisfied);
        try{ tracked r=f.get(); vf_check(!thr&&r.v==a+b+7,"the future delivered another value than the one returned"); vf_reach("val"); } catch(my_exc const& x){ vf_check(thr&&x.v==a+b,"the future delivered another exception than the one thrown"); vf_reach("exc"); } }
    vf_check(ts.live==0,"a callable, argument or value was leaked or destroyed twice"); vf_reach("done"); }
//@ entry=h_task_broken prop=C15,C13 reach=done bound="task abandoned or replaced before invocation"
VF_ENTRY h_task_broken(){ use_any(); { future<int> f; unsigned how=vf_choice("how",3); packaged_task<int()> t([]{ return 1; }); f=t.get_future(); if(how==0){ packaged_task<int()> u(std::move(t)); } else if(how==1) t=packaged_task<int()>([]{ return 2; }); else { packaged_task<int()> u([]{ return 2; }); u.swap(t); future<int> g; { packaged_task<int()> v; v=std::move(u); g=std::move(f); f=t.get_future(); t(); vf_check(f.get()==2,"wrong value"); } f=std::move(g); }
        bool b=false; try{ f.get(); } catch(broken_promise const&){ b=true; } vf_check(b,"an abandoned task must deliver broken_promise"); } vf_reach("done"); }
//@ entry=h_task_reset prop=C15 reach=done,invoked bound="reset before or after invocation, future taken or not; second use after reset"
VF_ENTRY h_task_reset(){ use_any(); { tracked cap(1); unsigned calls=0; bool inv=vf_bool("inv"),got=vf_bool("got"),thr=false; uint64_t a=vf_sym("a",64),c=vf_sym("c",64); packaged_task<tracked(uint64_t)> t([&calls,cap](uint64_t x){ cap.ok(); calls++; return tracked(x); }); future<tracked> f,g; if(got) f=t.get_future(); if(inv){ t(a); vf_reach("invoked"); }
        t.reset(); g=t.get_future(); vf_check(g.wait_for(nsec(0))==future_status::timeout,"a reset task has a ready future"); t(c); vf_check(calls==(inv?2u:1u),"the callable did not run exactly once per invocation"); vf_check(g.get().v==c,"wrong value");
        if(got){ if(inv) vf_check(f.get().v==a,"reset changed the result of an earlier invocation"); else { vf_check(f.wait_for(nsec(0))==future_status::ready,"reset leaves the future of the abandoned state waiting for ever"); try{ f.get(); } catch(broken_promise const&){ thr=true; } vf_check(thr,"reset must break the abandoned state"); } } }
    vf_check(ts.live==0,"a callable or value was leaked or destroyed twice"); vf_reach("done"); }
//@ entry=h_task_void prop=C15 reach=done bound="void and reference results"
VF_ENTRY h_task_void(){ use_any(); { unsigned n=0; packaged_task<void(int)> t([&](int k){ if(k<0) throw my_exc{9}; n+=k; }); int k=(int)vf_sym("k",32); future<void> f=t.get_future(); t(k); if(k<0){ bool th=false; try{ f.get(); } catch(my_exc const&){ th=true; } vf_check(th&&n==0,"wrong outcome"); } else { f.get(); vf_check(n==(unsigned)k,"the callable did not run exactly once"); } EQ_ERR(t(1),fe::promise_already_satisfied);
        int x=0; packaged_task<int&()> r2([&]()->int&{ return x; }); future<int&> h=r2.get_future(); r2(); vf_check(&h.get()==&x,"wrong reference"); } vf_reach("done"); }
// ---- async
//@ entry=h_async prop=C15,C18 reach=done,exc,val bound="every launch policy (default, post, dispatch), with and without allocators, symbolic argument and outcome, every order"
VF_ENTRY h_async(){ use_any(DISP_ANY); { unsigned calls=0; uint64_t a=vf_sym("a",64); bool thr=vf_bool("throw"); unsigned pol=vf_choice("policy",5); context* me=context::active(); tracked cap(5);
        auto fn=[&calls,thr,me,cap](uint64_t x,mo m){ cap.ok(); vf_check(context::active()!=me,"async ran its function in the calling fiber"); calls++; if(thr) throw my_exc{x}; return tracked(x+*m.p); }; mo m{std::unique_ptr<uint64_t>(new uint64_t(2))}; future<tracked> f;
        if(pol==0) f=async(fn,a,std::move(m)); else if(pol==1) f=async(launch::post,fn,a,std::move(m)); else if(pol==2) f=async(launch::dispatch,fn,a,std::move(m)); else if(pol==3) f=async(launch::dispatch,std::allocator_arg,default_stack(),fn,a,std::move(m)); else f=async(launch::post,std::allocator_arg,default_stack(),std::allocator<int>(),fn,a,std::move(m));
        vf_check(calls==((pol==2||pol==3)?1u:0u),"async: the launch policy was not honoured"); vf_check(f.valid(),"async returned an invalid future");
        if(vf_bool("other")) boost::this_fiber::yield();
        try{ tracked r=f.get(); vf_check(!thr&&r.v==a+2,"wrong value"); vf_reach("val"); } catch(my_exc const& e){ vf_check(thr&&e.v==a,"wrong exception"); vf_reach("exc"); } vf_check(calls==1,"the callable did not run exactly once"); quiesce(); }
    quiesce(); vf_check(ts.live==0,"a callable, argument or value was leaked or destroyed twice"); vf_reach("done"); }
//@ entry=h_async_drop prop=C15,C17 reach=done bound="the future of async is dropped"
VF_ENTRY h_async_drop(){ use_any(DISP_ANY); { unsigned calls=0; { future<tracked> f=async(vf_bool("d")?launch::dispatch:launch::post,[&]{ calls++; return tracked(1); }); if(vf_bool("y")) boost::this_fiber::yield(); } quiesce(); vf_check(calls==1,"the callable did not run exactly once"); } vf_check(ts.live==0,"a value was leaked or destroyed twice"); vf_reach("done"); }
