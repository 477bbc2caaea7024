// C08-C12, C33: channels between OS threads
#include "h.hpp"
using namespace boost::fibers;
typedef channel_op_status st_t;
//@file prop=C08 mt=1 hb=1
struct box { long v=0; long* p=nullptr; }; // *p is written before the push: visible to the receiver
// ---- one producer thread, one consumer (main), N values
template<class CH> struct sh { CH* ch; unsigned n; long data[4]; bool close; bool ok=true; int got=0; long pd; unsigned cnt=0; st_t rs[4]; };
template<class CH> static void producer(void* q){ auto*s=(sh<CH>*)q; for(unsigned i=0;i<s->n;i++){ s->data[i]=100+i; box b; b.v=i+1; b.p=&s->data[i]; s->rs[i]=s->ch->push(b); if(s->rs[i]==st_t::success) s->cnt++; } if(s->close) s->ch->close(); }
template<class CH> static void p1c1(CH& ch,unsigned n,bool close,bool val=false){ sh<CH> s{&ch,n}; s.close=close; int t=vf_thread_spawn(producer<CH>,&s);
    for(unsigned i=0;i<n;i++){ box b; if(val) b=ch.value_pop(); else vf_check(ch.pop(b)==st_t::success,"pop failed although a value was pushed"); vf_check(b.v==(long)i+1,"a value was lost, duplicated, changed or reordered"); vf_check(*b.p==100+(long)i,"what was written before the push is not visible to the receiver"); }
    if(close){ box b; vf_check(ch.pop(b)==st_t::closed,"pop after close and drain must report closed"); vf_check(ch.push(b)==st_t::closed,"push after close must report closed"); }
    vfe_thread_join(t); vf_check(s.cnt==n,"push did not report success although its value was received"); vf_reach("done"); }
//@ entry=mt_buf_1x1 prop=C08,C09,C33 pb=3 jobs=2 reach=done bound="capacity 2, 2 values from another thread"
VF_ENTRY mt_buf_1x1(){ buffered_channel<box> ch(2); p1c1(ch,2,false); }
//@ entry=mt_buf_close prop=C10,C09,C33 pb=3 jobs=2 reach=done bound="capacity 2, 1 value, then close by the producer thread"
VF_ENTRY mt_buf_close(){ buffered_channel<box> ch(2); p1c1(ch,1,true,true); }
//@ entry=mt_unb_1x1 prop=C11,C33 pb=2 jobs=4 reach=done bound="2 values from another thread"
VF_ENTRY mt_unb_1x1(){ unbuffered_channel<box> ch; p1c1(ch,2,false); }
//@ entry=mt_unb_close prop=C11,C12,C33 pb=3 jobs=4 reach=done bound="1 value, then close by the producer thread"
VF_ENTRY mt_unb_close(){ unbuffered_channel<box> ch; p1c1(ch,1,true,true); }
// ---- the consumer closes while the producer may be anywhere
template<class CH> static void cclose(CH& ch,bool pop,unsigned n){ sh<CH> s{&ch,n}; s.close=false; int t=vf_thread_spawn(producer<CH>,&s); unsigned got=0;
    if(pop){ box b; st_t r=ch.pop(b); vf_check(r==st_t::success&&b.v==1,"pop failed although a value was pushed"); got++; }
    ch.close(); for(;;){ box b; st_t r=ch.pop(b); if(r==st_t::closed) break; vf_check(r==st_t::success,"pop after close: wrong status"); got++; vf_check(b.v==(long)got,"a value was lost, duplicated, changed or reordered"); vf_check(*b.p==99+(long)got,"what was written before the push is not visible to the receiver"); }
    vfe_thread_join(t); vf_check(s.cnt==got,"successful pushes and received values differ"); if(got<n) vf_reach("closed"); vf_reach("done"); }
//@ entry=mt_buf_cclose prop=C10,C33 pb=2 jobs=4 reach=done,closed bound="capacity 2, producer thread pushes 2, consumer closes"
VF_ENTRY mt_buf_cclose(){ buffered_channel<box> ch(2); cclose(ch,false,2); }
//@ entry=mt_unb_cclose prop=C12,C33 pb=3 jobs=4 reach=done,closed bound="producer thread pushes 1, consumer closes"
VF_ENTRY mt_unb_cclose(){ unbuffered_channel<box> ch; cclose(ch,false,1); }
//@ entry=mt_unb_cclose2 prop=C12,C33 pb=2 jobs=4 reach=done,closed bound="producer thread pushes 2, consumer pops 1 and closes"
VF_ENTRY mt_unb_cclose2(){ unbuffered_channel<box> ch; cclose(ch,true,2); }
// ---- a popping thread, closed by main
template<class CH> static void popper(void* q){ auto*s=(sh<CH>*)q; box b; st_t r; while((r=s->ch->pop(b))==st_t::success) s->cnt++; vf_check(r==st_t::closed,"pop: wrong status"); }
template<class CH> static void pclose(CH& ch,unsigned n){ sh<CH> s{&ch,n}; int t=vf_thread_spawn(popper<CH>,&s); long d[3]; unsigned ok=0; for(unsigned i=0;i<n;i++){ box b; b.v=i+1; b.p=d; if(ch.push(b)==st_t::success) ok++; } ch.close(); vfe_thread_join(t); vf_check(s.cnt==ok&&ok==n,"successful pushes and received values differ"); vf_reach("done"); }
//@ entry=mt_buf_pclose prop=C10,C09 pb=3 jobs=2 reach=done bound="popping thread, 1 push and close by main"
VF_ENTRY mt_buf_pclose(){ buffered_channel<box> ch(2); pclose(ch,1); }
//@ entry=mt_unb_pclose prop=C12,C11 pb=3 jobs=4 reach=done bound="popping thread, 1 push and close by main"
VF_ENTRY mt_unb_pclose(){ unbuffered_channel<box> ch; pclose(ch,1); }
// ---- timed operations against another thread
template<class CH> static void tproducer(void* q){ auto*s=(sh<CH>*)q; s->data[0]=100; box b; b.v=1; b.p=&s->data[0]; uint64_t dl=vf_range("pdl",0,1ull<<40); s->rs[0]=s->ch->push_wait_until(b,tp_of(dl)); if(s->rs[0]==st_t::timeout){ vf_check(vfe_last_now()>=dl,"push timed out before its deadline"); vf_reach("ptimeout"); } else s->cnt++; }
template<class CH> static void timed(CH& ch,bool tpop){ sh<CH> s{&ch,1}; int t=vf_thread_spawn(tproducer<CH>,&s); box b; st_t r; uint64_t dl=vf_range("cdl",0,1ull<<40);
    r=ch.pop_wait_until(b,tp_of(dl)); if(r==st_t::timeout){ vf_check(vfe_last_now()>=dl,"pop timed out before its deadline"); vf_reach("ctimeout"); } else { vf_check(r==st_t::success&&b.v==1&&*b.p==100,"a value was lost, duplicated, changed or reordered"); vf_reach("ok"); }
    vfe_thread_join(t); if constexpr(std::is_same<CH,unbuffered_channel<box>>::value) vf_check(s.cnt==(r==st_t::success?1:0),"the statuses of a push and a pop disagree about the transfer"); else { vf_check(s.cnt==1,"push timed out although there was room"); if(r!=st_t::success) vf_check(ch.try_push(b)==st_t::full,"a value was lost"); } vf_reach("done"); }
//@ entry=mt_unb_timed prop=C12,C22,C33 pb=2 jobs=8 reach=done,ok,ptimeout,ctimeout bound="timed push by a thread, timed pop by main, symbolic deadlines"
VF_ENTRY mt_unb_timed(){ unbuffered_channel<box> ch; timed(ch,true); }
//@ entry=mt_buf_timed prop=C09,C22,C33 pb=2 jobs=4 reach=done,ok,ctimeout bound="timed push by a thread, timed pop by main, symbolic deadlines"
VF_ENTRY mt_buf_timed(){ buffered_channel<box> ch(2); timed(ch,true); }
// ---- two producer threads, one slot
template<class CH> struct sh2 { CH* ch; long id; st_t r; }; template<class CH> static void prod2(void* q){ auto*s=(sh2<CH>*)q; box b; b.v=s->id; s->r=s->ch->push(b); }
template<class CH> static void p2c1(CH& ch){ sh2<CH> a{&ch,1},b{&ch,2}; int t=vf_thread_spawn(prod2<CH>,&a), u=vf_thread_spawn(prod2<CH>,&b); box x,y; vf_check(ch.pop(x)==st_t::success&&ch.pop(y)==st_t::success,"pop: wrong status"); vf_check(x.v+y.v==3&&x.v*y.v==2,"a value was lost, duplicated, changed or reordered"); vfe_thread_join(t); vfe_thread_join(u); vf_check(a.r==st_t::success&&b.r==st_t::success,"push: wrong status"); vf_reach("done"); }
//@ entry=mt_buf_2x1 prop=C08,C09 pb=2 jobs=8 reach=done bound="capacity 2, 2 producer threads x 1 value"
VF_ENTRY mt_buf_2x1(){ buffered_channel<box> ch(2); p2c1(ch); }
//@ entry=mt_unb_2x1 prop=C11 pb=1 jobs=8 reach=done bound="2 producer threads x 1 value"
VF_ENTRY mt_unb_2x1(){ unbuffered_channel<box> ch; p2c1(ch); }
//@ entry=mt_unb_2x1d prop=C11 pb=2 jobs=8 tier=thorough reach=done bound="2 producer threads x 1 value"
VF_ENTRY mt_unb_2x1d(){ unbuffered_channel<box> ch; p2c1(ch); }
// ---- the operations that do not wait, and the inspections, against each other: the lock of the channel may be held by the other thread
struct shx { buffered_channel<box>* ch; unsigned op; long data=0; st_t r=st_t::success; bool cl=false; };
static void xop(shx* s,long v){ box b; b.v=v; b.p=&s->data; switch(s->op){ case 0: s->data=100+v; s->r=s->ch->try_push(b); break; case 1: s->data=100+v; s->r=s->ch->try_push(std::move(b)); break;
    case 2: s->data=100+v; s->r=s->ch->push_wait_until(b,tp_of(0)); break; case 3: s->data=100+v; s->r=s->ch->push_wait_until(std::move(b),tp_of(0)); break;
    case 4: s->r=s->ch->try_pop(b); if(s->r==st_t::success){ vf_check(b.v==9&&*b.p==7,"a value was lost, duplicated, changed or reordered"); } break; case 5: s->cl=s->ch->is_closed(); break; default: s->ch->close(); } }
static void xthread(void* q){ xop((shx*)q,1); }
static void xrun(unsigned ta,unsigned tb){ buffered_channel<box> ch(2); long d=7; bool pre=vf_bool("full"); if(pre){ box b; b.v=9; b.p=&d; vf_check(ch.try_push(b)==st_t::success,"try_push failed on an empty channel"); }
    shx a{&ch,ta},b{&ch,tb}; int t=vf_thread_spawn(xthread,&a); xop(&b,2); vfe_thread_join(t);
    // what is left, in some order of the two operations
    long got[3]; unsigned n=0; { box x; st_t r; while((r=ch.try_pop(x))==st_t::success){ vf_check(n<2&&x.p!=nullptr,"more values than were pushed"); vf_check(*x.p==(x.v==9?7:100+x.v),"what was written before the push is not visible to the receiver"); got[n++]=x.v; } vf_check(r==((ta==6||tb==6)?st_t::closed:st_t::empty),"try_pop on a drained channel: wrong status"); }
    bool okorder=false; for(int o=0;o<2;o++){ shx* x[2]={o?&b:&a,o?&a:&b}; long q[3]; unsigned m=0; bool c=false,ok=true; if(pre) q[m++]=9; for(int k=0;k<2;k++){ shx* s=x[k]; long v=s==&a?1:2; if(s->op<4){ st_t w=c?st_t::closed:m==1?(s->op<2?st_t::full:st_t::timeout):st_t::success; ok=ok&&s->r==w; if(w==st_t::success) q[m++]=v; } else if(s->op==4){ if(m){ ok=ok&&s->r==st_t::success; if(q[0]!=9) ok=false; m--; for(unsigned i=0;i<m;i++) q[i]=q[i+1]; } else ok=ok&&s->r==(c?st_t::closed:st_t::empty); } else if(s->op==5) ok=ok&&s->cl==c; else c=true; }
        ok=ok&&m==n; for(unsigned i=0;i<m&&i<n;i++) ok=ok&&q[i]==got[i]; if(ok) okorder=true; }
    vf_check(okorder,"the results of two concurrent operations fit no order of the two"); vf_reach("done"); }
//@ entry=mt_buf_x prop=C08,C09,C10 pb=2 jobs=8 reach=done bound="capacity 2, every pair of try_push (both forms), push_wait_until (both forms, deadline passed), is_closed, close by two threads, empty or full"
VF_ENTRY mt_buf_x(){ static const unsigned k[6]={0,1,2,3,5,6}; unsigned a=k[vf_choice("a",6)]; unsigned b=k[vf_choice("b",6)]; xrun(a,b); }
//@ entry=mt_buf_xpop prop=C08,C09,C10 pb=4 jobs=8 reach=done bound="capacity 2, try_pop against each of try_push, push_wait_until, is_closed, close, try_pop by another thread, full"
VF_ENTRY mt_buf_xpop(){ buffered_channel<box> ch(2); long d=7; box p; p.v=9; p.p=&d; vf_check(ch.try_push(p)==st_t::success,"try_push failed on an empty channel"); shx a{&ch,vf_choice("a",7)},b{&ch,4}; int t=vf_thread_spawn(xthread,&a); xop(&b,2); vfe_thread_join(t);
    if(a.op==4) vf_check((a.r==st_t::success)!=(b.r==st_t::success),"one value was taken twice or not at all"); else vf_check(b.r==st_t::success,"try_pop failed although a value is stored");
    box x; st_t r=ch.try_pop(x); bool in=a.op<4&&a.r==st_t::success; vf_check(in?(r==st_t::success&&x.v==1&&*x.p==101):r==(a.op==6?st_t::closed:st_t::empty),"what is left does not fit the results"); if(a.op<4&&!in) vf_check(a.r==(a.op<2?st_t::full:st_t::timeout),"push: wrong status"); vf_reach("done"); }
