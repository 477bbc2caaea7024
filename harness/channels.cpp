// C08-C12: buffered and unbuffered channels
#include "h.hpp"
using namespace boost::fibers;
typedef channel_op_status st_t;
static const int EPERM_=(int)std::errc::operation_not_permitted, EINV=(int)std::errc::invalid_argument;
//@file prop=C08
// ---- buffered: one fiber, every sequence of operations against a FIFO model
template<unsigned CAP> static void bseq(unsigned steps){
    { buffered_channel<tracked> ch(CAP); uint64_t q[16]; unsigned h=0,t=0; bool closed=false; unsigned full=0,empty=0;
    for(unsigned s=0;s<steps;s++){
        unsigned o=vf_choice("op",8);
        if(o<4){ uint64_t x=vf_sym("value",64); tracked v(x); st_t r; bool mayblock=!closed&&t-h==CAP-1;
            if(o==0) r=ch.try_push(v); else if(o==1) r=ch.try_push(std::move(v));
            else if(mayblock){ uint64_t d=vf_range("d",0,1ull<<40); uint64_t dl=vfe_last_now()+d; r=o==2?ch.push_wait_for(v,nsec((int64_t)d)):ch.push_wait_for(std::move(v),nsec((int64_t)d)); vf_check(r==st_t::timeout,"push into a full channel must time out"); vf_check(vfe_last_now()>=dl,"push timed out before its deadline"); vf_reach("timeout"); continue; }
            else r=o==2?ch.push(v):ch.push(std::move(v));
            st_t want=closed?st_t::closed:t-h==CAP-1?st_t::full:st_t::success;
            vf_check(r==want,"push: wrong status"); if(r==st_t::success) q[t++]=x; if(want==st_t::full) vf_reach("full"); if(want==st_t::closed) vf_reach("closed");
            if(o==1||o==3) vf_check(v.moved==(r==st_t::success),"push by move: the argument is consumed exactly on success"); }
        else if(o<7){ tracked v(77); st_t r=st_t::success; uint64_t got=0; bool wouldblock=t==h&&!closed; st_t want=t!=h?st_t::success:closed?st_t::closed:st_t::empty;
            if(o==4||(wouldblock&&o==6)) { r=ch.try_pop(v); got=v.v; if(want==st_t::empty) vf_reach("empty"); }
            else if(wouldblock||(o==5&&vf_bool("timed"))){ uint64_t d=vf_range("d",0,1ull<<40); uint64_t dl=vfe_last_now()+d; r=ch.pop_wait_until(v,tp_of(dl)); got=v.v; if(wouldblock){ vf_check(r==st_t::timeout&&vfe_last_now()>=dl,"pop from an empty channel must time out, not before its deadline"); vf_reach("timeout"); continue; } }
            else if(o==5){ r=ch.pop(v); got=v.v; }
            else { int e=err_of([&]{ tracked w=ch.value_pop(); got=w.v; }); if(e){ vf_check(e==EPERM_,"value_pop: wrong error"); r=st_t::closed; } }
            vf_check(r==want,"pop: wrong status"); if(r==st_t::success){ vf_check(got==q[h],"pop returned a wrong value"); h++; vf_reach("popped"); } }
        else { if(vf_bool("query")) vf_check(ch.is_closed()==closed,"is_closed() is wrong"); else { ch.close(); closed=true; } } } }
    vf_check(ts.live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_buf_seq2 prop=C08,C10 jobs=4 reach=done,full,closed,empty,popped,timeout bound="capacity 2, 4 operations out of 11 kinds, symbolic values, deadlines and clock"
VF_ENTRY h_buf_seq2(){ bseq<2>(deep(4,5)); }
//@ entry=h_buf_seq4 prop=C08 jobs=4 tier=thorough reach=done,full,closed,empty,popped,timeout bound="capacity 4, 6 operations" time=300
VF_ENTRY h_buf_seq4(){ bseq<4>(6); }
// wrap-around: pushes and pops only, many rounds
//@ entry=h_buf_wrap jobs=2 reach=done,full,empty bound="capacity 4, 11 operations (try_push/try_pop)"
VF_ENTRY h_buf_wrap(){ buffered_channel<uint64_t> ch(4); uint64_t q[16]; unsigned h=0,t=0; for(unsigned s=0;s<deep(11,15);s++){ if(vf_choice("op",2)){ uint64_t v=0; st_t r=ch.try_pop(v); vf_check(r==(t==h?st_t::empty:st_t::success),"pop: wrong status"); if(t==h) vf_reach("empty"); else { vf_check(v==q[h],"pop returned a wrong value"); h++; } }
        else { uint64_t x=vf_sym("value",64); st_t r=ch.try_push(x); vf_check(r==(t-h==3?st_t::full:st_t::success),"push: wrong status"); if(t-h==3) vf_reach("full"); else q[t++]=x; } } vf_reach("done"); }
//@ entry=h_buf_capacity reach=bad,good bound="every 64-bit capacity is judged; accepted ones up to 64 are filled"
VF_ENTRY h_buf_capacity(){ 
    if(vf_choice("good",2)){ uint64_t c=2ull<<vf_choice("log",6); buffered_channel<int> ch(c); unsigned n=0; while(ch.try_push(1)==st_t::success) n++; vf_check(n==c-1,"the channel must accept exactly capacity-1 values"); vf_reach("good"); }
    else { uint64_t c=vf_sym("capacity",64); vf_assume(!((c^(c-1))>(c-1)&&c>1)); bool thrown=false; try{ buffered_channel<int> ch(c); } catch(fiber_error const& e){ thrown=e.code().value()==EINV; } vf_check(thrown,"an invalid capacity must be rejected with invalid_argument"); vf_reach("bad"); } }
// ---- buffered: several fibers
template<unsigned CAP> struct bworld {
    buffered_channel<tracked> ch{CAP}; uint64_t q[32]; unsigned h=0,t=0; bool closed=false; int bp=0,bc=0; unsigned popped=0; uint64_t lastof[4]={}; bool timed=false; uint64_t limitp=~0ull,limitc=~0ull;
    unsigned size() const { return t-h; }
    st_t push(int me,unsigned n,unsigned kinds){
        uint64_t x=me*16+n+1; tracked v(x); unsigned k=vf_choice("pkind",kinds); st_t r; uint64_t dl=0; bool was_closed=closed; bp++;
        if(k==0) r=ch.push(v); else if(k==1) r=ch.push(std::move(v)); else if(k==2){ dl=vf_range("pdl",0,1ull<<40); r=vf_bool("mv")?ch.push_wait_until(std::move(v),tp_of(dl)):ch.push_wait_until(v,tp_of(dl)); } else r=ch.try_push(v);
        bp--; if(was_closed) vf_check(r==st_t::closed,"push after close must report closed");
        if(r==st_t::success){ vf_check(!closed,"push reported success after close"); vf_check(size()<CAP-1,"the channel accepted more than capacity-1 values"); q[t++]=x; }
        else if(r==st_t::timeout){ vf_check(k==2&&vfe_last_now()>=dl,"push timed out before its deadline"); vf_check(size()==CAP-1||closed||limbo(),"push timed out although there was room"); vf_reach("ptimeout"); }
        else if(r==st_t::full) { vf_check(k==3&&size()==CAP-1,"push reported full although there was room"); }
        else vf_check(r==st_t::closed&&closed,"push reported closed although the channel is open");
        return r; }
    bool limbo() const { return true; }
    st_t pop(unsigned kinds){
        tracked v(99); uint64_t got=0; st_t r=st_t::success; unsigned k=vf_choice("ckind",kinds); uint64_t dl=0; bc++;
        if(k==0){ r=ch.pop(v); got=v.v; } else if(k==1){ int e=err_of([&]{ tracked w=ch.value_pop(); got=w.v; }); if(e){ vf_check(e==EPERM_,"value_pop: wrong error"); r=st_t::closed; } }
        else if(k==2){ dl=vf_range("cdl",0,1ull<<40); r=ch.pop_wait_until(v,tp_of(dl)); got=v.v; } else { r=ch.try_pop(v); got=v.v; }
        bc--;
        if(r==st_t::success){ vf_check(size()>0,"pop reported success on an empty channel"); vf_check(got==q[h],"a value was lost, duplicated, changed or reordered"); h++; popped++; }
        else if(r==st_t::timeout){ vf_check(k==2&&vfe_last_now()>=dl,"pop timed out before its deadline"); vf_reach("ctimeout"); }
        else if(r==st_t::empty) vf_check(k==3&&size()==0&&!closed,"pop reported empty although there was a value");
        else vf_check(r==st_t::closed&&closed&&size()==0,"pop reported closed before the channel was closed and drained");
        return r; }
    void stranded(){ vf_check(!(bp>0&&(size()<CAP-1||closed)),"a producer stays blocked although there is room (or the channel is closed)"); vf_check(!(bc>0&&(size()>0||closed)),"a consumer stays blocked although there is a value (or the channel is closed)"); } };
template<unsigned CAP,int NP,int NC> static void bfib(unsigned each,unsigned kinds,unsigned nops){
    use_any(kinds>2?DISP_ANY:DISP_FIFO); { bworld<CAP> w; fiber f[NP+NC];
    for(int i=0;i<NP;i++) f[i]=fiber([&w,i,each,kinds]{ for(unsigned n=0;n<each;n++) if(w.push(i,n,kinds)==st_t::closed) break; });
    for(int i=0;i<NC;i++) f[NP+i]=fiber([&w,each,kinds]{ for(unsigned n=0;n<each;n++) if(w.pop(kinds)==st_t::closed) break; });
    for(unsigned s=0;s<nops;s++){ unsigned o=vf_choice("main",4); if(o==0) boost::this_fiber::yield(); else if(o==1){ quiesce(); w.stranded(); } else if(o==2){ tracked v(1); if(w.size()){ vf_check(w.ch.try_pop(v)==st_t::success,"pop: wrong status"); vf_check(v.v==w.q[w.h],"a value was lost, duplicated, changed or reordered"); w.h++; } else if(!w.closed){ uint64_t x=100+s; vf_check(w.ch.try_push(tracked(x))==st_t::success,"push: wrong status"); w.q[w.t++]=x; } } else { w.ch.close(); w.closed=true; vf_reach("closed"); } }
    quiesce(); w.stranded();
    w.ch.close(); w.closed=true; quiesce(); w.stranded(); for(auto&x:f) x.join();
    while(w.size()) vf_check(w.pop(1)==st_t::success,"a value was lost"); vf_check(w.pop(1)==st_t::closed,"pop after close and drain must report closed"); }
    vf_check(ts.live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_buf_1x1 prop=C08,C09,C10 jobs=2 reach=done,closed bound="capacity 2, 1 producer x 2, 1 consumer x 2, 2 steps of main, untimed"
VF_ENTRY h_buf_1x1(){ bfib<2,1,1>(2,2,2); }
//@ entry=h_buf_2x1 prop=C08,C09 jobs=4 reach=done,closed bound="capacity 2, 2 producers x 1, 1 consumer x 1, 2 steps of main"
VF_ENTRY h_buf_2x1(){ bfib<2,2,1>(1,2,2); }
//@ entry=h_buf_1x2 prop=C08,C09,C10 jobs=4 reach=done,closed bound="capacity 2, 1 producer x 1, 2 consumers x 1, 2 steps of main"
VF_ENTRY h_buf_1x2(){ bfib<2,1,2>(1,2,2); }
//@ entry=h_buf_timed prop=C09 jobs=4 reach=done,ptimeout,ctimeout bound="capacity 2, 1 producer and 1 consumer x 1 of 4 kinds, 2 steps of main, symbolic deadlines and clock"
VF_ENTRY h_buf_timed(){ bfib<2,1,1>(1,4,2); }
//@ entry=h_buf_timed2 prop=C09 jobs=8 reach=done,ptimeout bound="capacity 2, 2 producers of 3 kinds, 1 step of main"
VF_ENTRY h_buf_timed2(){ bfib<2,2,0>(1,3,1); }
//@ entry=h_buf_timed3 prop=C09 jobs=8 reach=done,ctimeout bound="capacity 2, 2 consumers of 3 kinds, 1 step of main"
VF_ENTRY h_buf_timed3(){ bfib<2,0,2>(1,3,1); }
//@ entry=h_buf_2x2 prop=C08,C09,C10 jobs=8 tier=thorough time=300 reach=done,closed bound="capacity 2, 2 producers x 2, 2 consumers x 2"
VF_ENTRY h_buf_2x2(){ bfib<2,2,2>(2,2,1); }
//@ entry=h_buf_timed4 prop=C09 jobs=8 tier=thorough time=300 reach=done,ptimeout,ctimeout bound="capacity 2, 2 producers, 1 consumer, 4 kinds, 2 steps"
VF_ENTRY h_buf_timed4(){ bfib<2,2,1>(1,4,2); }
// every overload: K fibers blocked on one side, several transfers from the other side before any of them is resumed, perhaps a close
static st_t push_any(buffered_channel<tracked>& ch,uint64_t x,bool tr){ tracked v(x); tpoint far=(tpoint::max)(); nsec fd=(nsec::max)();
    switch(vf_choice("push",tr?8:6)){ case 0: return ch.push(v); case 1: return ch.push(std::move(v)); case 2: return ch.push_wait_until(v,far); case 3: return ch.push_wait_until(std::move(v),far); case 4: return ch.push_wait_for(v,fd); case 5: return ch.push_wait_for(std::move(v),fd); case 6: return ch.try_push(v); default: return ch.try_push(std::move(v)); } }
static st_t pop_any(buffered_channel<tracked>& ch,uint64_t& x,bool tr){ tracked v(99); st_t r; tpoint far=(tpoint::max)(); nsec fd=(nsec::max)();
    switch(vf_choice("pop",tr?6:5)){ case 0: r=ch.pop(v); break; case 1: r=st_t::success; if(err_of([&]{ v=ch.value_pop(); })) r=st_t::closed; break; case 2: r=ch.pop_wait_until(v,far); break; case 3: r=ch.pop_wait_for(v,fd); break; case 4: { auto it=begin(ch); if(it!=end(ch)){ v=*it; r=st_t::success; } else r=st_t::closed; break; } default: r=ch.try_pop(v); } x=v.v; return r; }
template<unsigned CAP,int K> static void bblock(bool producers,unsigned xfers,bool mayclose){
    use_any(); { buffered_channel<tracked> ch(CAP); unsigned in=0,out=0,done=0,closedn=0; bool closed=false; uint64_t seen=0; fiber f[K];
        if(producers) for(unsigned i=0;i<CAP-1;i++) vf_check(ch.try_push(tracked(in++))==st_t::success,"push: wrong status");
        auto got=[&](uint64_t x){ vf_check(x<32&&!(seen>>x&1),"a value was duplicated or changed"); seen|=1ull<<x; out++; };
        for(int i=0;i<K;i++) f[i]=fiber([&,i]{ st_t r; if(producers){ r=push_any(ch,16+i,false); if(r==st_t::success) in++; } else { uint64_t x; r=pop_any(ch,x,false); if(r==st_t::success) got(x); } if(r==st_t::success) done++; else { vf_check(r==st_t::closed&&closed,"wrong status"); closedn++; } });
        quiesce(); vf_check(done==0,"an operation that must block returned");
        for(unsigned s=0;s<xfers;s++){ if(mayclose&&vf_bool("close")){ ch.close(); closed=true; vf_reach("closed"); break; }
            if(producers){ uint64_t x=0; vf_check(pop_any(ch,x,true)==st_t::success,"pop: wrong status"); got(x); } else { vf_check(push_any(ch,in,true)==st_t::success,"push: wrong status"); in++; } }
        quiesce(); unsigned room=producers?CAP-1-(in-out):in-out;
        if(closed) vf_check(done+closedn==K,"a fiber stays blocked on a closed channel");
        else vf_check(!(done<K&&room>0),producers?"a producer stays blocked although there is room":"a consumer stays blocked although there is a value");
        ch.close(); closed=true; quiesce(); vf_check(done+closedn==K,"a fiber stays blocked on a closed channel"); for(auto&x:f) x.join();
        for(;;){ tracked v(99); st_t r=ch.try_pop(v); if(r==st_t::closed) break; vf_check(r==st_t::success,"pop: wrong status"); got(v.v); } vf_check(in==out,"a value was lost"); }
    vf_check(ts.live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_buf_bc prop=C09,C10,C08 jobs=4 reach=done,closed bound="2 consumers blocked in any of 5 pops, up to 2 pushes by any of 8 overloads (or close) before one is resumed, capacity 4"
VF_ENTRY h_buf_bc(){ bblock<4,2>(false,2,true); }
//@ entry=h_buf_bp prop=C09,C10,C08 jobs=4 reach=done,closed bound="2 producers blocked in any of 6 pushes, up to 2 pops by any of 6 forms (or close) before one is resumed, capacity 2 or 4"
VF_ENTRY h_buf_bp(){ bblock<4,2>(true,2,true); }
//@ entry=h_buf_bc3 prop=C09 jobs=8 tier=thorough reach=done bound="3 consumers blocked, 3 pushes by any overload"
VF_ENTRY h_buf_bc3(){ bblock<4,3>(false,3,false); }
//@ entry=h_buf_bp3 prop=C09 jobs=8 tier=thorough reach=done bound="3 producers blocked, 3 pops of any form"
VF_ENTRY h_buf_bp3(){ bblock<4,3>(true,3,false); }
// iteration
template<class CH> static void iterate(CH& ch,unsigned n){
    unsigned stop=vf_choice("stop",n+2); unsigned k=0; unsigned copy=vf_choice("copy",4);
    for(auto it=begin(ch);it!=end(ch);++it){ vf_check(it->v==10+k,"iteration returned a wrong value"); vf_check((*it).v==10+k,"iteration returned a wrong value"); k++;
        if(copy==2){ auto c=std::move(it); vf_check(c!=end(ch)&&c->v==9+k&&!c->moved,"a moved iterator refers to another value"); it=end(ch); vf_check(it==end(ch),"an iterator assigned from the end is not the end"); it=std::move(c); vf_check(it!=end(ch)&&it->v==9+k&&!it->moved,"a moved iterator refers to another value"); }
        if(copy==3){ decltype(it) c; vf_check(c==end(ch),"a default iterator is not the end"); c=std::move(it); it=c; vf_check(it==c&&it->v==9+k&&!it->moved,"a moved iterator refers to another value"); decltype(it) e(end(ch)), e2(std::move(e)); vf_check(e2==end(ch),"a moved end is not the end"); it=it; vf_check(it->v==9+k,"self-assignment changed the value of an iterator"); }
        if(copy==1){ auto c=it; vf_check(c==it,"copies of an iterator compare equal"); vf_check(c->v==it->v,"a copy of an iterator refers to another value"); c=it; vf_check(c->v==it->v,"a copy of an iterator refers to another value"); }
        if(k==stop){ vf_reach("stopped"); break; } }
    vf_check(k==(stop>0&&stop<=n?stop:n),"iteration did not end after the last value"); }
//@ entry=h_buf_iter prop=C10,C08 reach=done,stopped bound="up to 3 values, left after any number of steps, producer a fiber or already done"
VF_ENTRY h_buf_iter(){ use_any(); { buffered_channel<tracked> ch(4); unsigned n=vf_choice("n",4); fiber f([&]{ for(unsigned i=0;i<n;i++) ch.push(tracked(10+i)); ch.close(); }); if(vf_bool("first")) f.join(); iterate(ch,n); if(f.joinable()) f.join(); } vf_check(ts.live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_unb_iter prop=C12,C11 reach=done,stopped bound="up to 3 values, left after any number of steps"
VF_ENTRY h_unb_iter(){ use_any(); { unbuffered_channel<tracked> ch; unsigned n=vf_choice("n",4); fiber f([&]{ for(unsigned i=0;i<n;i++) if(ch.push(tracked(10+i))!=st_t::success) break; ch.close(); }); iterate(ch,n); ch.close(); f.join(); } vf_check(ts.live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
// ---- unbuffered: several fibers
struct uworld {
    unbuffered_channel<tracked> ch; bool closed=false; int bp=0,bc=0; unsigned taken[80]={}; bool over[80]={}; unsigned okp=0,okc=0; uint64_t last[5]={};
    st_t push(int me,unsigned n,unsigned kinds){
        uint64_t x=me*16+n+1; tracked v(x); unsigned k=vf_choice("pkind",kinds); st_t r; uint64_t dl=0; bool was_closed=closed; bp++;
        if(k==0) r=ch.push(v); else if(k==1) r=ch.push(std::move(v)); else { dl=vf_range("pdl",0,1ull<<40); r=vf_bool("mv")?ch.push_wait_until(std::move(v),tp_of(dl)):ch.push_wait_until(v,tp_of(dl)); }
        bp--; over[x]=true; if(was_closed) vf_check(r==st_t::closed,"push after close must report closed");
        if(r==st_t::success){ vf_check(taken[x]==1,"push reported success although its value was not received"); okp++; vf_reach("pushed"); }
        else { vf_check(taken[x]==0,"push did not report success although its value was received"); if(r==st_t::timeout){ vf_check(k==2&&vfe_last_now()>=dl,"push timed out before its deadline"); vf_reach("ptimeout"); } else vf_check(r==st_t::closed&&closed,"push reported closed although the channel is open"); }
        return r; }
    void received(uint64_t x){ vf_check(x>0&&x<80,"pop returned a value that was never pushed"); vf_check(!over[x],"pop returned the value of a push that is already over"); taken[x]++; vf_check(taken[x]==1,"a value was received twice"); vf_check(x>last[x>>4],"the values of one producer were reordered"); last[x>>4]=x; okc++; }
    st_t pop(unsigned kinds){
        tracked v(99); uint64_t got=0; st_t r=st_t::success; unsigned k=vf_choice("ckind",kinds); uint64_t dl=0; bool was_closed=closed; bc++;
        if(k==0){ r=ch.pop(v); got=v.v; } else if(k==1){ int e=err_of([&]{ tracked w=ch.value_pop(); got=w.v; }); if(e){ vf_check(e==EPERM_,"value_pop: wrong error"); r=st_t::closed; } }
        else { dl=vf_range("cdl",0,1ull<<40); r=ch.pop_wait_until(v,tp_of(dl)); got=v.v; }
        bc--; if(was_closed) vf_check(r==st_t::closed,"pop after close must report closed");
        if(r==st_t::success) received(got); else if(r==st_t::timeout){ vf_check(k==2&&vfe_last_now()>=dl,"pop timed out before its deadline"); vf_reach("ctimeout"); } else vf_check(r==st_t::closed&&closed,"pop reported closed although the channel is open");
        return r; }
    void stranded(){ vf_check(!(bp>0&&bc>0),"a pushing and a popping fiber are both blocked"); vf_check(!(closed&&(bp>0||bc>0)),"a fiber stays blocked on a closed channel"); } };
template<int NP,int NC> static void ufib(unsigned each,unsigned kinds,unsigned nops,unsigned mains=4){
    use_any(kinds>2?DISP_ANY:DISP_FIFO); { uworld w; fiber f[NP+NC];
    for(int i=0;i<NP;i++) f[i]=fiber([&w,i,each,kinds]{ for(unsigned n=0;n<each;n++) if(w.push(i,n,kinds)==st_t::closed) break; });
    for(int i=0;i<NC;i++) f[NP+i]=fiber([&w,each,kinds]{ for(unsigned n=0;n<each;n++) if(w.pop(kinds)==st_t::closed) break; });
    for(unsigned s=0;s<nops;s++){ unsigned o=vf_choice("main",mains); if(o==0) boost::this_fiber::yield(); else if(o==1){ quiesce(); w.stranded(); }
        else if(o==2){ w.ch.close(); w.closed=true; vf_reach("closed"); }
        else { uint64_t dl=vfe_last_now(); tracked v(99); bool wc=w.closed; w.bc++; st_t r=w.ch.pop_wait_until(v,tp_of(dl)); w.bc--; if(r==st_t::success) w.received(v.v); else vf_check(r==(wc?st_t::closed:st_t::timeout),"pop: wrong status"); } }
    quiesce(); w.stranded();
    w.ch.close(); w.closed=true; quiesce(); w.stranded(); for(auto&x:f) x.join();
    tracked v(99); vf_check(w.ch.pop(v)==st_t::closed,"pop after close must report closed"); vf_check(w.ch.push(v)==st_t::closed,"push after close must report closed"); vf_check(w.okc>=w.okp,"ghost"); }
    vf_check(ts.live==0,"objects passed through the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_unb_1x1 prop=C11,C12 jobs=4 reach=done,closed,pushed bound="1 producer x 2, 1 consumer x 2, 2 steps of main, untimed"
VF_ENTRY h_unb_1x1(){ ufib<1,1>(2,2,2); }
//@ entry=h_unb_2x1 prop=C11,C12 jobs=4 reach=done,closed,pushed bound="2 producers x 1, 1 consumer x 1, 2 steps of main"
VF_ENTRY h_unb_2x1(){ ufib<2,1>(1,2,2); }
//@ entry=h_unb_1x2 prop=C11,C12 jobs=4 reach=done,closed,pushed bound="1 producer x 1, 2 consumers x 1, 2 steps of main"
VF_ENTRY h_unb_1x2(){ ufib<1,2>(1,2,2); }
//@ entry=h_unb_timed prop=C12,C11 jobs=4 reach=done,closed,ptimeout,ctimeout,pushed bound="1 producer and 1 consumer x 1 of 3 kinds, 2 steps of main, symbolic deadlines and clock"
VF_ENTRY h_unb_timed(){ ufib<1,1>(1,3,2); }
//@ entry=h_unb_timed2 prop=C12 jobs=8 reach=done,closed,ptimeout,pushed bound="2 producers of 3 kinds, 1 step of main"
VF_ENTRY h_unb_timed2(){ ufib<2,0>(1,3,1); }
//@ entry=h_unb_timed3 prop=C12,C11 tier=thorough jobs=8 reach=done,closed,ctimeout bound="2 consumers of 3 kinds and 1 producer, 1 step of main" time=110
VF_ENTRY h_unb_timed3(){ ufib<1,2>(1,3,1,3); }
//@ entry=h_unb_2x2 prop=C11,C12 jobs=8 tier=thorough time=300 reach=done,closed,pushed bound="2 producers x 2, 2 consumers x 2, 1 step of main"
VF_ENTRY h_unb_2x2(){ ufib<2,2>(2,2,1); }
//@ entry=h_unb_timed4 prop=C11,C12 jobs=8 tier=thorough time=300 reach=done,closed,pushed bound="2 producers, 1 consumer, 3 kinds, 2 steps"
VF_ENTRY h_unb_timed4(){ ufib<2,1>(1,3,2); }
// every overload: K fibers blocked on one side, main on the other
static st_t upush_any(unbuffered_channel<tracked>& ch,uint64_t x){ tracked v(x); tpoint far=(tpoint::max)(); nsec fd=(nsec::max)();
    switch(vf_choice("push",6)){ case 0: return ch.push(v); case 1: return ch.push(std::move(v)); case 2: return ch.push_wait_until(v,far); case 3: return ch.push_wait_until(std::move(v),far); case 4: return ch.push_wait_for(v,fd); default: return ch.push_wait_for(std::move(v),fd); } }
static st_t upop_any(unbuffered_channel<tracked>& ch,uint64_t& x){ tracked v(99); st_t r; tpoint far=(tpoint::max)(); nsec fd=(nsec::max)();
    switch(vf_choice("pop",5)){ case 0: r=ch.pop(v); break; case 1: r=st_t::success; if(err_of([&]{ v=ch.value_pop(); })) r=st_t::closed; break; case 2: r=ch.pop_wait_until(v,far); break; case 3: r=ch.pop_wait_for(v,fd); break; default: { auto it=begin(ch); if(it!=end(ch)){ v=*it; r=st_t::success; } else r=st_t::closed; } } x=v.v; return r; }
template<int K> static void ublock(bool producers,unsigned xfers){
    use_any(); { unbuffered_channel<tracked> ch; unsigned done=0,closedn=0; bool closed=false; uint64_t pushed=0,seen=0; fiber f[K];
        auto got=[&](uint64_t x){ vf_check(x<32&&!(seen>>x&1),"a value was received twice or changed"); seen|=1ull<<x; };
        for(int i=0;i<K;i++) f[i]=fiber([&,i]{ st_t r; if(producers){ r=upush_any(ch,16+i); if(r==st_t::success) pushed|=1ull<<(16+i); } else { uint64_t x; r=upop_any(ch,x); if(r==st_t::success) got(x); } if(r==st_t::success) done++; else { vf_check(r==st_t::closed&&closed,"wrong status"); closedn++; } });
        if(vf_bool("blocked")) { quiesce(); vf_check(done==0,"an operation that must block returned"); }
        for(unsigned s=0;s<xfers;s++){ if(vf_bool("close")){ ch.close(); closed=true; vf_reach("closed"); break; }
            if(producers){ uint64_t x=0; vf_check(upop_any(ch,x)==st_t::success,"pop: wrong status"); got(x); } else { vf_check(upush_any(ch,s)==st_t::success,"push: wrong status"); pushed|=1ull<<s; } }
        quiesce(); if(closed) vf_check(done+closedn==K,"a fiber stays blocked on a closed channel"); 
        ch.close(); closed=true; quiesce(); vf_check(done+closedn==K,"a fiber stays blocked on a closed channel"); for(auto&x:f) x.join(); vf_check(pushed==seen,"successful pushes and received values differ"); }
    vf_check(ts.live==0,"objects passed through the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_unb_bc prop=C11,C12 jobs=4 reach=done,closed bound="2 consumers of any of 5 forms, up to 2 pushes by any of 6 overloads, or close"
VF_ENTRY h_unb_bc(){ ublock<2>(false,2); }
//@ entry=h_unb_bp prop=C11,C12 jobs=4 reach=done,closed bound="2 producers of any of 6 overloads, up to 2 pops of any of 5 forms, or close"
VF_ENTRY h_unb_bp(){ ublock<2>(true,2); }
//@ entry=h_unb_closed prop=C12 reach=done bound="every overload of push and pop on a closed channel"
VF_ENTRY h_unb_closed(){ use_any(); { unbuffered_channel<tracked> ch; ch.close(); uint64_t x; vf_check(upop_any(ch,x)==st_t::closed&&upush_any(ch,1)==st_t::closed&&ch.is_closed(),"an operation on a closed channel must report closed"); ch.close(); } vf_check(ts.live==0,"objects passed through the channel were not destroyed exactly once"); vf_reach("done"); }
// ---- values whose copy or move may throw: an operation left by that exception has transferred nothing and lost nothing
struct my_exc { uint64_t v; };
struct tv { uint64_t v; static inline int arm=0, live=0; static void may(){ if(arm>0&&--arm==0) throw my_exc{5}; } explicit tv(uint64_t x=0):v(x){ live++; } tv(tv const& o):v(o.v){ may(); live++; } tv(tv&& o):v(o.v){ may(); live++; } tv& operator=(tv const& o){ may(); v=o.v; return *this; } tv& operator=(tv&& o){ may(); v=o.v; return *this; } ~tv(){ live--; } };
template<class F> static bool throwing(bool t,F f){ tv::arm=t?1:0; bool thrown=false; try{ f(); } catch(my_exc const& x){ thrown=x.v==5; } vf_check(thrown==t||!t,"the exception of a value was replaced"); vf_check(!t||thrown==(tv::arm==0),"the exception of a value was lost"); tv::arm=0; return thrown; }
template<class CH> static st_t tpush(CH& ch,unsigned k,tv& v){ tpoint far=(tpoint::max)(); nsec fd=(nsec::max)(); switch(k){ case 0: return ch.push(v); case 1: return ch.push(std::move(v)); case 2: return ch.push_wait_until(v,far); case 3: return ch.push_wait_until(std::move(v),far); case 4: return ch.push_wait_for(v,fd); default: return ch.push_wait_for(std::move(v),fd); } }
template<class CH> static st_t tpop(CH& ch,unsigned k,tv& v){ tpoint far=(tpoint::max)(); nsec fd=(nsec::max)(); switch(k){ case 0: return ch.pop(v); case 1: { tv w=ch.value_pop(); v.v=w.v; return st_t::success; } case 2: return ch.pop_wait_until(v,far); default: return ch.pop_wait_for(v,fd); } }
//@ entry=h_buf_throw prop=C08 jobs=2 reach=done,threw bound="capacity 4, 0-3 values, then 3 operations by any of 8 pushes and 5 pops, each of whose copies or moves may throw"
VF_ENTRY h_buf_throw(){ use_any(); { buffered_channel<tv> ch(4); uint64_t q[8]; unsigned h=0,t=0; for(unsigned i=vf_choice("start",4);i--;){ vf_check(ch.try_push(tv(i))==st_t::success,"push: wrong status"); q[t++]=i; } for(unsigned s=0;s<3;s++){ bool thr=vf_bool("throws"); st_t r=st_t::success;
        if(t-h<3&&(t==h||vf_bool("push"))){ tv v(10+s); unsigned k=vf_choice("kind",8); bool x=throwing(thr,[&]{ r= k==6?ch.try_push(v):k==7?ch.try_push(std::move(v)):tpush(ch,k,v); }); if(x){ vf_reach("threw"); continue; } vf_check(r==st_t::success,"push: wrong status"); q[t++]=10+s; }
        else { tv v(99); unsigned k=vf_choice("kind",5); bool x=throwing(thr,[&]{ r= k==4?ch.try_pop(v):tpop(ch,k,v); }); if(x){ vf_reach("threw"); continue; } vf_check(r==st_t::success&&v.v==q[h],"a value was lost, duplicated, changed or reordered"); h++; } }
    ch.close(); while(h<t){ tv v(99); vf_check(ch.pop(v)==st_t::success&&v.v==q[h],"a value was lost, duplicated, changed or reordered"); h++; } tv v(99); vf_check(ch.pop(v)==st_t::closed,"pop after close and drain must report closed"); }
    vf_check(tv::live==0,"elements of the channel were not destroyed exactly once"); vf_reach("done"); }
//@ entry=h_unb_throw prop=C11,C12 jobs=2 reach=done,threw bound="2 transfers by any of 6 pushes and 4 pops each of whose first copy or move may throw, by two fibers; the channel is closed after any number of them"
VF_ENTRY h_unb_throw(){ use_any(); { unbuffered_channel<tv> ch; unsigned n=0; uint64_t cur=0; bool pend=false, closed=false; unsigned stop=vf_choice("stop",3);
    fiber f([&]{ for(unsigned i=0;i<2;){ tv v(10+i); unsigned k=vf_choice("pkind",6); bool thr=vf_bool("pthrows"); st_t r=st_t::success; tv::arm=thr?1:0; bool x=false; unsigned before=n; cur=10+i; pend=!thr; try{ r=tpush(ch,k,v); } catch(my_exc const&){ x=true; } pend=false; tv::arm=0; if(thr){ vf_reach("threw"); vf_check(x,"the exception of a value was lost"); vf_check(n==before,"a value whose push was left by an exception was received"); v.v=10+i; r=ch.push(v); }
        if(r==st_t::closed){ vf_check(closed&&n==before,"push reported closed although its value was received"); return; } vf_check(r==st_t::success&&n==before+1,"push reported success although its value was not received"); i++; } });
    quiesce(); for(unsigned i=0;i<2&&i<stop;i++){ tv v(99); unsigned k=vf_choice("ckind",4); st_t r=st_t::success; if(throwing(vf_bool("cthrows"),[&]{ n++; r=tpop(ch,k,v); })){ n--; vf_reach("threw"); quiesce(); n++; vf_check(ch.pop(v)==st_t::success,"pop: wrong status"); } vf_check(r==st_t::success&&v.v==10+i,"a value was lost, duplicated, changed or reordered"); quiesce(); }
    closed=true; ch.close(); f.join(); vf_check(n==stop,"ghost"); tv v(99); vf_check(ch.pop(v)==st_t::closed,"pop after close must report closed"); }
    vf_check(tv::live==0,"objects passed through the channel were not destroyed exactly once"); vf_reach("done"); }
