// C01-C04: mutexes
#include "h.hpp"
using namespace boost::fibers;
//@file prop=C01,C02,C03,C04
template<class M> struct traits { static constexpr bool timed=false, rec=false; };
template<> struct traits<timed_mutex> { static constexpr bool timed=true, rec=false; };
template<> struct traits<recursive_mutex> { static constexpr bool timed=false, rec=true; };
template<> struct traits<recursive_timed_mutex> { static constexpr bool timed=true, rec=true; };
// ghost: who owns the mutex, seen from outside
struct ghost { int owner=-1; int depth=0; unsigned acq=0, trying=0; // trying: try_lock calls that have not returned yet (one of them may already own the mutex)
    void enter(int me){ vf_point(&owner,1); vf_check(owner==-1||owner==me,"two fibers own the mutex at the same time"); owner=me; depth++; acq++; vf_point(&owner,1); vf_check(owner==me,"two fibers own the mutex at the same time"); }
    void leave(int me){ vf_point(&owner,1); vf_check(owner==me&&depth>0,"two fibers own the mutex at the same time"); if(--depth==0) owner=-1; } };
static const int EDL=(int)std::errc::resource_deadlock_would_occur, EPERM_=(int)std::errc::operation_not_permitted;
template<class M> static bool timed_try(M& m,uint64_t d){ if constexpr(traits<M>::timed) return m.try_lock_until(tp_of(d)); else { (void)d; return m.try_lock(); } }
template<class M> static bool timed_for(M& m,uint64_t d){ if constexpr(traits<M>::timed) return m.try_lock_for(nsec((int64_t)d)); else { (void)d; return m.try_lock(); } }
// one acquisition by the given kind (0 lock, 1 try_lock, 2 try_lock_until, 3 try_lock_for); true if acquired
template<class M> static bool acquire(M& m,ghost& g,int me,unsigned kind) {
    if(kind==0){ m.lock(); g.enter(me); return true; }
    if(kind==1){ int o=g.owner; unsigned idle=sg.idle, tr=g.trying++; bool r=m.try_lock(); g.trying--; 
        if(r) vf_check(o==-1||(traits<M>::rec&&o==me),"try_lock succeeded although another fiber owns the mutex");
        else vf_check(tr||!(o==-1||(traits<M>::rec&&o==me)),"try_lock failed although no other fiber owns the mutex");
        vf_check(sg.idle==idle,"try_lock blocked"); if(r) g.enter(me); return r; }
    uint64_t t0=vfe_last_now(); uint64_t d= kind==2? vf_range("deadline",0,1ull<<40) : vf_range("rel",0,1ull<<40); int o=g.owner; unsigned tr=g.trying;
    bool r= kind==2? timed_try(m,d):timed_for(m,d);
    if(traits<M>::timed){ uint64_t dl= kind==2? d : t0+d; // for relative waits the deadline is at least t0+d
        if(r) g.enter(me); else { vf_check(vfe_last_now()>=dl,"timed acquisition failed before its deadline"); vf_check(tr||!(o==-1||(traits<M>::rec&&o==me)),"timed acquisition failed although the mutex was free"); vf_reach("timeout"); } }
    else if(r) g.enter(me);
    return r; }
template<class M,int NF,int R> static void body(M& m,ghost& g,int me,unsigned kinds,bool yld){
    for(int r=0;r<R;r++){
        unsigned k=kinds>1? vf_choice("op",kinds):0;
        if(acquire(m,g,me,k)){
            if(yld) boost::this_fiber::yield();
            if(traits<M>::rec && vf_bool("again")){ unsigned k2=vf_choice("op2",2); bool ok=acquire(m,g,me,k2); vf_check(ok,"recursive acquisition by the owner failed"); if(yld) boost::this_fiber::yield(); g.leave(me); m.unlock(); vf_reach("recursive"); if(yld) boost::this_fiber::yield(); }
            g.leave(me); m.unlock(); }
    } }
template<class M,int NF,int R> static void excl(unsigned kinds,bool yld=true,dispatcher_mode dm=DISP_FIFO){
    use_any(dm); M m; ghost g; 
    { fiber f[NF]; for(int i=0;i<NF;i++) f[i]=fiber([&m,&g,i,kinds,yld]{ body<M,NF,R>(m,g,i,kinds,yld); }); for(auto&x:f) x.join(); }
    vf_check(g.owner==-1,"ghost"); bool r=m.try_lock(); vf_check(r,"mutex still owned after every owner released it"); m.unlock(); vf_reach("done"); }
//@ entry=h_mutex_3x1 prop=C01,C03 reach=done bound="3 fibers x 1 op (lock/try_lock), any resume order" 
VF_ENTRY h_mutex_3x1(){ excl<mutex,3,1>(2); }
//@ entry=h_mutex_2x2 prop=C01,C03 reach=done bound="2 fibers x 2 ops"
VF_ENTRY h_mutex_2x2(){ excl<mutex,2,2>(2,true,DISP_ANY); }
//@ entry=h_mutex_3x2 prop=C01,C03 tier=thorough jobs=8 reach=done bound="3 fibers x 2 ops"
VF_ENTRY h_mutex_3x2(){ excl<mutex,3,2>(2); }
//@ entry=h_rec_3x1 prop=C01,C02,C03 reach=done,recursive jobs=2 bound="3 fibers x 1 op, optional recursion"
VF_ENTRY h_rec_3x1(){ excl<recursive_mutex,3,1>(2); }
//@ entry=h_timed_3x1 prop=C01,C03,C04 jobs=4 reach=done,timeout bound="3 fibers x 1 op of 4 kinds, symbolic deadlines and clock"
VF_ENTRY h_timed_3x1(){ excl<timed_mutex,3,1>(4); }
//@ entry=h_timed_2x1 prop=C01,C04 jobs=2 reach=done,timeout bound="2 fibers x 1 op of 4 kinds, the dispatcher in any order"
VF_ENTRY h_timed_2x1(){ excl<timed_mutex,2,1>(4,true,DISP_ANY); }
//@ entry=h_timed_2x2 prop=C04 tier=thorough jobs=8 reach=done,timeout bound="2 fibers x 2 ops of 4 kinds"
VF_ENTRY h_timed_2x2(){ excl<timed_mutex,2,2>(4); }
//@ entry=h_rtimed_3x1 prop=C01,C03,C04 jobs=8 reach=done,timeout,recursive bound="3 fibers x 1 op of 4 kinds, optional recursion"
VF_ENTRY h_rtimed_3x1(){ excl<recursive_timed_mutex,3,1>(4); }

// C02: histories of two fibers against a reference model
template<class M> struct seqcheck {
    M m; int owner=-1; int depth=0; int who=-1; unsigned op=0; bool stop=false;
    void one(int me){
        bool own=owner==me, free_=owner==-1; int e=0; bool r=false;
        switch(op){
        case 0: // lock (only when it does not block)
            try{ m.lock(); r=true; } catch(lock_error const& x){ e=x.code().value(); }
            if(own && !traits<M>::rec){ vf_check(e==EDL,"lock by the owner of a non-recursive mutex must report resource_deadlock_would_occur"); vf_reach("relock"); }
            else { vf_check(e==0&&r,"lock failed"); owner=me; depth++; } break;
        case 1:
            try{ r=m.try_lock(); } catch(lock_error const& x){ e=x.code().value(); }
            if(own && !traits<M>::rec) vf_check(e==EDL,"try_lock by the owner of a non-recursive mutex must report resource_deadlock_would_occur");
            else { vf_check(e==0,"try_lock threw"); vf_check(r==(own||free_),"try_lock must succeed exactly when no other fiber owns the mutex"); if(r){ owner=me; depth++; } } break;
        case 2:
            try{ m.unlock(); r=true; } catch(lock_error const& x){ e=x.code().value(); }
            if(!own){ vf_check(e==EPERM_,"unlock by a fiber that does not own the mutex must report operation_not_permitted"); vf_reach("foreign-unlock"); }
            else { vf_check(e==0,"unlock by the owner failed"); if(--depth==0) owner=-1; } break;
        default: { uint64_t d=vf_range("deadline",0,1ull<<40); r= op==3? timed_try(m,d):timed_for(m,d);
            if(own||free_) vf_check(r,"timed acquisition failed although no other fiber owns the mutex"); else vf_check(!r,"timed acquisition succeeded although another fiber owns the mutex"); if(r){ owner=me; depth++; } } } }
    void fib(int me){ for(;;){ while(who!=me&&!stop) boost::this_fiber::yield(); if(stop) return; one(me); who=-1; } }
    void run(int steps,unsigned ops){
        fiber a([this]{ fib(0); }), b([this]{ fib(1); });
        for(int s=0;s<steps;s++){
            int w=(int)vf_choice("who",2); unsigned o=vf_choice("op",ops);
            bool other= owner!=-1 && owner!=w;
            if(o==0&&other) vf_end(); // would block: see the entries above
            if(o>=3&&owner==w&&!traits<M>::rec) vf_end(); // precondition of the timed operations
            op=o; who=w; for(int k=0;who!=-1;k++){ if(k==3) vfe_clock_at_least(vfe_last_now()+(1ull<<41)); boost::this_fiber::yield(); } }
        // release what is held; the mutex must be free exactly then
        while(owner!=-1){ op=2; who=owner; while(who!=-1) boost::this_fiber::yield(); }
        op=1; who=1; while(who!=-1) boost::this_fiber::yield(); op=2; who=1; while(who!=-1) boost::this_fiber::yield();
        stop=true; a.join(); b.join(); vf_reach("done"); } };
template<class M> static void seq(int steps,unsigned ops){ bf::use_scheduling_algorithm<any_order>(DISP_FIFO,true); seqcheck<M> s; s.run(steps,ops); }
//@ entry=h_seq_mutex prop=C02 reach=done,relock,foreign-unlock bound="histories of 5 calls by 2 fibers"
VF_ENTRY h_seq_mutex(){ seq<mutex>(deep(5,7),3); }
//@ entry=h_seq_timed prop=C02,C04 reach=done,relock,foreign-unlock bound="histories of 4 calls by 2 fibers, symbolic deadlines"
VF_ENTRY h_seq_timed(){ seq<timed_mutex>(deep(4,6),5); }
//@ entry=h_seq_rec prop=C02 reach=done,foreign-unlock bound="histories of 5 calls by 2 fibers"
VF_ENTRY h_seq_rec(){ seq<recursive_mutex>(deep(5,7),3); }
//@ entry=h_seq_rtimed prop=C02,C04 reach=done,foreign-unlock bound="histories of 4 calls by 2 fibers, symbolic deadlines"
VF_ENTRY h_seq_rtimed(){ seq<recursive_timed_mutex>(deep(4,6),5); }
