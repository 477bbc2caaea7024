// C01, C03, C33: mutexes used from several OS threads (each thread's main fiber, and additional fibers)
#include "h.hpp"
using namespace boost::fibers;
//@file prop=C01,C03 mt=1 hb=1
template<class M> struct traits { static constexpr bool timed=false, rec=false; };
template<> struct traits<timed_mutex> { static constexpr bool timed=true, rec=false; };
template<> struct traits<recursive_mutex> { static constexpr bool timed=false, rec=true; };
template<> struct traits<recursive_timed_mutex> { static constexpr bool timed=true, rec=true; };
template<class M> struct shared {
    M m; int owner=-1; long data=0; // data is protected by the mutex: the race check makes sure that it is published
    void cs(int me){ vf_point(&owner,1); vf_check(owner==-1,"two fibers own the mutex at the same time"); owner=me; vf_point(&owner,1); long d=data; vf_check(owner==me,"two fibers own the mutex at the same time"); data=d+1; owner=-1; }
    unsigned op(int me,unsigned kinds){ unsigned k=kinds>1?vf_choice("op",kinds):0;
        if(k==0){ m.lock(); cs(me); m.unlock(); return 1; }
        if(k==1){ if(m.try_lock()){ cs(me); m.unlock(); return 1; } return 0; }
        if constexpr(traits<M>::timed){ uint64_t d=vf_range("deadline",0,1ull<<40); if(m.try_lock_until(tp_of(d))){ cs(me); m.unlock(); return 1; } vf_check(vfe_last_now()>=d,"timed acquisition failed before its deadline"); vf_reach("timeout"); }
        return 0; } };
template<class M> struct arg { shared<M>* s; int me; unsigned kinds; unsigned rounds; unsigned got=0; };
template<class M> static void thr(void* p){ auto*a=(arg<M>*)p; for(unsigned i=0;i<a->rounds;i++) a->got+=a->s->op(a->me,a->kinds); }
template<class M> static void two(unsigned kinds,unsigned rounds,int nt=2){
    shared<M> s; arg<M> a[3]; int t[3]; for(int i=0;i<nt;i++) a[i]=arg<M>{&s,i,kinds,rounds};
    for(int i=1;i<nt;i++) t[i]=vf_thread_spawn(thr<M>,&a[i]);
    thr<M>(&a[0]); for(int i=1;i<nt;i++) vfe_thread_join(t[i]);
    long n=0; for(int i=0;i<nt;i++) n+=a[i].got; vf_check(s.data==n,"an update made under the mutex was lost"); bool r=s.m.try_lock(); vf_check(r,"mutex still owned after every owner released it"); s.m.unlock(); vf_reach("done"); }
//@ entry=mt_mutex prop=C01,C03,C33 pb=3 jobs=2 reach=done bound="2 threads x 1 op (lock/try_lock)"
VF_ENTRY mt_mutex(){ two<mutex>(2,1); }
//@ entry=mt_mutex2 pb=2 jobs=4 reach=done bound="2 threads x 2 lock/unlock"
VF_ENTRY mt_mutex2(){ two<mutex>(1,2); }
//@ entry=mt_mutex3 pb=2 jobs=8 reach=done tier=thorough bound="3 threads x 1 lock/unlock"
VF_ENTRY mt_mutex3(){ two<mutex>(1,1,3); }
//@ entry=mt_rec pb=2 jobs=2 reach=done prop=C01,C03,C33 bound="2 threads x 1 op (lock/try_lock)"
VF_ENTRY mt_rec(){ two<recursive_mutex>(2,1); }
//@ entry=mt_timed prop=C01,C03,C04,C33 pb=2 jobs=4 reach=done,timeout bound="2 threads x 1 op (lock/try_lock/try_lock_until)"
VF_ENTRY mt_timed(){ two<timed_mutex>(3,1); }
//@ entry=mt_rtimed prop=C01,C03,C04,C33 pb=2 jobs=4 reach=done,timeout bound="2 threads x 1 op (lock/try_lock/try_lock_until)"
VF_ENTRY mt_rtimed(){ two<recursive_timed_mutex>(3,1); }
// two fibers on one thread and the main fiber of another
static void lockers(void* p){ auto* s=(shared<mutex>*)p; fiber f([s]{ s->op(2,1); }); s->op(1,1); f.join(); }
//@ entry=mt_mutex_fibers pb=2 jobs=8 reach=done bound="2 threads, 3 fibers, 1 lock/unlock each"
VF_ENTRY mt_mutex_fibers(){ shared<mutex> s; int t=vf_thread_spawn(lockers,&s); s.op(0,1); vfe_thread_join(t); vf_check(s.data==3,"an update made under the mutex was lost"); vf_reach("done"); }
