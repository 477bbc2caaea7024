// Common parts of the harnesses: a scheduling algorithm that may resume ready fibers in any order, ghost helpers.
#pragma once
#include "vf.h"
#include <boost/fiber/all.hpp>
#include <chrono>
#include <new>
#include <cstdlib>
#include <stdexcept>
namespace bf = boost::fibers;
typedef std::chrono::steady_clock::time_point tpoint;
typedef std::chrono::nanoseconds nsec;
inline tpoint tp_of(uint64_t n){ return tpoint(nsec((int64_t)n)); }
inline uint64_t ns_of(tpoint t){ return (uint64_t)t.time_since_epoch().count(); }
// ghost counters of the scheduler, reset by the harness
struct sched_ghost { unsigned awakened=0, picked=0, idle=0; };
extern sched_ghost sg;
inline sched_ghost sg;
// What to do when a single-threaded program can make no progress at all: by default a violation.
inline void (*on_stuck)() = nullptr;
enum dispatcher_mode { DISP_ANY, DISP_FIFO, DISP_LAST };
// any_order: pick_next returns an arbitrary ready fiber (a symbolic choice)
struct any_order; inline any_order* cur_any=nullptr; inline bf::context* quiet_ctx=nullptr;
struct any_order : bf::algo::algorithm {
    static constexpr unsigned N=24;
    bf::context* q[N]; unsigned n=0; dispatcher_mode dm; bool fifo; bool in_suspend=false; unsigned notified=0; tpoint deadline{};
    explicit any_order(dispatcher_mode d=DISP_FIFO,bool f=false):dm(d),fifo(f){ cur_any=this; }
    void awakened(bf::context* c) noexcept override {
        vf_check(c!=nullptr,"algorithm: awakened() called with a null context");
        vf_check(c!=bf::context::active(),"algorithm: a fiber was announced as ready while it is running");
        for(unsigned i=0;i<n;i++) vf_check(q[i]!=c,"algorithm: a fiber already ready was announced again");
        if(n>=N) vf_bound("ready fibers"); q[n++]=c; sg.awakened++; }
    bf::context* pick_next() noexcept override {
        if(!n) return nullptr;
        unsigned i=0;
        if(quiet_ctx){ // every other fiber first (the dispatcher only when nothing else is left but the quiet fiber)
            unsigned c=0,m[N]; for(unsigned k=0;k<n;k++) if(q[k]!=quiet_ctx&&!q[k]->is_context(bf::type::dispatcher_context)) m[c++]=k;
            if(c) i=m[c>1&&!fifo?vf_choice("pick",c):0];
            else for(unsigned k=0;k<n;k++) if(q[k]==quiet_ctx) i=k; }
        else if(n>1 && !fifo){
            if(dm==DISP_ANY) i=vf_choice("pick",n);
            else { // choose among the ordinary fibers; the dispatcher goes in its turn (FIFO) or last
                unsigned d=n; for(unsigned k=0;k<n;k++) if(q[k]->is_context(bf::type::dispatcher_context)) d=k;
                if(dm==DISP_FIFO && d==0) i=0;
                else { unsigned m=d<n?n-1:n; i= m>1? vf_choice("pick",m):0; if(i>=d) i++; }
            } }
        bf::context* c=q[i]; for(unsigned k=i+1;k<n;k++) q[k-1]=q[k]; n--; sg.picked++; return c; }
    unsigned others() const { unsigned c=0; for(unsigned k=0;k<n;k++) if(!q[k]->is_context(bf::type::dispatcher_context)) c++; return c; }
    bool has_ready_fibers() const noexcept override { return n>0; }
    void suspend_until(tpoint const& t) noexcept override {
        vf_check(n==0,"algorithm: suspended although fibers are ready"); sg.idle++; deadline=t;
        if(t==(tpoint::max)()){ if(on_stuck) on_stuck(); vf_fail("all fibers are blocked although one of them should have been woken"); vf_end(); }
        vfe_clock_at_least(ns_of(t)); }
    void notify() noexcept override { notified++; }
};
// let every other ready fiber run until it blocks or ends
inline void quiesce(){ quiet_ctx=bf::context::active(); do boost::this_fiber::yield(); while(cur_any->others()); quiet_ctx=nullptr; }
inline void use_any(dispatcher_mode d=DISP_FIFO){ bf::use_scheduling_algorithm<any_order>(d); }
// run a function and report whether it threw fiber_error/… with the given code
template<class F> int err_of(F&& f){ try{ f(); return 0; } catch(bf::fiber_error const& e){ return e.code().value(); } }
template<class D> inline void spawn_join_all(D& fs){ for(auto& f:fs) if(f.joinable()) f.join(); }
// objects whose lifetime is tracked: constructed, copied, moved, destroyed exactly once
// bounds that are larger in the thorough tier
#ifdef VF_THOROUGH
constexpr unsigned deep(unsigned,unsigned t){ return t; }
#else
constexpr unsigned deep(unsigned q,unsigned){ return q; }
#endif
struct tracked_stats { int live=0; unsigned made=0, copies=0, moves=0, bad=0; };
inline tracked_stats ts;
struct tracked {
    uint64_t v; const tracked* self; bool moved=false; 
    explicit tracked(uint64_t x=0):v(x),self(this){ ts.live++; ts.made++; }
    tracked(tracked const& o):v(o.v),self(this){ o.ok(); ts.live++; ts.copies++; }
    tracked(tracked&& o):v(o.v),self(this){ o.ok(); o.moved=true; ts.live++; ts.moves++; }
    tracked& operator=(tracked const& o){ ok(); o.ok(); v=o.v; moved=o.moved; ts.copies++; return *this; }
    tracked& operator=(tracked&& o){ ok(); o.ok(); v=o.v; moved=false; if(&o!=this) o.moved=true; ts.moves++; return *this; }
    ~tracked(){ ok(); self=nullptr; ts.live--; }
    void ok() const { vf_check(self==this,"object used or destroyed while not alive (double destruction, or destruction of memory without an object)"); }
};
// after the main fiber's thread has ended
inline void (*after)()=nullptr;
extern "C" __attribute__((used)) void __vf_after(){ if(after) after(); }
inline void no_leak(){ vf_check(vf_live(0)==vf_live_base[0]&&vf_live(1)==vf_live_base[1]&&vf_live(2)==vf_live_base[2]&&vf_live(3)==vf_live_base[3],"memory was leaked at the end of the thread"); }
// a stack allocator that keeps account of its stacks
struct stk { static constexpr unsigned N=8; static inline unsigned allocs=0, frees=0; static inline void* base[N]; static inline void* sp[N]; static inline size_t sz[N]; static inline unsigned n=0; static inline std::size_t off=0, size=16384; static inline bool fail=false;
    typedef boost::context::stack_traits traits_type;
    boost::context::stack_context allocate(){ if(fail) throw std::bad_alloc(); vf_check(n<N,"harness: too many stacks"); void* b=malloc(size+off+64); boost::context::stack_context s; s.size=size; s.sp=(char*)b+off+size; base[n]=b; sp[n]=s.sp; sz[n]=size; n++; allocs++; return s; }
    void deallocate(boost::context::stack_context& s) noexcept { for(unsigned i=0;i<n;i++) if(sp[i]==s.sp){ vf_check(sz[i]==s.size,"a stack was given back with another size"); free(base[i]); for(unsigned k=i+1;k<n;k++){ base[k-1]=base[k]; sp[k-1]=sp[k]; sz[k-1]=sz[k]; } n--; frees++; return; } vf_fail("a stack was given back that was not allocated or already given back"); } };
