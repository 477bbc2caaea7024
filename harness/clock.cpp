// C35: timeouts given as durations or on any clock
#include "h.hpp"
using namespace boost::fibers;
//@file prop=C35
typedef int64_t i64;
// expected deadline: between t0+d and t1+d nanoseconds (t0, t1: clock before and after it was computed), or never if not representable
static bool rep; static i64 dns; static uint64_t t0; static i64 slack;
static void stuck(){ vf_check(!rep||dns>=INT64_MAX-(i64)vfe_last_now(),"a timeout that can be represented never expires"); vf_reach("never"); vf_end(); }
template<class D> static void expect(D d){ // d as count of D
    typedef typename D::period P; const i64 k=(i64)((__int128)P::num*1000000000/P::den); 
    if(k>=1){ rep= d.count()<0? (d.count() >= INT64_MIN/k) : ((uint64_t)d.count() <= (uint64_t)(INT64_MAX/k)); dns= rep? (i64)d.count()*k : (d.count()<0?INT64_MIN:INT64_MAX); }
    else { const i64 f=(i64)(P::den/1000000000/P::num); rep=true; dns=d.count()/f; } // rounded towards zero
    on_stuck=stuck; t0=vfe_last_now(); }
static void expired(bool timedout){ // after the operation gave up
    if(!timedout) return; i64 n=(i64)vfe_last_now(), e= n-(i64)t0; // elapsed
    vf_check(dns<=0||(rep&&e>=dns),"a timeout expired early"); vf_reach("expired");
    if(cur_any->deadline!=tpoint{}){ i64 dl=(i64)ns_of(cur_any->deadline); vf_check(dns<=0||dl<=n+slack,"unreachable"); } }
template<class D> static D any_d(){ return D((typename D::rep)vf_sym("d",sizeof(typename D::rep)*8)); }
template<class F> static void run(F f){ use_any(); f(); vf_reach("done"); }
// an idle thread must be told a deadline not later than now plus the duration
struct bounded : any_order { using any_order::any_order; void suspend_until(tpoint const& t) noexcept override { if(rep&&dns<=INT64_MAX-(i64)vfe_last_now()) vf_check((i64)ns_of(t)<=(dns<0?0:dns)+(i64)vfe_last_now(),"a timeout expires later than its duration"); any_order::suspend_until(t); } };
template<class D> static void sleepd(){ bf::use_scheduling_algorithm<bounded>(DISP_FIFO); D d=any_d<D>(); expect(d); boost::this_fiber::sleep_for(d); expired(true); vf_reach("done"); }
//@ entry=h_sleep_ns reach=done,never bound="every duration in nanoseconds"
VF_ENTRY h_sleep_ns(){ sleepd<std::chrono::nanoseconds>(); }
//@ entry=h_sleep_us reach=done,never bound="every duration in microseconds"
VF_ENTRY h_sleep_us(){ sleepd<std::chrono::microseconds>(); }
//@ entry=h_sleep_s reach=done,never bound="every duration in seconds"
VF_ENTRY h_sleep_s(){ sleepd<std::chrono::seconds>(); }
//@ entry=h_sleep_h reach=done,never bound="every duration in hours"
VF_ENTRY h_sleep_h(){ sleepd<std::chrono::hours>(); }
//@ entry=h_sleep_ms32 reach=done bound="every 32 bit duration in milliseconds"
VF_ENTRY h_sleep_ms32(){ sleepd<std::chrono::duration<int32_t,std::milli>>(); }
//@ entry=h_sleep_u64 reach=done,never bound="every unsigned duration in nanoseconds"
VF_ENTRY h_sleep_u64(){ sleepd<std::chrono::duration<uint64_t,std::nano>>(); }
//@ entry=h_sleep_ps reach=done bound="every duration in picoseconds"
VF_ENTRY h_sleep_ps(){ sleepd<std::chrono::duration<i64,std::pico>>(); }
// every timed operation with a relative timeout
template<class D> static void ops(unsigned op){ bf::use_scheduling_algorithm<bounded>(DISP_FIFO); D d=any_d<D>();
    switch(op){
    case 0: { timed_mutex m; fiber f(launch::dispatch,[&]{ m.lock(); boost::this_fiber::sleep_until((tpoint::max)()); }); f.detach(); expect(d); bool r=m.try_lock_for(d); vf_check(!r,"acquired a locked mutex"); expired(true); vf_reach("done"); vf_end(); }
    case 1: { recursive_timed_mutex m; fiber f(launch::dispatch,[&]{ m.lock(); boost::this_fiber::sleep_until((tpoint::max)()); }); f.detach(); expect(d); bool r=m.try_lock_for(d); vf_check(!r,"acquired a locked mutex"); expired(true); vf_reach("done"); vf_end(); }
    case 2: { mutex m; condition_variable c; std::unique_lock<mutex> lk(m); expect(d); bool t=c.wait_for(lk,d)==cv_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    case 3: { mutex m; condition_variable_any c; std::unique_lock<mutex> lk(m); expect(d); bool t=!c.wait_for(lk,d,[]{ return false; }); expired(t); break; }
    case 4: { buffered_channel<int> c(2); int x; expect(d); bool t=c.pop_wait_for(x,d)==channel_op_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    case 5: { buffered_channel<int> c(2); c.push(1); expect(d); int y=2; bool t=(vf_bool("lv")?c.push_wait_for(y,d):c.push_wait_for(2,d))==channel_op_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    case 6: { unbuffered_channel<int> c; int x; expect(d); bool t=c.pop_wait_for(x,d)==channel_op_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    case 7: { unbuffered_channel<int> c; expect(d); int y=2; bool t=(vf_bool("lv")?c.push_wait_for(y,d):c.push_wait_for(2,d))==channel_op_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    case 8: { promise<int> p; future<int> f=p.get_future(); expect(d); bool t=f.wait_for(d)==future_status::timeout; vf_check(t,"wrong status"); expired(t); break; }
    } vf_reach("done"); }
//@ entry=h_for_ns reach=done,never jobs=4 bound="every timed operation, every duration in nanoseconds"
VF_ENTRY h_for_ns(){ ops<std::chrono::nanoseconds>(vf_choice("op",9)); }
//@ entry=h_for_min reach=done,never jobs=4 bound="every timed operation, every duration in minutes (64 bit)"
VF_ENTRY h_for_min(){ ops<std::chrono::duration<i64,std::ratio<60>>>(vf_choice("op",9)); }
// ---- absolute timeouts on other clocks: a clock with a fixed unknown offset to the steady clock
static i64 off; // in units of that clock
template<class Dur> struct oclock { typedef Dur duration; typedef typename Dur::rep rep; typedef typename Dur::period period; typedef std::chrono::time_point<oclock> time_point; static constexpr bool is_steady=true; static time_point now() noexcept { const i64 k=(i64)((__int128)period::num*1000000000/period::den); return time_point(Dur((i64)(vfe_now()/(uint64_t)k)+off)); } };
// the deadline on the steady clock is tp*k-off: rep/dns as for a duration from 0
template<class C> static typename C::time_point any_tp(bool few){ typedef typename C::duration D; const i64 k=(i64)((__int128)D::period::num*1000000000/D::period::den); if(few){ unsigned o=vf_choice("offset",3); off= o==0?0:o==1?(i64)((1ull<<60)/k):-(i64)((1ull<<60)/k); } else { off=(i64)vf_range("off",0,(1ull<<61)/k); if(vf_bool("neg")) off=-off; } const i64 off_=off, off=off_*k; i64 c=(i64)vf_sym("tp",64); t0=vfe_last_now();
    rep= c<0? c>=INT64_MIN/k : c<=INT64_MAX/k; i64 p= rep?c*k:0; if(rep){ if(off<0&&p>INT64_MAX+off){ rep=false; dns=INT64_MAX; } else if(off>0&&p<INT64_MIN+off) dns=INT64_MIN; else dns=p-off; } else { dns=c<0?INT64_MIN:INT64_MAX; if(c<0) rep=true; }
    return typename C::time_point(D(c)); }
static void stuck_abs(){ vf_check(!rep||dns>=INT64_MAX-(1ll<<62),"a deadline that can be represented never expires"); vf_reach("never"); vf_end(); }
struct babs : any_order { using any_order::any_order; void suspend_until(tpoint const& t) noexcept override { if(rep&&t!=(tpoint::max)()){ i64 dl=(i64)ns_of(t); vf_check(dl>=dns,"a deadline on another clock is converted to one too early"); i64 sl=((i64)vfe_last_now()-(i64)t0)+gran; vf_check(dns>INT64_MAX-sl||dl<=(dns<(i64)t0?(i64)vfe_last_now():dns+sl),"a deadline on another clock is converted to one too late"); } any_order::suspend_until(t); } static inline i64 gran=0; };
template<class C,class F> static void abs_(F f,bool few=false){ bf::use_scheduling_algorithm<babs>(DISP_FIFO); babs::gran=(i64)((__int128)C::period::num*1000000000/C::period::den)-1; auto tp=any_tp<C>(few); on_stuck=stuck_abs; f(tp); if(dns>0) vf_check(rep&&(i64)vfe_last_now()>=dns,"a deadline on another clock expired early"); vf_reach("done"); }
//@ entry=h_abs_ns reach=done,never bound="every time point of a nanosecond clock with any offset, sleep_until"
VF_ENTRY h_abs_ns(){ abs_<oclock<nsec>>([](auto tp){ boost::this_fiber::sleep_until(tp); }); }
//@ entry=h_abs_ms reach=done,never bound="every time point of a millisecond clock with any offset, sleep_until"
VF_ENTRY h_abs_ms(){ abs_<oclock<std::chrono::milliseconds>>([](auto tp){ boost::this_fiber::sleep_until(tp); }); }
//@ entry=h_abs_ops reach=done,never jobs=8 bound="every timed operation, every time point of a nanosecond clock with one of three offsets"
VF_ENTRY h_abs_ops(){ unsigned op=vf_choice("op",9); abs_<oclock<nsec>>([op](auto d){ switch(op){
    case 0: { timed_mutex m; fiber f(launch::dispatch,[&]{ m.lock(); boost::this_fiber::sleep_until((tpoint::max)()); }); f.detach(); vf_check(!m.try_lock_until(d),"acquired a locked mutex"); if(dns>0) vf_check((i64)vfe_last_now()>=dns,"a deadline on another clock expired early"); vf_reach("done"); vf_end(); }
    case 1: { recursive_timed_mutex m; fiber f(launch::dispatch,[&]{ m.lock(); boost::this_fiber::sleep_until((tpoint::max)()); }); f.detach(); vf_check(!m.try_lock_until(d),"acquired a locked mutex"); if(dns>0) vf_check((i64)vfe_last_now()>=dns,"a deadline on another clock expired early"); vf_reach("done"); vf_end(); }
    case 2: { mutex m; condition_variable c; std::unique_lock<mutex> lk(m); vf_check(c.wait_until(lk,d)==cv_status::timeout,"wrong status"); break; }
    case 3: { mutex m; condition_variable_any c; std::unique_lock<mutex> lk(m); vf_check(!c.wait_until(lk,d,[]{ return false; }),"wrong status"); break; }
    case 4: { buffered_channel<int> c(2); int x; vf_check(c.pop_wait_until(x,d)==channel_op_status::timeout,"wrong status"); break; }
    case 5: { buffered_channel<int> c(2); c.push(1); int y=2; vf_check((vf_bool("lv")?c.push_wait_until(y,d):c.push_wait_until(2,d))==channel_op_status::timeout,"wrong status"); break; }
    case 6: { unbuffered_channel<int> c; int x; vf_check(c.pop_wait_until(x,d)==channel_op_status::timeout,"wrong status"); break; }
    case 7: { unbuffered_channel<int> c; int y=2; vf_check((vf_bool("lv")?c.push_wait_until(y,d):c.push_wait_until(2,d))==channel_op_status::timeout,"wrong status"); break; }
    case 8: { promise<int> p; future<int> f=p.get_future(); vf_check(f.wait_until(d)==future_status::timeout,"wrong status"); break; }
    } },true); }
//@ entry=h_abs_steady reach=done,never bound="every time point of the steady clock, also in coarser units"
VF_ENTRY h_abs_steady(){ bf::use_scheduling_algorithm<babs>(DISP_FIFO); on_stuck=stuck_abs; off=0; i64 c=(i64)vf_sym("tp",64); t0=vfe_last_now(); rep=true; if(vf_bool("coarse")){ rep= c<=INT64_MAX/1000000; if(c<INT64_MIN/1000000) dns=INT64_MIN; else dns= rep?c*1000000:INT64_MAX; boost::this_fiber::sleep_until(std::chrono::time_point<std::chrono::steady_clock,std::chrono::milliseconds>(std::chrono::milliseconds(c))); } else { dns=c; boost::this_fiber::sleep_until(tpoint(nsec(c))); }
    if(dns>0) vf_check(rep&&(i64)vfe_last_now()>=dns,"a deadline expired early"); vf_reach("done"); }
//@ entry=h_abs_sys reach=done bound="the system clock, every duration below 2^60 ns"
VF_ENTRY h_abs_sys(){ use_any(); auto s0=std::chrono::system_clock::now(); t0=vfe_last_now(); uint64_t d=vf_range("d",0,1ull<<60); boost::this_fiber::sleep_until(s0+nsec((i64)d)); vf_check(vfe_last_now()-t0>=d,"a deadline on the system clock expired early"); vf_reach("done"); }
