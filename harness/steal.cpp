// C23, C24: schedulers that share fibers between threads
#include "steal.hpp"
#include <boost/fiber/algo/shared_work.hpp>
#include <boost/fiber/algo/work_stealing.hpp>
//@file mt=1 hb=1
typedef poll<algo::shared_work> SW;
struct WS : poll<algo::work_stealing> { using poll<algo::work_stealing>::poll; context* steal() noexcept override { last_draw[vf_thread_self()]=-1; return poll<algo::work_stealing>::steal(); } };
static void osw(void* p){ peer<SW>((sarg*)p); }
static void ows(void* p){ peer<WS>((sarg*)p,2u); }
//@ entry=sw_poll prop=C23,C33 pb=3 jobs=8 reach=done,moved bound="2 threads without suspension, 1 fiber created on each"
VF_ENTRY sw_poll(){ two<SW>(1,1,1,false,osw); }
//@ entry=sw_one prop=C23 pb=3 jobs=8 reach=done,moved bound="2 threads without suspension, 2 fibers created on one"
VF_ENTRY sw_one(){ two<SW>(2,0,1,false,osw); }
//@ entry=sw_susp prop=C23 pb=3 jobs=8 reach=done bound="2 threads, suspending when idle, 1 fiber created on each"
VF_ENTRY sw_susp(){ two<SW>(1,1,1,true,osw); }
//@ entry=sw_block prop=C23,C21 pb=2 jobs=4 reach=done,moved bound="2 threads without suspension; a fiber that waits for another one created on the other thread"
VF_ENTRY sw_block(){ two<SW>(1,1,WAITS,false,osw); }
//@ entry=sw_sleep prop=C23,C20 pb=1 jobs=4 reach=done bound="2 threads, a sleeping fiber"
VF_ENTRY sw_sleep(){ vfe_clock_step=50; two<SW>(1,0,SLEEPS,false,osw); }
//@ entry=ws_poll prop=C24,C33 pb=2 jobs=8 reach=done,moved bound="2 threads without suspension, 1 fiber created on each"
VF_ENTRY ws_poll(){ two<WS>(1,1,1,false,ows,2u); }
//@ entry=ws_one prop=C24 pb=2 jobs=8 reach=done,elsewhere bound="2 threads without suspension, 2 fibers created on one"
VF_ENTRY ws_one(){ two<WS>(2,0,0,false,ows,2u); }
//@ entry=ws_susp prop=C24 pb=2 jobs=8 reach=done bound="2 threads, suspending when idle, 1 fiber created on each"
VF_ENTRY ws_susp(){ two<WS>(1,1,1,true,ows,2u); }
//@ entry=ws_block prop=C24,C21 pb=1 jobs=4 reach=done bound="2 threads without suspension; a fiber that waits for another one created on the other thread"
VF_ENTRY ws_block(){ two<WS>(1,1,WAITS,false,ows,2u); }
//@ entry=ws_spmc prop=C24,C29 pb=2 jobs=8 defs="-DBOOST_FIBERS_USE_SPMC_QUEUE" reach=done bound="2 threads, suspending when idle, 1 fiber created on each, Chase-Lev deque"
VF_ENTRY ws_spmc(){ two<WS>(1,1,1,true,ows,2u); }
//@ entry=sw_timed prop=C23,C06,C22 pb=1 jobs=4 reach=done bound="2 threads without suspension; a fiber with a timed wait, notified by one of the other thread"
VF_ENTRY sw_timed(){ vfe_clock_step=50; two<SW>(1,1,TIMED,false,osw); }
//@ entry=ws_timed prop=C24,C06,C22 pb=1 jobs=4 reach=done bound="2 threads without suspension; a fiber with a timed wait, notified by one of the other thread"
VF_ENTRY ws_timed(){ vfe_clock_step=50; two<WS>(1,1,TIMED,false,ows,2u); }
//@ entry=sw_locked prop=C23,C01,C02 pb=1 jobs=4 reach=done bound="2 threads without suspension; each fiber holds a timed mutex across a suspension"
VF_ENTRY sw_locked(){ vfe_clock_step=50; two<SW>(1,1,LOCKED,false,osw); }
//@ entry=ws_locked prop=C24,C01,C02 pb=1 jobs=4 reach=done bound="2 threads without suspension; each fiber holds a timed mutex across a suspension"
VF_ENTRY ws_locked(){ vfe_clock_step=50; two<WS>(1,1,LOCKED,false,ows,2u); }
//@ entry=sw_fss prop=C23,C25 pb=1 jobs=4 reach=done bound="2 threads without suspension; fibers with fiber-specific values across a suspension"
VF_ENTRY sw_fss(){ vfe_clock_step=50; two<SW>(1,1,FSS,false,osw); }
//@ entry=ws_fss prop=C24,C25 pb=1 jobs=4 reach=done bound="2 threads without suspension; fibers with fiber-specific values across a suspension"
VF_ENTRY ws_fss(){ vfe_clock_step=50; two<WS>(1,1,FSS,false,ows,2u); }
//@ entry=sw_chan prop=C23,C08,C09,C11 pb=1 jobs=4 reach=done bound="2 threads without suspension; values passed from one fiber to another over a buffered and an unbuffered channel"
VF_ENTRY sw_chan(){ vfe_clock_step=50; two<SW>(1,1,CHAN,false,osw); }
//@ entry=ws_chan prop=C24,C08,C09,C11 pb=0 jobs=4 reach=done bound="2 threads without suspension; values passed from one fiber to another over a buffered and an unbuffered channel"
VF_ENTRY ws_chan(){ vfe_clock_step=50; two<WS>(1,1,CHAN,false,ows,2u); }
//@ entry=sw_fut prop=C23,C13,C14 pb=1 jobs=4 reach=done bound="2 threads without suspension; a future made ready by one fiber, awaited by the other"
VF_ENTRY sw_fut(){ vfe_clock_step=50; two<SW>(1,1,FUT,false,osw); }
//@ entry=ws_fut prop=C24,C13,C14 pb=1 jobs=4 reach=done bound="2 threads without suspension; a future made ready by one fiber, awaited by the other"
VF_ENTRY ws_fut(){ vfe_clock_step=50; two<WS>(1,1,FUT,false,ows,2u); }
//@ entry=sw_join prop=C23,C16 pb=1 jobs=4 reach=done bound="2 threads without suspension; fibers that create and join another one"
VF_ENTRY sw_join(){ vfe_clock_step=50; two<SW>(1,1,JOINS,false,osw); }
//@ entry=ws_join prop=C24,C16 pb=0 jobs=4 reach=done bound="2 threads without suspension; fibers that create and join another one"
VF_ENTRY ws_join(){ vfe_clock_step=50; two<WS>(1,1,JOINS,false,ows,2u); }
// replacing the scheduler of a thread while another one takes its fibers
static void osw1(void* p){ peer<SW>((sarg*)p); }
//@ entry=sw_replace prop=C32,C23 pb=2 jobs=8 reach=done bound="2 threads sharing 2 fibers; one replaces its work-sharing scheduler by round-robin while fibers are ready"
VF_ENTRY sw_replace(){ auto* j=new jobs; j->left=2; for(auto& o:j->on) vf_exempt((void*)&o,4); ghosts(); sarg b{j,1,1,1,false}; int t=vf_thread_spawn(osw1,&b); use_scheduling_algorithm<SW>(false); spawn(j,0,1,0); use_scheduling_algorithm<algo::round_robin>(); wait_all(j); vfe_thread_join(t); fin(j,2); delete j; vf_reach("done"); }
//@ entry=sw_again prop=C32,C23 mt=0 hb=0 reach=done bound="one thread replacing its work-sharing scheduler by a new one while 2 fibers are ready"
VF_ENTRY sw_again(){ auto* j=new jobs; j->left=2; use_scheduling_algorithm<SW>(false); spawn(j,0,2,0); use_scheduling_algorithm<SW>(false); wait_all(j); fin(j,2); delete j; vf_reach("done"); }

// one thread only
//@ entry=ws_single prop=C24 mt=1 pb=0 reach=done bound="work stealing with a single registered thread; 2 fibers, idle with and without suspension"
VF_ENTRY ws_single(){ auto* j=new jobs; j->left=2; ghosts(); vfe_clock_step=50; use_scheduling_algorithm<WS>(1u,vf_choice("suspend",2)!=0); spawn(j,0,1,SLEEPS); spawn(j,1,1,1); wait_all(j); fin(j,2); delete j; vf_reach("done"); }
