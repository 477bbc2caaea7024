// C38: waiting for GPU streams.  The runtime is a stand-in (shim/cuda.h, shim/hip/hip_runtime.h): a callback may be refused, and accepted callbacks are
// called once each, by a thread of the runtime, at any moment, for the streams in any order, with any status.
#include "h.hpp"
#ifdef USE_HIP
#include <boost/fiber/hip/waitfor.hpp>
typedef hipStream_t stream_t; typedef hipError_t error_t_;
#else
#include <boost/fiber/cuda/waitfor.hpp>
typedef cudaStream_t stream_t; typedef cudaError_t error_t_;
#endif
using namespace boost::fibers;
namespace this_fiber = boost::this_fiber;
//@file prop=C38 mt=1 hb=1
typedef void (*cb_t)(stream_t,error_t_,void*);
struct reg { std::atomic<int> st; stream_t s; cb_t cb; void* d; unsigned status; int called; };
static reg R[4]; static std::atomic<unsigned> nr; static unsigned limit, refuse; static unsigned expected; static std::atomic<bool> other_ran; static bool need_other; static unsigned S[4];
static unsigned idx(stream_t s){ return (unsigned)(uintptr_t)s-1; }
int vf_stream_add_callback(void* st,void(*cb)(),void* d){ unsigned i=idx((stream_t)st); vf_check(i<4&&R[i].st==0,"a callback was added twice for a stream"); S[i]=vf_u32("status");
    if((refuse>>i)&1){ vf_assume(S[i]!=0); R[i].st=3; return (int)S[i]; } // the error to be reported for this stream
    R[i].s=(stream_t)st; R[i].cb=(cb_t)cb; R[i].d=d; R[i].st=1; return 0; }
// the runtime's thread: every accepted callback once, in any order
static void runtime(void*){ unsigned left=expected; unsigned done=0;
    while(need_other&&!other_ran) vf_yield();
    while(left){ unsigned m[4],n=0; for(unsigned i=0;i<limit;i++) if(!((done>>i)&1)&&!((refuse>>i)&1)) m[n++]=i; unsigned i=m[n>1?vf_choice("stream",n):0]; 
        while(R[i].st==0) vf_yield(); R[i].st=2; R[i].called++; done|=1u<<i; left--; R[i].cb(R[i].s,(error_t_)S[i],R[i].d); } }
static stream_t str(unsigned i){ return (stream_t)(uintptr_t)(i+1); }
static void start(unsigned n,bool other){ limit=n; need_other=other; refuse=0; expected=0; for(unsigned i=0;i<n;i++){ if(vf_bool("refused")) refuse|=1u<<i; else expected++; } vf_exempt(S,sizeof S); }
static void one(bool other){ start(1,other&&false); int t; need_other=other&&expected; t=vf_thread_spawn(runtime,nullptr); bool woke=false; unsigned rets=0;
    { fiber g; if(other) g=fiber([&]{ other_ran=true; this_fiber::yield(); }); auto r=cuda::waitfor_all(str(0)); rets++; vf_check(std::get<0>(r)==str(0),"the result is for another stream"); vf_check((unsigned)std::get<1>(r)==S[0],"the status of the stream is wrong"); if(!refuse) vf_check(R[0].st==2,"the wait ended before the work had completed"); if(g.joinable()) g.join(); }
    vfe_thread_join(t); vf_reach(refuse?"refused":"completed"); }
//@ entry=mt_gpu_one pb=3 jobs=4 reach=refused,completed bound="1 stream, completed by a thread of the runtime at any moment, any status; or refused"
VF_ENTRY mt_gpu_one(){ one(false); }
//@ entry=mt_gpu_other pb=2 jobs=4 reach=refused,completed bound="1 stream that completes only after another fiber of the waiting thread has run"
VF_ENTRY mt_gpu_other(){ one(true); }
template<unsigned N> static void many(){ start(N,false); int t=vf_thread_spawn(runtime,nullptr); auto r= N==2?cuda::waitfor_all(str(0),str(1)):cuda::waitfor_all(str(0),str(1),str(2)); vf_check(r.size()==N,"there is not one result per stream"); unsigned seen=0; for(auto& x:r){ unsigned i=idx(std::get<0>(x)); vf_check(i<N&&!((seen>>i)&1),"there is not one result per stream"); seen|=1u<<i; vf_check((unsigned)std::get<1>(x)==S[i],"the status of a stream is wrong"); if(!((refuse>>i)&1)) vf_check(R[i].st==2,"the wait ended before all of the work had completed"); } vfe_thread_join(t); vf_reach(refuse?"refused":"completed"); }
//@ entry=mt_gpu_two pb=2 jobs=4 reach=refused,completed bound="2 streams, completing in any order at any moment, any status; or refused"
VF_ENTRY mt_gpu_two(){ many<2>(); }
//@ entry=mt_gpu_three pb=1 jobs=4 reach=refused,completed bound="3 streams, completing in any order, any status; or refused"
VF_ENTRY mt_gpu_three(){ many<3>(); }
//@ entry=mt_hip_one harness=gpu pb=3 jobs=4 defs="-DUSE_HIP" reach=refused,completed bound="1 HIP stream"
VF_ENTRY mt_hip_one(){ one(false); }
//@ entry=mt_hip_other pb=2 jobs=4 defs="-DUSE_HIP" reach=refused,completed bound="1 HIP stream that completes only after another fiber of the waiting thread has run"
VF_ENTRY mt_hip_other(){ one(true); }
//@ entry=mt_hip_two pb=2 jobs=4 defs="-DUSE_HIP" reach=refused,completed bound="2 HIP streams, completing in any order at any moment, any status; or refused"
VF_ENTRY mt_hip_two(){ many<2>(); }
