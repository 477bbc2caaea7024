// Stand-in for the CUDA runtime: only what boost/fiber/cuda/waitfor.hpp uses.  The harness implements vf_stream_add_callback.
#pragma once
typedef struct CUstream_st* cudaStream_t;
enum cudaError_t { cudaSuccess=0, cudaErrorMemoryAllocation=2, cudaErrorUnknown=30 };
typedef void (*cudaStreamCallback_t)(cudaStream_t,cudaError_t,void*);
int vf_stream_add_callback(void* st,void(*cb)(),void* data);
inline cudaError_t cudaStreamAddCallback(cudaStream_t s,cudaStreamCallback_t cb,void* d,unsigned){ return (cudaError_t)vf_stream_add_callback(s,(void(*)())cb,d); }
