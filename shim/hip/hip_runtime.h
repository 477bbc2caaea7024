// Stand-in for the HIP runtime: only what boost/fiber/hip/waitfor.hpp uses.  The harness implements vf_stream_add_callback.
#pragma once
typedef struct ihipStream_t* hipStream_t;
enum hipError_t { hipSuccess=0, hipErrorOutOfMemory=2, hipErrorUnknown=30 };
typedef void (*hipStreamCallback_t)(hipStream_t,hipError_t,void*);
int vf_stream_add_callback(void* st,void(*cb)(),void* data);
inline hipError_t hipStreamAddCallback(hipStream_t s,hipStreamCallback_t cb,void* d,unsigned){ return (hipError_t)vf_stream_add_callback(s,(void(*)())cb,d); }
