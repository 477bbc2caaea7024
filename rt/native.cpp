// Native replay: runs the instrumented program (compiled from the same IR) against the real libstdc++, Boost.Context and
// pthreads, following the inputs and thread switches recorded by the symbolic run, and compares what is observed.
// exit codes: 0 completed as recorded, 1 violation reproduced, 2 diverged from the record, 3 usage
#include "vf.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <exception>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <malloc.h>
#include <dlfcn.h>
#include <new>
struct Sym { std::string n; uint64_t v; }; struct Sw { unsigned seq, tid; }; struct Lg { std::string t; uint64_t v; };
static std::vector<Sym> syms; static std::vector<Sw> sws; static std::vector<Lg> lgs; static size_t is=0, iw=0, il=0;
static std::string vkind, vmsg; static bool expectTerm=false; static long points=0;
#define NOREC __attribute__((noinline))
[[noreturn]] static void fin(int rc,const char* what,const char* m){ fprintf(stdout,"%s: %s\n",what,m); fflush(stdout); _exit(rc); }
[[noreturn]] static void diverge(const std::string& m){ fin(2,"DIVERGED",m.c_str()); }
[[noreturn]] static void repro(const char* kind,const char* m){
    if(vkind.empty()) fin(2,"DIVERGED",(std::string("unexpected violation: ")+kind+": "+m).c_str());
    fin(1,(std::string("REPRODUCED ")+kind).c_str(),m); }
// ---- threads: only the holder of the token runs
struct T { pthread_t p; pthread_cond_t cv=PTHREAD_COND_INITIALIZER; int st=0; const volatile void* baddr=nullptr; bool timed=false; int wres=0; void(*f)(void*)=nullptr; void* a=nullptr; char joinaddr[16]; };
static T* th[16]; static int nth=1; static int cur=0; static unsigned seq=0; static pthread_mutex_t L=PTHREAD_MUTEX_INITIALIZER;
static __thread int me=0;
static void pass(int t){ // give the token to t and wait for it
    pthread_mutex_lock(&L); cur=t; pthread_cond_signal(&th[t]->cv); int my=me; while(cur!=my) pthread_cond_wait(&th[my]->cv,&L); pthread_mutex_unlock(&L); }
static void passExit(int t){ pthread_mutex_lock(&L); cur=t; pthread_cond_signal(&th[t]->cv); pthread_mutex_unlock(&L); }
static int nextSwitch(bool must){
    if(iw<sws.size() && sws[iw].seq==seq){ Sw w=sws[iw++]; int t=w.tid&0x7f; bool to=w.tid&0x80; if(t>=nth) diverge("switch to an unknown thread"); T* q=th[t];
        if(q->st==2) diverge("switch to a finished thread"); if(q->st==1){ if(!to||!q->timed) diverge("switch to a blocked thread"); q->st=0; q->wres=1; } return t; }
    if(iw<sws.size() && sws[iw].seq<seq) diverge("schedule position passed");
    if(must){ if(iw>=sws.size() && !vkind.empty()){ bool run=false; for(int t=0;t<nth;t++) if(t!=me&&th[t]->st==0) run=true; if(!run) repro("deadlock","no thread can run"); fin(2,"END","trace exhausted"); } diverge("blocked where the record continues"); }
    return -1; }
static void maybe(){ if(nth<2) return; int t=nextSwitch(false); if(t>=0&&t!=me) pass(t); }
struct TD { void(*f)(void*); void* o; TD* n; }; static __thread TD* tds;
static void run_td(){ while(tds){ TD* t=tds; tds=t->n; t->f(t->o); } }
static long livec[8];
extern "C" {
void* __real_mmap(void*,size_t,int,int,int,long); void* __real_malloc(size_t);
uint64_t vf_live_base[4];
int __wrap___cxa_thread_atexit(void(*f)(void*),void* o,void*){ TD* t=(TD*)__real_mmap(0,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); t->f=f; t->o=o; t->n=tds; tds=t; return 0; }
uint64_t vf_sym(const char* n,unsigned w) noexcept { if(is>=syms.size()){ if(!vkind.empty()) fin(2,"END","inputs exhausted"); diverge(std::string("extra input ")+n); } if(syms[is].n!=n) diverge(std::string("input ")+n+" where "+syms[is].n+" was recorded"); (void)w; return syms[is++].v; }
unsigned vf_choice(const char* n,unsigned k) noexcept { unsigned v=(unsigned)vf_sym(n,8); if(v>=k) diverge(std::string("choice ")+n+" out of range"); return v; }
void vf_hint(uint64_t,uint64_t) noexcept {}
void vf_assume(bool b) noexcept { if(!b) diverge("assumption false"); }
void vf_check(bool b,const char* w) noexcept { if(!b) repro("check",w); }
void vf_fail(const char* w) noexcept { repro("check",w); }
void vf_reach(const char*) noexcept {}
void vf_log(const char* t,uint64_t v) noexcept { if(getenv("VF_LOG")) fprintf(stderr,"%s=%ld\n",t,(long)v); if(il>=lgs.size()){ if(!vkind.empty()) fin(2,"END","log exhausted"); diverge(std::string("extra event ")+t); } if(lgs[il].t!=t||lgs[il].v!=v) diverge(std::string("event ")+t+"="+std::to_string(v)+" where "+lgs[il].t+"="+std::to_string(lgs[il].v)+" was recorded"); il++; }
uint64_t vf_concrete(uint64_t v) noexcept { return v; }
void vf_end() noexcept { fin(vkind.empty()?2:2,"END","path discarded"); }
void vf_bound(const char* w) noexcept { fin(2,"BOUND",w); }
void vf_expect_terminate(bool b) noexcept { expectTerm=b; }
void vf_terminate(const char* w) noexcept { if(expectTerm) fin(0,"OK","terminated as expected"); repro("terminate",w); }
int vf_is_engine() noexcept { return 0; }
bool vf_is_sym(uint64_t) noexcept { return false; }
uint64_t vf_live(unsigned k) noexcept { return livec[k]; }
bool vf_heap_ok(const void*) noexcept { return true; }
int vf_thread_self() noexcept { return me; }
static void* tmain(void* p){ T* t=(T*)p; int id=-1; for(int i=0;i<nth;i++) if(th[i]==t) id=i; me=id; pthread_mutex_lock(&L); while(cur!=me) pthread_cond_wait(&t->cv,&L); pthread_mutex_unlock(&L);
    t->f(t->a); run_td(); t->st=2; seq++; for(int i=0;i<nth;i++) if(th[i]->st==1&&th[i]->baddr==t->joinaddr){ th[i]->st=0; th[i]->wres=0; }
    int n=nextSwitch(true); passExit(n); return nullptr; }
int vf_thread_spawn(void(*f)(void*),void* a) noexcept { T* t=new(__real_malloc(sizeof(T))) T; t->f=f; t->a=a; th[nth]=t; int id=nth++; pthread_create(&t->p,nullptr,tmain,t); return id; }
bool vf_thread_done(int t) noexcept { return th[t]->st==2; }
void* vf_join_addr(int t) noexcept { return th[t]->joinaddr; }
void vf_point(const volatile void*,int) noexcept { if(nth>1){ seq++; maybe(); } if(++points>3000000) repro("no-progress","step bound"); }
void vf_yield() noexcept { if(nth>1){ seq++; maybe(); } if(++points>3000000) repro("no-progress","step bound"); }
int vf_block(const volatile void* a,int timed) noexcept { seq++; T* t=th[me]; t->st=1; t->baddr=a; t->timed=timed; t->wres=0;
    if(nth==1&&!timed) repro("deadlock","the only thread is blocked");
    int n=nextSwitch(true); if(n!=me) pass(n); return t->wres; }
int vf_wake(const volatile void* a,unsigned n) noexcept { int bl[16],k=0; for(int t=0;t<nth;t++) if(th[t]->st==1&&th[t]->baddr==a) bl[k++]=t;
    if((int)n>=k){ for(int i=0;i<k;i++){ th[bl[i]]->st=0; th[bl[i]]->wres=0; } return k; }
    unsigned v=(unsigned)vf_sym("wakeone",8); if((int)v>=k) diverge("wakeone"); th[bl[v]]->st=0; th[bl[v]]->wres=0; return 1; }
void vf_hb_acq(const volatile void*) noexcept {} void vf_hb_rel(const volatile void*) noexcept {} void vf_exempt(const volatile void*,size_t) noexcept {}
// memory accounting for vf_live
void* __real_malloc(size_t); void __real_free(void*); void* __real_mmap(void*,size_t,int,int,int,long); int __real_munmap(void*,size_t);
void* __wrap_malloc(size_t n){ void* p=__real_malloc(n); if(p){ livec[0]++; } return p; }
void __wrap_free(void* p){ if(p) livec[0]--; __real_free(p); }
void* __wrap_mmap(void* a,size_t n,int b,int c,int d,long e){ livec[3]++; return __real_mmap(a,n,b,c,d,e); }
int __wrap_munmap(void* a,size_t n){ livec[3]--; return __real_munmap(a,n); }
void* vf_malloc(size_t n,unsigned,size_t) noexcept { return __real_malloc(n); }
void vf_free(void* p,unsigned) noexcept { __real_free(p); }
size_t vf_usable(void* p) noexcept { return malloc_usable_size(p); }
void vf_protect(void*,size_t,bool) noexcept {}
void __vf_after() __attribute__((weak));
}
#ifndef __SANITIZE_ADDRESS__
#if !__has_feature(address_sanitizer)
static void* nw(size_t n,int k){ void* p=__real_malloc(n?n:1); if(!p) throw std::bad_alloc(); livec[k]++; return p; }
void* operator new(size_t n){ return nw(n,1); } void* operator new[](size_t n){ return nw(n,2); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { livec[1]++; return __real_malloc(n); } void* operator new[](size_t n,const std::nothrow_t&) noexcept { livec[2]++; return __real_malloc(n); }
void* operator new(size_t n,std::align_val_t a){ livec[1]++; return aligned_alloc((size_t)a,(n+(size_t)a-1)/(size_t)a*(size_t)a); }
void operator delete(void* p) noexcept { if(p){ livec[1]--; __real_free(p);} } void operator delete[](void* p) noexcept { if(p){ livec[2]--; __real_free(p);} }
void operator delete(void* p,size_t) noexcept { operator delete(p); } void operator delete[](void* p,size_t) noexcept { operator delete[](p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p,std::align_val_t) noexcept { operator delete(p); } void operator delete(void* p,size_t,std::align_val_t) noexcept { operator delete(p); }
#endif
#endif
static void onTerm(){ if(expectTerm) fin(0,"OK","terminated as expected"); repro("terminate","std::terminate"); }
static void onSig(int s){ if(expectTerm&&s==SIGABRT) fin(0,"OK","terminated as expected"); if(s==SIGALRM) repro("no-progress","time limit"); repro(s==SIGABRT?"abort":"crash",strsignal(s)); }
int main(int argc,char** argv){
    if(argc<3) return 3; void(*entry)()=(void(*)())dlsym(RTLD_DEFAULT,argv[2]); if(!entry){ puts("no such entry"); return 3; } FILE* f=fopen(argv[1],"r"); if(!f) return 3; char line[4096];
    while(fgets(line,sizeof line,f)){ size_t n=strlen(line); while(n&&line[n-1]=='\n') line[--n]=0; char* q=line+2; char* sp=strrchr(q,'\t');
        if(line[0]=='S'&&sp){ *sp=0; syms.push_back({q,strtoull(sp+1,0,10)}); } else if(line[0]=='L'&&sp){ *sp=0; lgs.push_back({q,strtoull(sp+1,0,10)}); }
        else if(line[0]=='W'&&sp){ *sp=0; sws.push_back({(unsigned)atoi(q),(unsigned)atoi(sp+1)}); } else if(line[0]=='V'){ char* t=strchr(q,'\t'); if(t){ *t=0; vkind=q; vmsg=t+1; } } }
    fclose(f); th[0]=new T; std::set_terminate(onTerm); static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGALRM,&sa,0); alarm(20);
    for(int i=0;i<8;i++) livec[i]=0;
    entry(); run_td(); if(__vf_after) __vf_after();
    if(!vkind.empty()) fin(2,"COMPLETED","the recorded violation did not occur");
    if(is!=syms.size()||iw!=sws.size()||il!=lgs.size()) diverge("run ended before the record did");
    fin(0,"OK","completed as recorded");
}
