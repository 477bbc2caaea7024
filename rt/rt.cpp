// Runtime for symbolic runs: models of the parts of libc/libstdc++ that live in shared libraries.
#include "vf.h"
#include <exception>
#include <stdexcept>
#include <system_error>
#include <new>
#include <string>
#include <typeinfo>
#include <functional>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <future>
#include <ios>
#include <memory>
#include <boost/context/stack_traits.hpp>
#include <list>
#include <unordered_map>
template class std::basic_string<char>;
#define SYM(n) __asm__(n)

extern "C" {
void vf_throw(void* exc) __attribute__((noreturn));
// ---- memory
void* malloc(size_t n) noexcept { return vf_malloc(n,0,16); }
void free(void* p) noexcept { vf_free(p,0); }
void* calloc(size_t a,size_t b) noexcept { void* p=vf_malloc(a*b,0,16); __builtin_memset(p,0,a*b); return p; }
void* realloc(void* p,size_t n) noexcept { void* q=vf_malloc(n,0,16); if(p){ size_t o=vf_usable(p); __builtin_memcpy(q,p,o<n?o:n); vf_free(p,0); } return q; }
int posix_memalign(void** r,size_t al,size_t n) noexcept { *r=vf_malloc(n,0,al); return 0; }
void* aligned_alloc(size_t al,size_t n) noexcept { return vf_malloc(n,0,al); }
void* xmemchr(const void* s,int c,size_t n) noexcept SYM("memchr");
void* xmemchr(const void* s,int c,size_t n) noexcept{ const unsigned char* p=(const unsigned char*)s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return nullptr; }
int memcmp(const void* a,const void* b,size_t n) noexcept { const unsigned char* p=(const unsigned char*)a; const unsigned char* q=(const unsigned char*)b; for(size_t i=0;i<n;i++) if(p[i]!=q[i]) return p[i]<q[i]?-1:1; return 0; }
int bcmp(const void* a,const void* b,size_t n) noexcept { return memcmp(a,b,n); }
size_t strlen(const char* s) noexcept { volatile const char* p=s; size_t n=0; while(p[n]) n++; return n; }
int strcmp(const char* a,const char* b) noexcept { while(*a&&*a==*b){a++;b++;} return (unsigned char)*a-(unsigned char)*b; }
unsigned long strtoul(const char* s,char** e,int base) noexcept { const char* p=s; while(*p==' '||(*p>='\t'&&*p<='\r')) p++; bool neg=false; if(*p=='+'||*p=='-') neg=*p++=='-'; const char* b=p; unsigned long v=0; while(*p>='0'&&*p<='9'){ v=v*10+(unsigned long)(*p-'0'); p++; } if(e) *e=(char*)(p==b?s:p); (void)base; return neg?-v:v; }
long strtol(const char* s,char** e,int base) noexcept { return (long)strtoul(s,e,base); }
unsigned long long strtoull(const char* s,char** e,int base) noexcept { return strtoul(s,e,base); }
void abort() noexcept { vf_terminate("abort() called"); __builtin_unreachable(); }
void exit(int) noexcept { vf_terminate("exit() called"); __builtin_unreachable(); }
void __assert_fail(const char* e,const char*,unsigned,const char*) noexcept { vf_terminate(e); __builtin_unreachable(); }
void x__cxa_pure_virtual() SYM("__cxa_pure_virtual");
void x__cxa_pure_virtual(){ vf_terminate("pure virtual call"); }
int* __errno_location() noexcept { static thread_local int e; return &e; }
int atexit(void(*)()) noexcept { return 0; }
int __cxa_atexit(void(*)(void*),void*,void*) noexcept { return 0; }
void* __dso_handle=nullptr;
void* mmap(void*,size_t n,int,int,int,long) noexcept { return vf_malloc(n,3,4096); }
int munmap(void* p,size_t) noexcept { vf_free(p,3); return 0; }
int mprotect(void* p,size_t n,int prot) noexcept { vf_protect(p,n,prot!=0); return 0; }
long sysconf(int) noexcept { return 4096; }
// ---- static guards
int x__cxa_guard_acquire(uint64_t* g) SYM("__cxa_guard_acquire");
int x__cxa_guard_acquire(uint64_t* g){ volatile char* b=(volatile char*)g; while(!b[0]&&b[1]) vf_yield(); if(b[0]){ vf_hb_acq(g); return 0; } b[1]=1; return 1; }
void x__cxa_guard_release(uint64_t* g) SYM("__cxa_guard_release");
void x__cxa_guard_release(uint64_t* g){ volatile char* b=(volatile char*)g; vf_hb_rel(g); b[1]=0; b[0]=1; }
void x__cxa_guard_abort(uint64_t* g) SYM("__cxa_guard_abort");
void x__cxa_guard_abort(uint64_t* g){ volatile char* b=(volatile char*)g; b[1]=0; }
// ---- thread exit
struct tdtor { void(*f)(void*); void* o; tdtor* next; };
static thread_local tdtor* tdtors;
int x__cxa_thread_atexit(void(*f)(void*),void* o,void*) noexcept SYM("__cxa_thread_atexit");
int x__cxa_thread_atexit(void(*f)(void*),void* o,void*) noexcept{ tdtor* t=(tdtor*)vf_malloc(sizeof(tdtor),5,16); t->f=f; t->o=o; t->next=tdtors; tdtors=t; return 0; }
static void run_tdtors(){ while(tdtors){ tdtor* t=tdtors; tdtors=t->next; t->f(t->o); vf_free(t,5); } }
void __vf_thread_main(void(*f)(void*),void* a){ f(a); run_tdtors(); }
__attribute__((weak)) void __vf_after();
uint64_t vf_live_base[4];
void __vf_main(void(*f)(),void(**ctors)()){ while(*ctors) (*ctors++)(); for(unsigned k=0;k<4;k++) vf_live_base[k]=vf_live(k); f(); run_tdtors(); if(__vf_after) __vf_after(); }
// ---- exceptions. header of 64 bytes before the object
struct hdr { const std::type_info* ti; void(*dtor)(void*); void* adjusted; long handlers; long refs; hdr* next; hdr* primary; void* obj; };
static_assert(sizeof(hdr)==64,"");
struct ehg { hdr* caught; long uncaught; }; static thread_local ehg eh;
void* x__cxa_allocate_exception(size_t n) noexcept SYM("__cxa_allocate_exception");
void* x__cxa_allocate_exception(size_t n) noexcept{ hdr* h=(hdr*)vf_malloc(sizeof(hdr)+n,4,16); __builtin_memset(h,0,sizeof(hdr)); return h+1; }
void x__cxa_free_exception(void* p) noexcept SYM("__cxa_free_exception");
void x__cxa_free_exception(void* p) noexcept{ vf_free((hdr*)p-1,4); }
void* x__cxa_init_primary_exception(void* o,std::type_info* ti,void(*d)(void*)) noexcept SYM("__cxa_init_primary_exception");
void* x__cxa_init_primary_exception(void* o,std::type_info* ti,void(*d)(void*)) noexcept{ hdr* h=(hdr*)o-1; h->ti=ti; h->dtor=d; h->obj=o; h->adjusted=o; h->primary=h; return h; }
void x__cxa_throw(void* o,std::type_info* ti,void(*d)(void*)) SYM("__cxa_throw");
void x__cxa_throw(void* o,std::type_info* ti,void(*d)(void*)){ x__cxa_init_primary_exception(o,ti,d); hdr* h=(hdr*)o-1; h->refs=1; eh.uncaught++; vf_throw(h+1); }
static void unref(hdr* p){ if(--p->refs==0){ if(p->dtor) p->dtor(p->obj); vf_free(p,4); } }
void* x__cxa_begin_catch(void* e) noexcept SYM("__cxa_begin_catch");
void* x__cxa_begin_catch(void* e) noexcept{ hdr* h=(hdr*)e-1; if(h->handlers<0) h->handlers=-h->handlers; h->handlers++; if(eh.caught!=h){ h->next=eh.caught; eh.caught=h; } eh.uncaught--; return h->adjusted; }
void* x__cxa_get_exception_ptr(void* e) noexcept SYM("__cxa_get_exception_ptr");
void* x__cxa_get_exception_ptr(void* e) noexcept{ return ((hdr*)e-1)->adjusted; }
static void drop(hdr* h){ if(h->primary!=h){ hdr* p=h->primary; vf_free(h,4); unref(p); } else unref(h); }
void x__cxa_end_catch() SYM("__cxa_end_catch");
void x__cxa_end_catch(){ hdr* h=eh.caught; if(!h) return; if(h->handlers<0){ if(++h->handlers==0) eh.caught=h->next; } else if(--h->handlers==0){ eh.caught=h->next; drop(h); } }
void x__cxa_rethrow() SYM("__cxa_rethrow");
void x__cxa_rethrow(){ hdr* h=eh.caught; if(!h) std::terminate(); h->handlers=-h->handlers; eh.uncaught++; vf_throw(h+1); }
void* x__cxa_current_exception_type() noexcept SYM("__cxa_current_exception_type");
void* x__cxa_current_exception_type() noexcept{ return eh.caught? (void*)eh.caught->ti:nullptr; }
void __cxa_call_unexpected(void*) { std::terminate(); }
int __gxx_personality_v0(...){ return 0; }
void x__cxa_bad_cast() SYM("__cxa_bad_cast");
void x__cxa_bad_cast(){ throw std::bad_cast(); }
void x__cxa_throw_bad_array_new_length() SYM("__cxa_throw_bad_array_new_length");
void x__cxa_throw_bad_array_new_length(){ throw std::bad_array_new_length(); }
void* x__dynamic_cast(const void* sp,const std::type_info* sd,const std::type_info* dd,ptrdiff_t hint) SYM("__dynamic_cast");
void* x__dynamic_cast(const void* sp,const std::type_info* sd,const std::type_info* dd,ptrdiff_t hint){ // single inheritance chains and hints only
    const void* const* vt=*(const void* const* const*)sp; ptrdiff_t off=((const ptrdiff_t*)vt)[-2]; const std::type_info* dyn=(const std::type_info*)vt[-1]; const char* whole=(const char*)sp+off;
    const std::type_info* t=dyn; while(t){ if(*t==*dd) return (void*)whole; // most common: base at offset 0 chain
        const void* const* w=(const void* const*)t; (void)hint; 
        extern const void* _ZTVN10__cxxabiv120__si_class_type_infoE[]; if(w[0]==(const void*)(_ZTVN10__cxxabiv120__si_class_type_infoE+2)) t=(const std::type_info*)w[2]; else t=nullptr; }
    (void)sd; return nullptr; }
}
void* operator new(size_t n){ return vf_malloc(n,1,16); }
void* operator new[](size_t n){ return vf_malloc(n,2,16); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return vf_malloc(n,1,16); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return vf_malloc(n,2,16); }
void* operator new(size_t n,std::align_val_t a){ return vf_malloc(n,1,(size_t)a); }
void* operator new[](size_t n,std::align_val_t a){ return vf_malloc(n,2,(size_t)a); }
void operator delete(void* p) noexcept { vf_free(p,1); } void operator delete[](void* p) noexcept { vf_free(p,2); }
void operator delete(void* p,size_t) noexcept { vf_free(p,1); } void operator delete[](void* p,size_t) noexcept { vf_free(p,2); }
void operator delete(void* p,std::align_val_t) noexcept { vf_free(p,1); } void operator delete[](void* p,std::align_val_t) noexcept { vf_free(p,2); }
void operator delete(void* p,size_t,std::align_val_t) noexcept { vf_free(p,1); } void operator delete[](void* p,size_t,std::align_val_t) noexcept { vf_free(p,2); }
void operator delete(void* p,const std::nothrow_t&) noexcept { vf_free(p,1); }

namespace std {
void terminate() noexcept { vf_terminate("std::terminate called"); __builtin_unreachable(); }
int uncaught_exceptions() noexcept { return (int)eh.uncaught; }
bool uncaught_exception() noexcept { return eh.uncaught>0; }
type_info::~type_info() {} 
#if 0
#endif
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nothrow_t const nothrow{};
// messages are kept as leaked-free copies
static char* dup(const char* s){ size_t n=strlen(s)+1; char* p=(char*)vf_malloc(n,5,16); __builtin_memcpy(p,s,n); return p; }
struct vf_cow { static void set(__cow_string& c,const char* s){ char* p=dup(s); __builtin_memcpy((void*)&c,&p,8); } static const char* get(const __cow_string& c){ const char* p; memcpy(&p,(const void*)&c,8); return p; } static void fre(__cow_string& c){ char* p; memcpy(&p,(void*)&c,8); vf_free(p,5); } };
__cow_string::__cow_string(){ vf_cow::set(*this,""); }
__cow_string::__cow_string(const std::string& s){ vf_cow::set(*this,s.c_str()); }
__cow_string::__cow_string(const char* s,size_t){ vf_cow::set(*this,s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { vf_cow::set(*this,vf_cow::get(o)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* n=vf_cow::get(o); char* d=dup(n); vf_cow::fre(*this); __builtin_memcpy((void*)this,&d,8); return *this; }
__cow_string::~__cow_string(){ vf_cow::fre(*this); }
runtime_error::runtime_error(const string& s):_M_msg(s){} runtime_error::runtime_error(const char* s):_M_msg(s,0){} runtime_error::runtime_error(const runtime_error& o) noexcept:exception(o),_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return vf_cow::get(_M_msg); }
logic_error::logic_error(const string& s):_M_msg(s){} logic_error::logic_error(const char* s):_M_msg(s,0){} logic_error::logic_error(const logic_error& o) noexcept:exception(o),_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return vf_cow::get(_M_msg); }
logic_error::logic_error(logic_error&& o) noexcept:_M_msg(o._M_msg){} runtime_error::runtime_error(runtime_error&& o) noexcept:_M_msg(o._M_msg){}
invalid_argument::invalid_argument(const string& s):logic_error(s){} invalid_argument::invalid_argument(const char* s):logic_error(s){} invalid_argument::~invalid_argument() noexcept {}
out_of_range::out_of_range(const string& s):logic_error(s){} out_of_range::out_of_range(const char* s):logic_error(s){} out_of_range::~out_of_range() noexcept {}
length_error::length_error(const string& s):logic_error(s){} length_error::length_error(const char* s):logic_error(s){} length_error::~length_error() noexcept {}
domain_error::~domain_error() noexcept {} range_error::~range_error() noexcept {} overflow_error::~overflow_error() noexcept {} underflow_error::~underflow_error() noexcept {}
overflow_error::overflow_error(const char* s):runtime_error(s){} 
void __throw_length_error(const char* s){ throw length_error(s); } void __throw_logic_error(const char* s){ throw logic_error(s); } void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); } void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_function_call(){ throw bad_function_call(); } void __throw_invalid_argument(const char* s){ throw invalid_argument(s); } void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_system_error(int e){ throw system_error(error_code(e,generic_category())); }
// error categories
namespace _V2 { error_category::~error_category() noexcept {} 
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c,*this); }
bool error_category::equivalent(int c,const error_condition& e) const noexcept { return default_error_condition(c)==e; }
bool error_category::equivalent(const error_code& e,int c) const noexcept { return *this==e.category()&&e.value()==c; }
struct vf_gen final : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "e"; } __cow_string _M_message(int) const override { return __cow_string(); } };
struct vf_sys final : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "e"; } __cow_string _M_message(int) const override { return __cow_string(); } error_condition default_error_condition(int c) const noexcept override { return error_condition(c,generic_category()); } };
__cow_string error_category::_M_message(int) const { return __cow_string(); }
static vf_gen gen_; static vf_sys sys_; const error_category& generic_category() noexcept { return gen_; } const error_category& system_category() noexcept { return sys_; } }
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
struct vf_fut final : error_category { const char* name() const noexcept override { return "future"; } string message(int) const override { return "f"; } __cow_string _M_message(int) const override { return __cow_string(); } };
static vf_fut fut_; const error_category& future_category() noexcept { return fut_; }
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return logic_error::what(); }
// exception_ptr
namespace __exception_ptr {
exception_ptr::exception_ptr(void* e) noexcept:_M_exception_object(e){ _M_addref(); }
#if 1
void exception_ptr::_M_addref() noexcept { if(_M_exception_object) ((hdr*)_M_exception_object-1)->refs++; }
void exception_ptr::_M_release() noexcept { if(_M_exception_object){ hdr* h=(hdr*)_M_exception_object-1; _M_exception_object=nullptr; unref(h); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return ((hdr*)_M_exception_object-1)->ti; }
#endif
}
exception_ptr current_exception() noexcept { exception_ptr r; hdr* h=eh.caught; if(h){ hdr* p=h->primary; void* o=p->obj; p->refs++; __builtin_memcpy((void*)&r,&o,8); } return r; }
void rethrow_exception(exception_ptr ep){ void* o; __builtin_memcpy(&o,&ep,8); hdr* p=(hdr*)o-1; hdr* d=(hdr*)vf_malloc(sizeof(hdr),4,16); __builtin_memset(d,0,sizeof(hdr)); d->ti=p->ti; d->obj=p->obj; d->adjusted=p->obj; d->primary=p; p->refs++; { void* z=nullptr; memcpy((void*)&ep,&z,8); p->refs--; } eh.uncaught++; vf_throw(d+1); }
// hashing, containers
size_t _Hash_bytes(const void* p,size_t n,size_t seed){ size_t h=seed; const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;i++) h=h*31+c[i]; return h; }
struct _Rb_tree_node_base;
}
#include <bits/stl_tree.h>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced but correct search trees
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
    x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_black;
    if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } h._M_color=_S_red; }
static void transplant(_Rb_tree_node_base* u,_Rb_tree_node_base* v,_Rb_tree_node_base& h){ if(h._M_parent==u) h._M_parent=v; else if(u->_M_parent->_M_left==u) u->_M_parent->_M_left=v; else u->_M_parent->_M_right=v; if(v) v->_M_parent=u->_M_parent; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z,_Rb_tree_node_base& h) throw() {
    if(h._M_left==z){ if(z->_M_right){ auto y=z->_M_right; while(y->_M_left) y=y->_M_left; h._M_left=y; } else h._M_left=z->_M_parent; }
    if(h._M_right==z){ if(z->_M_left){ auto y=z->_M_left; while(y->_M_right) y=y->_M_right; h._M_right=y; } else h._M_right=z->_M_parent; }
    if(!z->_M_left) transplant(z,z->_M_right,h); else if(!z->_M_right) transplant(z,z->_M_left,h);
    else { auto y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ transplant(y,y->_M_right,h); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } transplant(z,y,h); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
    return z; }
namespace __detail { 
}
ios_base::Init::Init(){} ios_base::Init::~Init(){}
}
// hashtable growth policy (prime sizes are irrelevant: any size works)
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r=n<13?13:(n|1); _M_next_resize=r; return r; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt,size_t elt,size_t ins) const { if(elt+ins>_M_next_resize||bkt==1){ return {true,_M_next_bkt(elt+ins+1>bkt*2?elt+ins+1:(bkt==1?13:bkt*2))}; } return {false,0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f,_List_node_base* const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { auto t=this; do { auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept { bool ex=x._M_next==&x, ey=y._M_next==&y; auto fix=[](_List_node_base& d,_List_node_base n,bool e){ if(e) d._M_next=d._M_prev=&d; else { d=n; d._M_next->_M_prev=d._M_prev->_M_next=&d; } }; _List_node_base a=x,b=y; fix(x,b,ey); fix(y,a,ex); }
}}
// ---- Boost.Context: stack sizes
namespace boost { namespace context {
bool stack_traits::is_unbounded() noexcept { return true; }
std::size_t stack_traits::page_size() noexcept { return 4096; }
std::size_t stack_traits::default_size() noexcept { return 8*1024; }
std::size_t stack_traits::minimum_size() noexcept { return 4*1024; }
std::size_t stack_traits::maximum_size() noexcept { return 1<<20; }
}}
