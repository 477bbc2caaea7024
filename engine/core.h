// fsym: program representation, memory and execution states
#pragma once
#include "expr.h"
#include <map>
#include <set>
#include <unordered_set>
#include <memory>

// ---------------------------------------------------------------- program
enum Op : u8 { O_NOP, O_BIN, O_CMP, O_TRUNC, O_ZEXT, O_SEXT, O_SELECT, O_MOVE, O_LOAD, O_STORE, O_GEPIDX, O_ALLOCA, O_BR, O_CBR, O_SWITCH,
    O_CALL, O_RET, O_UNREACHABLE, O_CMPXCHG, O_RMW, O_FENCE, O_MEMCPY, O_MEMSET, O_OVF, O_BITOP, O_MINMAX, O_LPAD, O_RESUME, O_TLS, O_TYPEID, O_PAUSE,
    O_FBIN, O_FCMP, O_FCAST, O_TRAP, O_UNSUP };
struct Inst { u8 op; u8 w; u8 w2; u8 fl; i32 d,a,b,c; u64 imm; u32 aux, naux; u32 dbg; };
struct Edge { u32 pc; std::vector<std::pair<i32,i32>> mv; bool overlap=false; };
struct DbgLoc { u32 file, line, func; i32 parent; };
struct Func {
    std::string name; u32 id; u64 addr; bool defined=false, compiled=false; int intrin=-1; void* llvm=nullptr;
    std::vector<Inst> code; std::vector<u8> cov; std::vector<Val> consts; std::vector<i32> aux; std::vector<Edge> edges;
    u32 nslots=0, nargs=0; bool fromRt=false, noRace=false; u64 executed=0;
};
struct Program {
    std::vector<Func*> funcs; std::unordered_map<std::string,Func*> byName; std::unordered_map<u64,Func*> byAddr;
    std::vector<std::string> files, fnames; std::vector<DbgLoc> dbg;
    std::map<std::string,u64> globals; std::map<u64,std::pair<u64,std::string>> globByAddr;
    std::vector<u64> ctors; // function addresses
    u64 tlsSize=0; std::vector<u8> tlsImage; std::vector<u8> tlsInit;
    u64 vtSi=0, vtVmi=0, vtCls=0;
    struct GInit { u64 addr; std::vector<u8> data; bool ro; };
    std::vector<GInit> ginit;
};
extern Program PR;
enum { FUNC_BASE=0x00100000 };
static const u64 GLOB_BASE=0x01000000, TLS_BASE=0x04000000, TLS_STRIDE=0x00100000, HEAP_BASE=0x10000000, STK_BASE=0x80000000ull, FCTX_BASE=0x700000000ull, ADDR_END=0x400000000ull;
void loadProgram(const std::string& bc, const std::string& rtbc, const std::string& instrOut);
void compileFunc(Func*);
enum { P_READ=0, P_WRITE=1 };

// ---------------------------------------------------------------- memory
template<class T> struct Ref {
    T* p; Ref():p(nullptr){} explicit Ref(T*x):p(x){} Ref(const Ref&o):p(o.p){ if(p)p->rc++; } Ref(Ref&&o)noexcept:p(o.p){o.p=nullptr;}
    Ref& operator=(Ref o){ std::swap(p,o.p); return *this; } ~Ref(){ if(p && --p->rc==0) delete p; }
    T* operator->()const{return p;} explicit operator bool()const{return p;}
    T* own(){ if(p->rc>1){ T* n=new T(*p); n->rc=1; p->rc--; p=n; } return p; }
};
struct Shadow { u16 wclk[256]; u8 wtid[256]; u16 rclk[3][256]; u32 wdbg[256]; };
struct Page {
    u32 rc=1; u8 data[256]; u64 ok[4]; u64 ini[4]; const Expr** sym=nullptr; Shadow* sh=nullptr;
    Page(){ memset(data,0,256); memset(ok,0,32); memset(ini,0,32); }
    Page(const Page&o):rc(1){ memcpy(data,o.data,256); memcpy(ok,o.ok,32); memcpy(ini,o.ini,32); if(o.sym){ sym=new const Expr*[256]; memcpy(sym,o.sym,256*sizeof(*sym)); } if(o.sh){ sh=new Shadow(*o.sh);} }
    ~Page(){ delete[] sym; delete sh; }
};
struct Chunk { u32 rc=1; Ref<Page> pg[64]; };
struct Memory {
    std::vector<Ref<Chunk>> ar[4]; // glob, tls, heap, stack
    static inline int arena(u64 a,u64& off){
        if(a>=STK_BASE){ if(a>=ADDR_END) return -1; off=a-STK_BASE; return 3; }
        if(a>=HEAP_BASE){ off=a-HEAP_BASE; return 2; }
        if(a>=TLS_BASE){ off=a-TLS_BASE; return 1; }
        if(a>=GLOB_BASE){ off=a-GLOB_BASE; return 0; }
        return -1;
    }
    inline Page* rd(u64 a) const { u64 off; int k=arena(a,off); if(k<0) return nullptr; u64 ci=off>>14; if(ci>=ar[k].size()||!ar[k][ci].p) return nullptr; return ar[k][ci].p->pg[(off>>8)&63].p; }
    inline Page* wr(u64 a, bool create=false){
        u64 off; int k=arena(a,off); if(k<0) return nullptr; u64 ci=off>>14;
        if(ci>=ar[k].size()){ if(!create) return nullptr; ar[k].resize(ci+1); }
        Ref<Chunk>& c=ar[k][ci]; if(!c.p){ if(!create) return nullptr; c=Ref<Chunk>(new Chunk); }
        Ref<Page>* p=&c.p->pg[(off>>8)&63];
        if(!p->p && !create) return nullptr;
        if(c.p->rc>1){ c.own(); p=&c.p->pg[(off>>8)&63]; }
        if(!p->p) *p=Ref<Page>(new Page);
        return p->own();
    }
    void mark(u64 a,u64 n,bool okv,bool iniv);   // addressability of a range
    void drop(u64 a,u64 n);                      // unaddressable; free whole pages
    void rawWrite(u64 a,const void* d,u64 n,bool okbit);
    void rawRead(u64 a,void* d,u64 n) const;
};

// ---------------------------------------------------------------- state
struct Alloca { u64 a; u32 n; };
struct Frame { u32 rc=1; Func* f; u32 pc=0; std::vector<Val> r; std::vector<Alloca> al; };
struct FCtx { u32 rc=1; std::vector<Ref<Frame>> fr; u64 token=0; u64 home=0; Func* entry=nullptr; u8 st=0; /*0 fresh 1 suspended 2 running 3 done/dead*/ };
struct Thread { u8 st=0; /*0 runnable 1 blocked 2 done*/ int fctx=-1; u64 baddr=0; u8 timed=0, wres=0; u8 pend=0, touched=0, pkind=0; u64 paddr=0; u32 yielded=0, spun=0; u8 wait=0; /*fairness: threads that must be scheduled before this one, which has yielded*/ std::vector<u16> vc; u64 joinAddr=0; };
struct PCNode { u32 rc=1; const Expr* e; Ref<PCNode> up; u32 depth; };
struct SymRec { std::string name; u8 w; u32 var; };  // in creation order
struct LogRec { u32 tag; Val v; };
struct HBObj { u32 rc=1; std::map<u64,std::vector<u16>> m; std::vector<u16> sc; };
struct SymList { u32 rc=1; SymRec r; Ref<SymList> up; };
struct LogList { u32 rc=1; LogRec r; Ref<LogList> up; };
struct SwList { u32 rc=1; u32 seq; u8 tid; Ref<SwList> up; };
struct State {
    Memory mem; std::vector<Ref<FCtx>> fc; std::vector<Thread> th; int cur=0;
    Ref<PCNode> pc; Model model; Ref<SymList> syms; Ref<LogList> log; Ref<SwList> sw; Ref<HBObj> hb;
    u32 nsym=0; u32 seq=0, preempt=0, spur=0; u64 insns=0; u64 heapTop=HEAP_BASE+0x100, stkTop=STK_BASE+0x100, tokTop=FCTX_BASE;
    std::vector<u64> allocs; u64 live[6]={0,0,0,0,0,0};
    bool expectTerm=false; u32 forks=0; u32 symctr=0; u8 mtflags=0;
    u64 lastNow=0; 
};
