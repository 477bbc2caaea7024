// fsym: hash-consed bit-vector expressions, simplifier, Z3 back end
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

static inline u64 maskw(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sextw(u64 v, unsigned w){ if(w>=64) return (i64)v; unsigned s=64-w; return (i64)(v<<s)>>s; }

enum EOp : u8 { EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
                EEq, EUlt, EUle, ESlt, ESle, EConcat, EExtract, EZExt, ESExt, EIte };

typedef std::vector<u32> VarSet;

struct Expr {
    EOp op; u8 w; u8 off; u32 id; u64 k; const Expr *a, *b, *c; const VarSet* vs; u64 hash;
};
struct Val { u64 c; const Expr* e; Val():c(0),e(nullptr){} Val(u64 v):c(v),e(nullptr){} explicit Val(u64 v,const Expr*x):c(v),e(x){} };

struct VarInfo { std::string name; u8 w; };

struct ExprPool {
    std::vector<Expr*> all; std::vector<VarInfo> vars;
    std::unordered_multimap<u64,Expr*> tab;
    VarSet emptySet;
    const Expr* mk(EOp op,u8 w,u8 off,u64 k,const Expr*a=nullptr,const Expr*b=nullptr,const Expr*c=nullptr){
        u64 h=op*0x9E3779B97F4A7C15ull ^ ((u64)w<<32) ^ ((u64)off<<40);
        auto mix=[&](u64 x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; };
        mix(k); mix(a?a->id+1:0); mix(b?b->id+1:0); mix(c?c->id+1:0);
        auto r=tab.equal_range(h);
        for(auto i=r.first;i!=r.second;++i){ Expr*e=i->second; if(e->op==op&&e->w==w&&e->off==off&&e->k==k&&e->a==a&&e->b==b&&e->c==c) return e; }
        Expr* e=new Expr{op,w,off,(u32)all.size(),k,a,b,c,nullptr,h};
        all.push_back(e); tab.emplace(h,e);
        if(op==EVar) e->vs=new VarSet{(u32)k};
        else {
            const VarSet* s=&emptySet;
            for(const Expr* x : {a,b,c}) if(x && !x->vs->empty()){
                if(s->empty()) s=x->vs;
                else if(s!=x->vs){
                    if(std::includes(s->begin(),s->end(),x->vs->begin(),x->vs->end())) continue;
                    if(std::includes(x->vs->begin(),x->vs->end(),s->begin(),s->end())){ s=x->vs; continue; }
                    VarSet* n=new VarSet; std::set_union(s->begin(),s->end(),x->vs->begin(),x->vs->end(),std::back_inserter(*n)); s=n;
                }
            }
            e->vs=s;
        }
        return e;
    }
    const Expr* cst(u64 v,u8 w){ return mk(EConst,w,0,v&maskw(w)); }
    u32 newVar(const std::string& n,u8 w){ vars.push_back({n,w}); return (u32)vars.size()-1; }
    const Expr* var(u32 id){ return mk(EVar,vars[id].w,0,id); }
};
extern ExprPool EP;

static inline const Expr* asE(const Val&v,u8 w){ return v.e ? v.e : EP.cst(v.c,w); }
static inline Val mkV(const Expr* e){ if(e->op==EConst) return Val(e->k); return Val(0,e); }

Val xbin(EOp op, Val a, Val b, u8 w);      // arithmetic/bitwise of width w, or comparison of width-w operands (result width 1)
Val xextract(Val a, u8 w, u8 off, u8 nw, bool raw=false);  // bits [off, off+nw) of width-w value
Val xconcat(Val hi, u8 hw, Val lo, u8 lw);
Val xzext(Val a,u8 w,u8 nw);
Val xsext(Val a,u8 w,u8 nw);
Val xite(Val c, Val a, Val b, u8 w);
static inline Val xnot1(Val a){ return xbin(EXor,a,Val(1),1); }
u64 cfold(EOp op,u64 a,u64 b,u8 w);

typedef std::vector<u64> Model;
u64 evalE(const Expr* e, const Model& m); // memo per call epoch
void evalNewEpoch();

struct SolverStats { u64 queries=0, sat=0, unsat=0, cacheHits=0, intq=0, evalHits=0, unknown=0; double secs=0; };
extern SolverStats SS;

struct IntTr;
struct Solver { friend struct IntTr; Z3_solver si; Z3_sort isort;
    Z3_context ctx; Z3_solver s; std::vector<Z3_ast> memoBV, memoB;
    struct CacheEnt { std::vector<u32> key; bool sat; std::vector<std::pair<u32,u64>> mod; };
    std::unordered_multimap<u64,CacheEnt*> cache;
    Solver(); unsigned tS=0,tI=0; void tmo(Z3_solver,unsigned ms);
    Z3_ast bv(const Expr* e); Z3_ast bl(const Expr* e);
    // is /\cs satisfiable; on sat fill out (var -> value) for the vars occurring in cs
    bool check(std::vector<const Expr*> cs, std::vector<std::pair<u32,u64>>* out);
};
extern Solver* SOLVER;
