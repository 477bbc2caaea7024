#include "expr.h"
#include <set>
ExprPool EP; SolverStats SS; Solver* SOLVER;

u64 cfold(EOp op,u64 a,u64 b,u8 w){
    u64 m=maskw(w);
    switch(op){
    case EAdd: return (a+b)&m; case ESub: return (a-b)&m; case EMul: return (a*b)&m;
    case EUDiv: return b? a/b : m; case EURem: return b? a%b : a;
    case ESDiv: { i64 x=sextw(a,w),y=sextw(b,w); if(!y) return x<0?1:m; if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
    case ESRem: { i64 x=sextw(a,w),y=sextw(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
    case EAnd: return a&b; case EOr: return a|b; case EXor: return (a^b)&m;
    case EShl: return b>=w?0:(a<<b)&m; case ELShr: return b>=w?0:(a>>b);
    case EAShr: { i64 x=sextw(a,w); return (u64)(x>>(b>=w?w-1:b))&m; }
    case EEq: return a==b; case EUlt: return a<b; case EUle: return a<=b;
    case ESlt: return sextw(a,w)<sextw(b,w); case ESle: return sextw(a,w)<=sextw(b,w);
    default: abort();
    }
}
static bool isCmp(EOp o){ return o>=EEq && o<=ESle; }
Val xbin(EOp op, Val a, Val b, u8 w){
    if(!a.e && !b.e) return Val(cfold(op,a.c,b.c,w));
    u64 m=maskw(w);
    // canonical: constant on the right for commutative ops
    bool comm = op==EAdd||op==EMul||op==EAnd||op==EOr||op==EXor||op==EEq;
    if(comm && !a.e) std::swap(a,b);
    else if(comm && a.e && b.e && a.e->id>b.e->id) std::swap(a,b);
    if(a.e && b.e && a.e==b.e){
        switch(op){ case ESub: case EXor: return Val(0); case EAnd: case EOr: return a; case EEq: case EUle: case ESle: return Val(1); case EUlt: case ESlt: return Val(0); default:; }
    }
    if(!b.e){
        u64 k=b.c;
        switch(op){
        case EAdd: case ESub: case EOr: case EXor: case EShl: case ELShr: case EAShr: if(k==0) return a; break;
        case EMul: if(k==0) return Val(0); if(k==1) return a; break;
        case EUDiv: case ESDiv: if(k==1) return a; break;
        case EAnd: if(k==0) return Val(0); if(k==m) return a; break;
        default:;
        }
        if(op==EOr && k==m) return Val(m);
        if((op==EShl||op==ELShr) && k>=w) return Val(0);
        if(op==ESub) return xbin(EAdd,a,Val((0-k)&m),w);
        if(op==EAdd && a.e->op==EAdd && a.e->b->op==EConst) return xbin(EAdd,mkV(a.e->a),Val((a.e->b->k+k)&m),w);
        if(op==EXor && a.e->op==EXor && a.e->b->op==EConst) return xbin(EXor,mkV(a.e->a),Val(a.e->b->k^k),w);
        if(op==EEq && w==1) return k? a : xnot1(a);
        if(op==EXor && w==1 && k==1){ // not
            const Expr* x=a.e;
            switch(x->op){
            case EUlt: return xbin(EUle,mkV(x->b),mkV(x->a),x->a->w); case EUle: return xbin(EUlt,mkV(x->b),mkV(x->a),x->a->w);
            case ESlt: return xbin(ESle,mkV(x->b),mkV(x->a),x->a->w); case ESle: return xbin(ESlt,mkV(x->b),mkV(x->a),x->a->w);
            default:;
            }
        }
        if(op==EEq){
            const Expr* x=a.e;
            if(x->op==EAdd && x->b->op==EConst) return xbin(EEq,mkV(x->a),Val((k-x->b->k)&m),w);
            if(x->op==ESub && x->a->op!=EConst && k==0) return xbin(EEq,mkV(x->a),mkV(x->b),w);
            if(x->op==EXor && x->b->op==EConst) return xbin(EEq,mkV(x->a),Val(k^x->b->k),w);
            if(x->op==EZExt){ if(k>maskw(x->a->w)) return Val(0); return xbin(EEq,mkV(x->a),Val(k),x->a->w); }
            if(x->op==ESExt){ u64 lo=k&maskw(x->a->w); if(((u64)sextw(lo,x->a->w)&m)!=k) return Val(0); return xbin(EEq,mkV(x->a),Val(lo),x->a->w); }
            if(x->op==EConcat){ u8 lw=x->b->w; return xbin(EAnd, xbin(EEq,mkV(x->a),Val(k>>lw),x->a->w), xbin(EEq,mkV(x->b),Val(k&maskw(lw)),lw),1); }
            if(x->op==EIte){
                if(x->b->op==EConst || x->c->op==EConst){
                    Val t=xbin(EEq,mkV(x->b),Val(k),w), f=xbin(EEq,mkV(x->c),Val(k),w);
                    return xite(mkV(x->a),t,f,1);
                }
            }
        }
        if(op==EUlt){ if(k==0) return Val(0); if(k==1) return xbin(EEq,a,Val(0),w);
            if(a.e->op==EZExt){ u8 iw=a.e->a->w; if(k>maskw(iw)) return Val(1); return xbin(EUlt,mkV(a.e->a),Val(k),iw);} }
        if(op==EUle){ if(k==m) return Val(1); if(k==0) return xbin(EEq,a,Val(0),w);
            if(a.e->op==EZExt){ u8 iw=a.e->a->w; if(k>=maskw(iw)) return Val(1); return xbin(EUle,mkV(a.e->a),Val(k),iw);} }
        if(isCmp(op) && a.e->op==EIte && a.e->b->op==EConst && a.e->c->op==EConst)
            return xite(mkV(a.e->a), xbin(op,mkV(a.e->b),b,w), xbin(op,mkV(a.e->c),b,w),1);
        if(op==ELShr && a.e->op==EConcat && k==a.e->b->w) return xzext(mkV(a.e->a),a.e->a->w,w);
        if(op==ELShr){ return xzext(xextract(a,w,(u8)k,(u8)(w-k)),(u8)(w-k),w); }
        if(op==EAnd && (k&(k+1))==0){ // low mask
            u8 n=(u8)__builtin_popcountll(k); return xzext(xextract(a,w,0,n),n,w);
        }
    } else if(!a.e){
        u64 k=a.c;
        if(k==0 && (op==EShl||op==ELShr||op==EAShr||op==EUDiv||op==EURem)) return Val(0);
        if(op==EUlt){ if(k==m) return Val(0); if(k==0) return xnot1(xbin(EEq,b,Val(0),w));
            if(b.e->op==EZExt){ u8 iw=b.e->a->w; if(k>=maskw(iw)) return Val(0); return xbin(EUlt,Val(k),mkV(b.e->a),iw);} }
        if(op==EUle){ if(k==0) return Val(1);
            if(b.e->op==EZExt){ u8 iw=b.e->a->w; if(k>maskw(iw)) return Val(0); return xbin(EUle,Val(k),mkV(b.e->a),iw);} }
        if(isCmp(op) && b.e->op==EIte && b.e->b->op==EConst && b.e->c->op==EConst)
            return xite(mkV(b.e->a), xbin(op,a,mkV(b.e->b),w), xbin(op,a,mkV(b.e->c),w),1);
    } else {
        if(op==EUlt||op==EUle||op==EEq) if(a.e->op==EZExt && b.e->op==EZExt && a.e->a->w==b.e->a->w) return xbin(op,mkV(a.e->a),mkV(b.e->a),a.e->a->w);
        if(op==ESub && a.e->op==EAdd && a.e->a==b.e) return mkV(a.e->b);
        if(op==ESub && a.e->op==EAdd && a.e->b==b.e) return mkV(a.e->a);
        // quotient and remainder by the same constant: (x/c)*c + x%c = x,  x - (x/c)*c = x%c
        auto md=[&](const Expr* e)->const Expr*{ return e->op==EMul&&e->b->op==EConst&&(e->a->op==EUDiv||e->a->op==ESDiv)&&e->a->b->op==EConst&&e->a->b->k ? e->a : nullptr; };
        if(op==EAdd) for(int z=0;z<2;z++){ const Expr*p=z?b.e:a.e,*q=z?a.e:b.e; if(const Expr* d=md(p)){ u64 cc=d->b->k,k=p->b->k; EOp ro=d->op==EUDiv?EURem:ESRem;
            if(k==cc && q->op==ro && q->a==d->a && q->b==d->b) return mkV(d->a);
            if(k==((0-cc)&m) && q==d->a) return xbin(ro,mkV(d->a),Val(cc),w); } }
        if(op==ESub) if(const Expr* d=md(b.e)) if(b.e->b->k==d->b->k && a.e==d->a) return xbin(d->op==EUDiv?EURem:ESRem,mkV(d->a),Val(d->b->k),w);
    }
    // disjoint OR of zext/shl forms is left to Z3
    return mkV(EP.mk(op,isCmp(op)?1:w,0,0,asE(a,w),asE(b,w)));
}
Val xextract(Val a,u8 w,u8 off,u8 nw,bool raw){
    if(!a.e) return Val((a.c>>off)&maskw(nw));
    if(off==0&&nw==w) return a;
    const Expr* x=a.e;
    switch(x->op){
    case EExtract: return xextract(mkV(x->a),x->a->w,(u8)(x->off+off),nw);
    case EConcat: { u8 lw=x->b->w; if(off>=lw) return xextract(mkV(x->a),x->a->w,(u8)(off-lw),nw); if(off+nw<=lw) return xextract(mkV(x->b),lw,off,nw);
        return xconcat(xextract(mkV(x->a),x->a->w,0,(u8)(off+nw-lw)),(u8)(off+nw-lw), xextract(mkV(x->b),lw,off,(u8)(lw-off)),(u8)(lw-off)); }
    case EZExt: { u8 iw=x->a->w; if(off>=iw) return Val(0); if(off+nw<=iw) return xextract(mkV(x->a),iw,off,nw);
        return xzext(xextract(mkV(x->a),iw,off,(u8)(iw-off)),(u8)(iw-off),nw); }
    case ESExt: { u8 iw=x->a->w; if(off+nw<=iw) return xextract(mkV(x->a),iw,off,nw); if(off==0) return xsext(mkV(x->a),iw,nw); break; }
    case EIte: if(raw) break; if(x->b->op==EConst||x->c->op==EConst) return xite(mkV(x->a),xextract(mkV(x->b),w,off,nw),xextract(mkV(x->c),w,off,nw),nw); break;
    case EAnd: case EOr: case EXor: if(raw) break; if(x->b->op==EConst) return xbin(x->op,xextract(mkV(x->a),w,off,nw),Val((x->b->k>>off)&maskw(nw)),nw); break;
    case EAdd: case ESub: case EMul: if(raw) break; if(off==0 && x->b->op==EConst) return xbin(x->op,xextract(mkV(x->a),w,0,nw),Val(x->b->k&maskw(nw)),nw); break;
    default:;
    }
    return mkV(EP.mk(EExtract,nw,off,0,x));
}
Val xconcat(Val hi,u8 hw,Val lo,u8 lw){
    u8 w=hw+lw;
    if(!hi.e&&!lo.e) return Val((hi.c<<lw)|lo.c);
    if(!hi.e && hi.c==0) return xzext(lo,lw,w);
    if(hi.e&&lo.e){
        const Expr*h=hi.e,*l=lo.e;
        if(h->op==EExtract&&l->op==EExtract&&h->a==l->a&&h->off==l->off+lw) return xextract(mkV(h->a),h->a->w,l->off,w,true);
        if(h->op==EExtract&&l==h->a&&false) return hi;
        if(h->op==EExtract && h->off==lw && h->a->op!=EExtract && l->op!=EExtract && l==h->a) return hi;
        if(h->op==EConcat && l->op==EExtract && h->b->op==EExtract && h->b->a==l->a && h->b->off==l->off+lw)
            return xconcat(mkV(h->a),h->a->w, xextract(mkV(l->a),l->a->w,l->off,(u8)(h->b->w+lw),true),(u8)(h->b->w+lw));
    }
    return mkV(EP.mk(EConcat,w,0,0,asE(hi,hw),asE(lo,lw)));
}
Val xzext(Val a,u8 w,u8 nw){
    if(!a.e) return a; if(w==nw) return a;
    if(a.e->op==EZExt) return xzext(mkV(a.e->a),a.e->a->w,nw);
    if(a.e->op==EIte && a.e->b->op==EConst && a.e->c->op==EConst) return xite(mkV(a.e->a),mkV(a.e->b),mkV(a.e->c),nw);
    return mkV(EP.mk(EZExt,nw,0,0,a.e));
}
Val xsext(Val a,u8 w,u8 nw){
    if(!a.e) return Val((u64)sextw(a.c,w)&maskw(nw)); if(w==nw) return a;
    if(a.e->op==ESExt) return xsext(mkV(a.e->a),a.e->a->w,nw);
    if(a.e->op==EZExt) return xzext(mkV(a.e->a),a.e->a->w,nw);
    if(a.e->op==EIte && a.e->b->op==EConst && a.e->c->op==EConst) return xite(mkV(a.e->a),xsext(Val(a.e->b->k),w,nw),xsext(Val(a.e->c->k),w,nw),nw);
    return mkV(EP.mk(ESExt,nw,0,0,a.e));
}
Val xite(Val c,Val a,Val b,u8 w){
    if(!c.e) return c.c? a : b;
    if(a.e==b.e && (a.e || a.c==b.c)) return a;
    if(w==1){
        if(!a.e&&!b.e) return a.c? c : xnot1(c);
        if(!a.e) return a.c? xbin(EOr,c,b,1) : xbin(EAnd,xnot1(c),b,1);
        if(!b.e) return b.c? xbin(EOr,xnot1(c),a,1) : xbin(EAnd,c,a,1);
    }
    if(c.e->op==EXor && c.e->b->op==EConst && c.e->b->k==1) return xite(mkV(c.e->a),b,a,w);
    return mkV(EP.mk(EIte,w,0,0,c.e,asE(a,w),asE(b,w)));
}
// ---- evaluation
static std::vector<u32> stampv; static std::vector<u64> valv; static u32 epoch_=1;
void evalNewEpoch(){ ++epoch_; }
static u64 ev(const Expr* e,const Model& m){
    if(e->op==EConst) return e->k;
    if(e->op==EVar) return e->k<m.size()? m[e->k]&maskw(e->w) : 0;
    if(stampv.size()<=e->id){ stampv.resize(EP.all.size()+1024,0); valv.resize(EP.all.size()+1024,0); }
    if(stampv[e->id]==epoch_) return valv[e->id];
    u64 r;
    switch(e->op){
    case EConcat: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
    case EExtract: r=(ev(e->a,m)>>e->off)&maskw(e->w); break;
    case EZExt: r=ev(e->a,m); break;
    case ESExt: r=(u64)sextw(ev(e->a,m),e->a->w)&maskw(e->w); break;
    case EIte: r=ev(e->a,m)?ev(e->b,m):ev(e->c,m); break;
    default: r=cfold(e->op,ev(e->a,m),ev(e->b,m),e->a->w);
    }
    stampv[e->id]=epoch_; valv[e->id]=r; return r;
}
u64 evalE(const Expr* e,const Model& m){ evalNewEpoch(); return ev(e,m); }
// ---- Z3
Solver::Solver(){
    Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_symbol l=Z3_mk_string_symbol(ctx,"QF_BV"); s=Z3_mk_solver_for_logic(ctx,l); Z3_solver_inc_ref(ctx,s);
    l=Z3_mk_string_symbol(ctx,"QF_LIA"); si=Z3_mk_solver_for_logic(ctx,l); Z3_solver_inc_ref(ctx,si); isort=Z3_mk_int_sort(ctx); Z3_inc_ref(ctx,(Z3_ast)isort);
}
void Solver::tmo(Z3_solver x,unsigned ms){ unsigned& cur= x==s?tS:tI; if(cur==ms) return; cur=ms; Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,x,p); Z3_params_dec_ref(ctx,p); }
// ---- linear queries are decided over the integers. A term is represented by an integer congruent to it modulo 2^w together
// with an interval for it (derived from the bounds asserted in the query); where its unsigned or signed value is needed and the
// interval does not show it to be in range, the value is x-2^w*q with a fresh integer q that is determined uniquely by the range.
typedef __int128 i128;
struct IRes { bool ok; Z3_ast a; i128 lo,hi; };
struct IntTr {
    Solver& S; std::unordered_map<u32,std::pair<u64,u64>> bnd; std::unordered_map<u32,IRes> memo,memoU,memoS; std::unordered_map<u32,Z3_ast> bm; std::vector<Z3_ast> held,defs; unsigned fresh=0,budget=600;
    Z3_context c; IntTr(Solver& s):S(s),c(s.ctx){} ~IntTr(){ for(auto a:held) Z3_dec_ref(c,a); }
    Z3_ast H(Z3_ast a){ Z3_inc_ref(c,a); held.push_back(a); return a; }
    Z3_ast num(i128 v){ char b[64]; bool n=v<0; unsigned __int128 u=n?-v:v; char t[50]; int k=0; do{ t[k++]='0'+(int)(u%10); u/=10; }while(u); int q=0; if(n) b[q++]='-'; while(k) b[q++]=t[--k]; b[q]=0; return H(Z3_mk_numeral(c,b,S.isort)); }
    static i128 two(unsigned w){ return (i128)1<<w; }
    static i128 fdiv(i128 a,i128 b){ i128 q=a/b; if(a%b!=0 && (a<0)!=(b<0)) q--; return q; }
    void bounds(const Expr* e){ // unit bounds on variables
        auto up=[&](const Expr* v,u64 x){ auto it=bnd.emplace(v->k,std::make_pair((u64)0,maskw(v->w))).first; if(x<it->second.second) it->second.second=x; };
        auto dn=[&](const Expr* v,u64 x){ auto it=bnd.emplace(v->k,std::make_pair((u64)0,maskw(v->w))).first; if(x>it->second.first) it->second.first=x; };
        if(e->op==EUle){ if(e->a->op==EVar&&e->b->op==EConst) up(e->a,e->b->k); if(e->b->op==EVar&&e->a->op==EConst) dn(e->b,e->a->k); }
        if(e->op==EUlt){ if(e->a->op==EVar&&e->b->op==EConst&&e->b->k) up(e->a,e->b->k-1); if(e->b->op==EVar&&e->a->op==EConst&&e->a->k!=~0ull) dn(e->b,e->a->k+1); }
        if(e->op==EEq){ if(e->a->op==EVar&&e->b->op==EConst){ up(e->a,e->b->k); dn(e->a,e->b->k);} }
    }
    Z3_ast le(Z3_ast x,Z3_ast y){ return H(Z3_mk_le(c,x,y)); }
    // x = m*q + r, 0 <= r-base < m ; returns q and r
    void divide(const IRes& x,i128 m,i128 base,IRes& q,IRes& r){
        fresh++; Z3_ast v=H(Z3_mk_fresh_const(c,"q",S.isort)); q=IRes{true,v,fdiv(x.lo-base,m),fdiv(x.hi-base,m)};
        Z3_ast k[2]={num(m),v}; Z3_ast mq=H(Z3_mk_mul(c,2,k)); Z3_ast d[2]={x.a,mq}; r=IRes{true,H(Z3_mk_sub(c,2,d)),base,base+m-1};
        defs.push_back(le(num(base),r.a)); defs.push_back(le(r.a,num(base+m-1))); defs.push_back(le(num(q.lo),v)); defs.push_back(le(v,num(q.hi))); }
    IRes norm(const IRes& x,unsigned w,bool sg){ i128 base= sg? -two(w-1):0; if(x.lo>=base && x.hi<base+two(w)) return x; if(x.lo>=x.hi) {}
        i128 k=fdiv(x.lo-base,two(w)); if(k==fdiv(x.hi-base,two(w))){ i128 o=k*two(w); Z3_ast d[2]={x.a,num(o)}; return {true,H(Z3_mk_sub(c,2,d)),x.lo-o,x.hi-o}; }
        if(fresh>=budget) return {false}; IRes q,r; divide(x,two(w),base,q,r); return r; }
    IRes U(const Expr* e){ auto it=memoU.find(e->id); if(it!=memoU.end()) return it->second; IRes x=term(e); if(x.ok) x=norm(x,e->w,false); return memoU[e->id]=x; }
    IRes Sg(const Expr* e){ auto it=memoS.find(e->id); if(it!=memoS.end()) return it->second; IRes x=term(e); if(x.ok) x=norm(x,e->w,true); return memoS[e->id]=x; }
    IRes term(const Expr* e){ auto it=memo.find(e->id); if(it!=memo.end()) return it->second; IRes r=term1(e); const i128 L=(i128)1<<100; if(r.ok && (r.lo<-L||r.hi>L)){ IRes q,m; if(r.lo<-(L<<20)||r.hi>(L<<20)) r.ok=false; else { divide(r,two(e->w),0,q,m); r=m; } } return memo[e->id]=r; }
    IRes lin(const IRes& x,i128 k){ if(!x.ok) return x; Z3_ast a[2]={x.a,num(k)}; i128 p=x.lo*k,q=x.hi*k; return {true,H(Z3_mk_mul(c,2,a)),p<q?p:q,p<q?q:p}; }
    IRes term1(const Expr* e){
        switch(e->op){
        case EConst: { i128 v=(i128)(unsigned __int128)e->k; if(e->w>=8 && (e->k>>(e->w-1)&1)) v-=two(e->w); return {true,num(v),v,v}; }
        case EVar: { if(e->w==1) return {false}; auto b=bnd.find(e->k); i128 lo=b==bnd.end()?0:(i128)b->second.first, hi=b==bnd.end()?two(e->w)-1:(i128)b->second.second; return {true,H(Z3_mk_const(c,Z3_mk_int_symbol(c,(int)e->k+1000000),S.isort)),lo,hi}; }
        case EAdd: { IRes x=term(e->a),y=term(e->b); if(!x.ok||!y.ok) return {false}; Z3_ast a[2]={x.a,y.a}; return {true,H(Z3_mk_add(c,2,a)),x.lo+y.lo,x.hi+y.hi}; }
        case ESub: { IRes x=term(e->a),y=term(e->b); if(!x.ok||!y.ok) return {false}; Z3_ast a[2]={x.a,y.a}; return {true,H(Z3_mk_sub(c,2,a)),x.lo-y.hi,x.hi-y.lo}; }
        case EMul: { if(e->b->op!=EConst) return {false}; i128 k=(i128)(unsigned __int128)e->b->k; if(e->b->k>>(e->w-1)&1) k-=two(e->w); if(k>((i128)1<<50)||k<-((i128)1<<50)) return {false}; return lin(term(e->a),k); }
        case EShl: if(e->b->op==EConst && e->b->k<e->w && e->b->k<50) return lin(term(e->a),two(e->b->k)); return {false};
        case ELShr: case EAShr: { if(e->b->op!=EConst||e->b->k>=e->w||e->b->k>62) return {false}; unsigned n=e->b->k;
            if(e->op==EAShr && e->a->op==EShl && e->a->b->op==EConst && e->a->b->k==n){ IRes x=term(e->a->a); return x.ok?norm(x,e->w-n,true):x; }
            IRes x= e->op==ELShr?U(e->a):Sg(e->a); if(!x.ok||fresh>=budget) return {false}; IRes q,r; divide(x,two(n),0,q,r); return q; }
        case EUDiv: case EURem: { if(e->b->op!=EConst||!e->b->k||e->b->k>>62) return {false}; IRes x=U(e->a); if(!x.ok||fresh>=budget) return {false}; IRes q,r; divide(x,e->b->k,0,q,r); return e->op==EUDiv?q:r; }
        case ESDiv: case ESRem: { if(e->b->op!=EConst||!e->b->k||e->b->k>>(e->w-1)||e->b->k>>62) return {false}; IRes x=Sg(e->a); if(!x.ok||fresh>=budget) return {false}; i128 k=e->b->k; IRes q,r;
            if(x.lo>=0){ divide(x,k,0,q,r); return e->op==ESDiv?q:r; }
            // rounded towards zero: q = sign * (|x| div k)
            Z3_ast neg=H(Z3_mk_lt(c,x.a,num(0))); IRes mx=lin(x,-1); IRes ab{true,H(Z3_mk_ite(c,neg,mx.a,x.a)),0,mx.hi>x.hi?mx.hi:x.hi}; divide(ab,k,0,q,r); IRes& t= e->op==ESDiv?q:r; IRes mt=lin(t,-1); return {true,H(Z3_mk_ite(c,neg,mt.a,t.a)),mt.lo,t.hi}; }
        case EZExt: return U(e->a);
        case ESExt: return Sg(e->a);
        case EExtract: { if(e->off) { IRes x=U(e->a); if(!x.ok||fresh>=budget||e->off>62) return {false}; IRes q,r; divide(x,two(e->off),0,q,r); return q; } return term(e->a); }
        case EAnd: { if(e->w==1||e->b->op!=EConst) return {false}; u64 m=e->b->k; if(m&(m+1)) return {false}; unsigned n=0; while(m>>n&1) n++; if(n>=e->w) return term(e->a); IRes x=term(e->a); return x.ok?norm(x,n,false):x; }
        case EOr: { if(e->w<8||e->b->op!=EConst||e->b->k!=(u64)two(e->w-1)) return {false}; IRes x=Sg(e->a); if(!x.ok) return x; if(x.hi<0) return x; Z3_ast d[2]={x.a,num(two(e->w-1))}; Z3_ast lowered=H(Z3_mk_sub(c,2,d)); // sets the sign
            return {true,H(Z3_mk_ite(c,H(Z3_mk_lt(c,x.a,num(0))),x.a,lowered)),-two(e->w-1),-1}; }
        case EXor: { if(e->w<8||e->b->op!=EConst) return {false}; IRes x=term(e->a); if(!x.ok) return x; i128 t=two(e->w-1);
            if(e->b->k==(u64)t){ Z3_ast d[2]={x.a,num(t)}; return {true,H(Z3_mk_add(c,2,d)),x.lo+t,x.hi+t}; }
            if(e->b->k==maskw(e->w)){ Z3_ast d[2]={num(-1),x.a}; return {true,H(Z3_mk_sub(c,2,d)),-1-x.hi,-1-x.lo}; } return {false}; }
        case EIte: { Z3_ast q=boolx(e->a); if(!q) return {false}; IRes x=term(e->b),y=term(e->c); if(!x.ok||!y.ok) return {false}; return {true,H(Z3_mk_ite(c,q,x.a,y.a)),x.lo<y.lo?x.lo:y.lo,x.hi>y.hi?x.hi:y.hi}; }
        default: return {false}; }
    }
    Z3_ast boolx(const Expr* e){ auto it=bm.find(e->id); if(it!=bm.end()) return it->second; Z3_ast r=bool1(e); bm[e->id]=r; return r; }
    Z3_ast bool1(const Expr* e){
        switch(e->op){
        case EConst: return H(e->k?Z3_mk_true(c):Z3_mk_false(c));
        case EVar: return e->w==1? H(Z3_mk_eq(c,H(Z3_mk_const(c,Z3_mk_int_symbol(c,(int)e->k+1000000),S.isort)),num(1))):nullptr;
        case EEq: { if(e->a->w==1){ Z3_ast a=boolx(e->a),b=boolx(e->b); return a&&b? H(Z3_mk_iff(c,a,b)):nullptr; }
            IRes x=term(e->a),y=term(e->b); if(!x.ok||!y.ok) return nullptr; unsigned w=e->a->w; Z3_ast d[2]={x.a,y.a}; IRes df{true,H(Z3_mk_sub(c,2,d)),x.lo-y.hi,x.hi-y.lo}; if(df.lo>-two(w)&&df.hi<two(w)) return H(Z3_mk_eq(c,x.a,y.a));
            df=norm(df,w,false); return df.ok? H(Z3_mk_eq(c,df.a,num(0))):nullptr; }
        case EUlt: case EUle: { IRes x=U(e->a),y=U(e->b); if(!x.ok||!y.ok) return nullptr; return H(e->op==EUlt?Z3_mk_lt(c,x.a,y.a):Z3_mk_le(c,x.a,y.a)); }
        case ESlt: case ESle: { IRes x=Sg(e->a),y=Sg(e->b); if(!x.ok||!y.ok) return nullptr; return H(e->op==ESlt?Z3_mk_lt(c,x.a,y.a):Z3_mk_le(c,x.a,y.a)); }
        case EAnd: case EOr: { if(e->w!=1) return nullptr; Z3_ast k[2]={boolx(e->a),boolx(e->b)}; if(!k[0]||!k[1]) return nullptr; return H(e->op==EAnd?Z3_mk_and(c,2,k):Z3_mk_or(c,2,k)); }
        case EXor: { if(e->w!=1) return nullptr; Z3_ast a=boolx(e->a); if(!a) return nullptr; if(e->b->op==EConst) return e->b->k?H(Z3_mk_not(c,a)):a; Z3_ast b=boolx(e->b); return b?H(Z3_mk_xor(c,a,b)):nullptr; }
        case EIte: { Z3_ast q=boolx(e->a),x=boolx(e->b),y=boolx(e->c); return q&&x&&y?H(Z3_mk_ite(c,q,x,y)):nullptr; }
        default: return nullptr; }
    }
    bool build(const std::vector<u32>& key,std::vector<Z3_ast>& out){
        for(u32 k:key) bounds(EP.all[k]);
        for(u32 k:key){ Z3_ast a=boolx(EP.all[k]); if(!a) return false; out.push_back(a); }
        for(u32 k:key) for(u32 v:*EP.all[k]->vs) if(!seen.count(v)){ seen.insert(v); Z3_ast x=H(Z3_mk_const(c,Z3_mk_int_symbol(c,(int)v+1000000),S.isort)); out.push_back(H(Z3_mk_le(c,num(0),x))); out.push_back(H(Z3_mk_le(c,x,num(two(EP.var(v)->w)-1)))); }
        for(auto d:defs) out.push_back(d);
        return true; }
    std::set<u32> seen;
};
static inline Z3_ast keep(Z3_context c,Z3_ast a){ Z3_inc_ref(c,a); return a; }
Z3_ast Solver::bl(const Expr* e){
    if(memoB.size()<=e->id) memoB.resize(EP.all.size()+256,nullptr);
    if(memoB[e->id]) return memoB[e->id];
    Z3_ast r;
    switch(e->op){
    case EConst: r=e->k?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
    case EEq: r= e->a->w==1? Z3_mk_iff(ctx,bl(e->a),bl(e->b)) : Z3_mk_eq(ctx,bv(e->a),bv(e->b)); break;
    case EUlt: r=Z3_mk_bvult(ctx,bv(e->a),bv(e->b)); break; case EUle: r=Z3_mk_bvule(ctx,bv(e->a),bv(e->b)); break;
    case ESlt: r=Z3_mk_bvslt(ctx,bv(e->a),bv(e->b)); break; case ESle: r=Z3_mk_bvsle(ctx,bv(e->a),bv(e->b)); break;
    case EAnd: { Z3_ast k[2]={bl(e->a),bl(e->b)}; r=Z3_mk_and(ctx,2,k); break; }
    case EOr: { Z3_ast k[2]={bl(e->a),bl(e->b)}; r=Z3_mk_or(ctx,2,k); break; }
    case EXor: if(e->b->op==EConst) r=e->b->k?Z3_mk_not(ctx,bl(e->a)):bl(e->a); else r=Z3_mk_xor(ctx,bl(e->a),bl(e->b)); break;
    case EIte: r=Z3_mk_ite(ctx,bl(e->a),bl(e->b),bl(e->c)); break;
    default: { Z3_sort so=Z3_mk_bv_sort(ctx,1); r=Z3_mk_eq(ctx,bv(e),Z3_mk_unsigned_int64(ctx,1,so)); }
    }
    if(memoB.size()<=e->id) memoB.resize(EP.all.size()+256,nullptr);
    return memoB[e->id]=keep(ctx,r);
}
Z3_ast Solver::bv(const Expr* e){
    if(memoBV.size()<=e->id) memoBV.resize(EP.all.size()+256,nullptr);
    if(memoBV[e->id]) return memoBV[e->id];
    Z3_ast r; Z3_sort so=Z3_mk_bv_sort(ctx,e->w);
    auto A=[&]{return bv(e->a);}; auto B=[&]{return bv(e->b);};
    switch(e->op){
    case EConst: r=Z3_mk_unsigned_int64(ctx,e->k,so); break;
    case EVar: r=Z3_mk_const(ctx,Z3_mk_int_symbol(ctx,(int)e->k),so); break;
    case EAdd: r=Z3_mk_bvadd(ctx,A(),B()); break; case ESub: r=Z3_mk_bvsub(ctx,A(),B()); break;
    case EMul: r=Z3_mk_bvmul(ctx,A(),B()); break; case EUDiv: r=Z3_mk_bvudiv(ctx,A(),B()); break;
    case ESDiv: r=Z3_mk_bvsdiv(ctx,A(),B()); break; case EURem: r=Z3_mk_bvurem(ctx,A(),B()); break;
    case ESRem: r=Z3_mk_bvsrem(ctx,A(),B()); break; case EAnd: r=Z3_mk_bvand(ctx,A(),B()); break;
    case EOr: r=Z3_mk_bvor(ctx,A(),B()); break; case EXor: r=Z3_mk_bvxor(ctx,A(),B()); break;
    case EShl: r=Z3_mk_bvshl(ctx,A(),B()); break; case ELShr: r=Z3_mk_bvlshr(ctx,A(),B()); break; case EAShr: r=Z3_mk_bvashr(ctx,A(),B()); break;
    case EConcat: r=Z3_mk_concat(ctx,A(),B()); break; case EExtract: r=Z3_mk_extract(ctx,e->off+e->w-1,e->off,A()); break;
    case EZExt: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,A()); break; case ESExt: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,A()); break;
    case EIte: r=Z3_mk_ite(ctx,bl(e->a),B(),bv(e->c)); break;
    default: r=Z3_mk_ite(ctx,bl(e),Z3_mk_unsigned_int64(ctx,1,so),Z3_mk_unsigned_int64(ctx,0,so));
    }
    if(memoBV.size()<=e->id) memoBV.resize(EP.all.size()+256,nullptr);
    return memoBV[e->id]=keep(ctx,r);
}
bool Solver::check(std::vector<const Expr*> cs, std::vector<std::pair<u32,u64>>* out){
    std::vector<u32> key; for(auto e:cs) key.push_back(e->id);
    std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    u64 h=0xcbf29ce484222325ull; for(u32 k:key){ h^=k; h*=0x100000001b3ull; h^=h>>31; }
    auto r=cache.equal_range(h);
    for(auto i=r.first;i!=r.second;++i) if(i->second->key==key){ SS.cacheHits++; if(out) *out=i->second->mod; return i->second->sat; }
    auto t0=std::chrono::steady_clock::now();
    IntTr tr(*this); std::vector<Z3_ast> ia; bool ints=tr.build(key,ia); Z3_solver s=this->s;
    // hard queries alternate between the two encodings with growing time limits
    Z3_lbool res=Z3_L_UNDEF; static const struct { bool in; unsigned ms; } plan0[]={{true,1000},{false,20000},{true,60000},{false,120000}}, plan1[]={{false,60},{true,3000},{false,20000},{true,60000},{false,120000}};
    bool can=ints, pure=can&&tr.fresh==0; const auto* plan= pure?plan0:plan1; int np= pure?4:5;
    if(!can){ ints=false; s=this->s; tmo(s,120000); Z3_solver_push(ctx,s); for(u32 k:key) Z3_solver_assert(ctx,s,bl(EP.all[k])); res=Z3_solver_check(ctx,s); }
    else for(int k=0;k<np;k++){ ints=plan[k].in; s= ints?si:this->s; tmo(s,plan[k].ms); Z3_solver_push(ctx,s); if(ints) for(auto a:ia) Z3_solver_assert(ctx,s,a); else for(u32 q:key) Z3_solver_assert(ctx,s,bl(EP.all[q])); res=Z3_solver_check(ctx,s); if(res!=Z3_L_UNDEF||k==np-1) break; Z3_solver_pop(ctx,s,1); }
    if(ints) SS.intq++;
    if(ints && res!=Z3_L_UNDEF && getenv("VF_XCHECK")){ tmo(this->s,5000); Z3_solver_push(ctx,this->s); for(u32 q:key) Z3_solver_assert(ctx,this->s,bl(EP.all[q])); Z3_lbool r2=Z3_solver_check(ctx,this->s); if(r2!=Z3_L_UNDEF&&r2!=res){ fprintf(stderr,"XCHECK mismatch int %d bv %d\n%s\n",res,r2,Z3_solver_to_string(ctx,this->s)); exit(3); } fprintf(stderr,"XCHECK %s\n",r2==res?"ok":"unknown"); Z3_solver_pop(ctx,this->s,1); }
    if(getenv("VF_DUMPQ")){ double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if(el>0.03) fprintf(stderr,"SLOWQ %s %.3f %d\n%s\n",ints?"int":"bv",el,(int)res,Z3_solver_to_string(ctx,s)); }
    SS.queries++;
    CacheEnt* ce=new CacheEnt{key,res!=Z3_L_FALSE,{}};
    if(res==Z3_L_TRUE){
        SS.sat++;
        Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
        VarSet vs; for(u32 k:key){ VarSet n; const VarSet& x=*EP.all[k]->vs; std::set_union(vs.begin(),vs.end(),x.begin(),x.end(),std::back_inserter(n)); vs.swap(n); }
        for(u32 v:vs){ Z3_ast val; u64 x=0; if(Z3_model_eval(ctx,m,ints?tr.H(Z3_mk_const(ctx,Z3_mk_int_symbol(ctx,(int)v+1000000),isort)):bv(EP.var(v)),true,&val)){ Z3_inc_ref(ctx,val); Z3_get_numeral_uint64(ctx,val,&x); Z3_dec_ref(ctx,val);} ce->mod.push_back({v,x}); }
        Z3_model_dec_ref(ctx,m);
    } else if(res==Z3_L_FALSE) SS.unsat++; else { SS.unknown++; fprintf(stderr,"fsym: solver answered unknown\n"); exit(3); }
    Z3_solver_pop(ctx,s,1);
    cache.emplace(h,ce);
    SS.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    if(out) *out=ce->mod;
    return ce->sat;
}
