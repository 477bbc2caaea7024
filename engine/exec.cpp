#include <sys/prctl.h>
#include <signal.h>
// fsym: symbolic execution, fibers, threads, exploration
#include "core.h"
#include "intrin.h"
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <deque>
#include <atomic>
#include <fstream>
#include <sstream>

// ---------------------------------------------------------------- memory helpers
void Memory::mark(u64 a,u64 n,bool okv,bool iniv){
    u64 e=a+n; while(a<e){ Page* p=wr(a,true); u64 o=a&255, k=std::min<u64>(256-o,e-a);
        if(o==0&&k==256){ for(int i=0;i<4;i++){ p->ok[i]=okv?~0ull:0; p->ini[i]=iniv?~0ull:0; } }
        else for(u64 i=o;i<o+k;i++){ u64 b=1ull<<(i&63); if(okv) p->ok[i>>6]|=b; else p->ok[i>>6]&=~b; if(iniv) p->ini[i>>6]|=b; else p->ini[i>>6]&=~b; }
        if(p->sym) for(u64 i=o;i<o+k;i++) p->sym[i]=nullptr;
        a+=k; }
}
void Memory::drop(u64 a,u64 n){
    u64 e=a+n; while(a<e){ u64 o=a&255,k=std::min<u64>(256-o,e-a);
        if(rd(a)){
            Page* p=wr(a); for(u64 i=o;i<o+k;i++){ u64 b=1ull<<(i&63); p->ok[i>>6]&=~b; if(p->sym) p->sym[i]=nullptr; }
            u64 off; int ar_=arena(a,off);
            if(!(p->ok[0]|p->ok[1]|p->ok[2]|p->ok[3]) && (ar_==3 || (o==0&&k==256))) ar[ar_][off>>14].p->pg[(off>>8)&63]=Ref<Page>();
        }
        a+=k; }
}
void Memory::rawWrite(u64 a,const void* d,u64 n,bool okbit){ const u8* s=(const u8*)d; for(u64 i=0;i<n;i++){ Page* p=wr(a+i,true); u64 o=(a+i)&255; p->data[o]=s[i]; if(p->sym) p->sym[o]=nullptr; if(okbit) p->ok[o>>6]|=1ull<<(o&63); p->ini[o>>6]|=1ull<<(o&63); } }
void Memory::rawRead(u64 a,void* d,u64 n) const { u8* s=(u8*)d; for(u64 i=0;i<n;i++){ Page* p=rd(a+i); s[i]=p?p->data[(a+i)&255]:0; } }

// ---------------------------------------------------------------- configuration and results
struct Cfg { std::string bc,rt,entry,out,instr; u64 maxInsn=4000000; int pb=2; int jobs=1; double tlimit=0; u64 maxPaths=0; bool hb=false; bool mt=false; int nsamples=6; u32 seed=1; bool verbose=false; u32 quantum=400; std::string src="/repo/"; int maxThreads=8; bool shared=true; bool por=true; bool one=false; } CF;
struct Viol { std::string kind,msg,where,json; };
struct Result {
    u64 paths=0, ended=0, bounded=0, pruned=0, forks=0, insns=0, points=0, switches=0, maxInsns=0, maxSyms=0, termOk=0, checks=0, checksSym=0; u64 states=0;
    std::map<std::string,u64> reach, bounds; std::map<std::string,Viol> viol; std::vector<std::string> samples; u64 sampleSeen=0; bool incomplete=false; std::string incWhy;
    std::set<std::pair<std::string,std::string>> funcs; // (function,file)
    std::set<u64> shared; std::string err;
} RS;
static std::vector<State*> WL;
static std::set<u64> sharedFilter; static bool useFilter=false;
static std::map<u64,u32> ptAcc; // granule -> bitmask (tid bits low 8 = read, high 8 = write)
static std::vector<std::string> tags; static std::unordered_map<std::string,u32> tagIdx;
static u32 rng=12345; static u32 rnd(){ rng^=rng<<13; rng^=rng>>17; rng^=rng<<5; return rng; }
static double now_s(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;
struct PathEnd { int why; }; // thrown to leave the interpreter: 0 normal end, 1 assume-infeasible, 2 violation, 3 bound, 4 pruned, 5 expected terminate
static std::vector<std::pair<u64,u64>> exemptRanges;

static std::string dem(const std::string& n){ int st; char* d=abi::__cxa_demangle(n.c_str(),0,0,&st); if(!d) return n; std::string r=d; free(d); return r; }
static std::string js(const std::string& s){ std::string o="\""; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((u8)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }

// ---------------------------------------------------------------- path condition
static void addPC(State& s,const Expr* e){ if(e->op==EConst) return; 
    if(e->op==EAnd && e->w==1){ addPC(s,e->a); addPC(s,e->b); return; }
    PCNode* n=new PCNode; n->e=e; n->depth=s.pc?s.pc->depth+1:1; n->up=std::move(s.pc); s.pc=Ref<PCNode>(n); }
static bool sat(State& s,const Expr* c,std::vector<std::pair<u32,u64>>* out){
    std::vector<const Expr*> all; for(PCNode* n=s.pc.p;n;n=n->up.p) all.push_back(n->e);
    static std::vector<u32> mark; static u32 ep=0; ep++; if(mark.size()<EP.vars.size()) mark.resize(EP.vars.size()+64,0);
    for(u32 v:*c->vs) mark[v]=ep;
    std::vector<const Expr*> sel{c}; std::vector<char> used(all.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<all.size();i++) if(!used[i]){ bool hit=false; for(u32 v:*all[i]->vs) if(mark[v]==ep){hit=true;break;} if(hit){ used[i]=1; sel.push_back(all[i]); for(u32 v:*all[i]->vs) if(mark[v]!=ep){mark[v]=ep; ch=true;} } } }
    return SOLVER->check(sel,out);
}
static void setModel(State& s,const std::vector<std::pair<u32,u64>>& m){ for(auto&p:m){ if(s.model.size()<=p.first) s.model.resize(p.first+1,0); s.model[p.first]=p.second; } }

// ---------------------------------------------------------------- reports
static void where(State& s,std::string& brief,std::string& full,int tid=-1){
    if(tid<0) tid=s.cur; if(s.th.empty()||s.th[tid].fctx<0) return; auto& fc=*s.fc[s.th[tid].fctx].p; std::ostringstream o; int shown=0; 
    for(int i=(int)fc.fr.size()-1;i>=0;i--){ Frame& f=*fc.fr[i].p; u32 d= f.pc<f.f->code.size()? f.f->code[f.pc].dbg:0; 
        if(!d){ o<<dem(f.f->name)<<"; "; continue; }
        for(i32 k=d;k>=0;k=PR.dbg[k].parent){ auto& L=PR.dbg[k]; if(k==0) break; std::string fl=PR.files[L.file]; o<<dem(PR.fnames[L.func])<<" ("<<fl<<":"<<L.line<<"); "; if(brief.empty() && fl.compare(0,CF.src.size(),CF.src)==0){ brief=dem(PR.fnames[L.func])+" "+fl.substr(CF.src.size())+":"+std::to_string(L.line); } if(++shown>40) break; }
        if(shown>40) break; }
    full=o.str();
}
static std::string pathJson(State& s,const Model& m){
    std::ostringstream o; std::vector<SymList*> sy; for(SymList* p=s.syms.p;p;p=p->up.p) sy.push_back(p);
    o<<"{\"syms\":["; bool f=true; for(size_t i=sy.size();i-->0;){ auto&r=sy[i]->r; if(r.name=="uninit") continue; if(!f)o<<","; f=false; u64 v=r.var<m.size()?m[r.var]&maskw(r.w):0; o<<"["<<js(r.name)<<",\""<<v<<"\"]"; }
    o<<"],\"switches\":["; std::vector<SwList*> sw; for(SwList* p=s.sw.p;p;p=p->up.p) sw.push_back(p); for(size_t i=sw.size();i-->0;){ o<<"["<<sw[i]->seq<<","<<(int)sw[i]->tid<<"]"; if(i)o<<","; }
    o<<"],\"log\":["; std::vector<LogList*> lg; for(LogList* p=s.log.p;p;p=p->up.p) lg.push_back(p); evalNewEpoch();
    for(size_t i=lg.size();i-->0;){ auto&r=lg[i]->r; o<<"["<<js(tags[r.tag])<<",\""<<(r.v.e?evalE(r.v.e,m):r.v.c)<<"\"]"; if(i)o<<","; }
    o<<"]}"; return o.str();
}
static double firstViol=0; static double now_s();
static void violation(State& s,const std::string& kind,const std::string& msg,const Model* m=nullptr){
    std::string brief,full; where(s,brief,full);
    std::string key=kind+"|"+msg; if(kind!="check") key+="|"+brief.substr(0,brief.rfind(' '));
    if(RS.viol.count(key)) return;
    Viol v; v.kind=kind; v.msg=msg; v.where=brief; std::ostringstream o; o<<"{\"kind\":"<<js(kind)<<",\"msg\":"<<js(msg)<<",\"where\":"<<js(brief)<<",\"stack\":"<<js(full);
    if(s.th.size()>1||kind=="deadlock"){ o<<",\"threads\":["; for(size_t t=0;t<s.th.size();t++){ std::string b,fu; where(s,b,fu,t); if(t)o<<","; o<<js((s.th[t].st==0?"runnable ":s.th[t].st==1?"blocked ":"done ")+fu); } o<<"]"; }
    o<<",\"path\":"<<pathJson(s,m?*m:s.model)<<"}"; v.json=o.str();
    if(CF.verbose) fprintf(stderr,"VIOL %s: %s at %s\n   %s\n",kind.c_str(),msg.c_str(),brief.c_str(),full.c_str());
    if(RS.viol.empty()) firstViol=now_s(); RS.viol[key]=v;
}
[[noreturn]] static void die(State& s,const std::string& kind,const std::string& msg){ violation(s,kind,msg); throw PathEnd{2}; }
[[noreturn]] static void engineError(State& s,const std::string& msg){ std::string b,f; where(s,b,f); RS.err=msg+" at "+f; throw PathEnd{9}; }

// ---------------------------------------------------------------- happens-before
static void vcJoin(std::vector<u16>& a,const std::vector<u16>& b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) if(b[i]>a[i]) a[i]=b[i]; }
static HBObj& HB(State& s){ if(!s.hb) s.hb=Ref<HBObj>(new HBObj); return *s.hb.own(); }
static bool exempt(u64 a){ for(auto&r:exemptRanges) if(a>=r.first&&a<r.first+r.second) return true; return false; }
static void hbAccess(State& s,u64 a,unsigned n,bool wr,bool atomic){
    if(s.th.size()<2) return; // before any thread exists everything is ordered
    int t=s.cur; if(t>2) return; auto& vc=s.th[t].vc;
    if(s.fc[s.th[t].fctx]->fr.back()->f->noRace) return;
    if(exempt(a)) return;
    for(unsigned i=0;i<n;i++){
        Page* p=s.mem.wr(a+i); if(!p) return; if(!p->sh){ p->sh=new Shadow; memset(p->sh,0,sizeof(Shadow)); }
        Shadow& h=*p->sh; unsigned o=(a+i)&255; u8 wt=h.wtid[o]&15; bool wat=h.wtid[o]&16; u16 wc=h.wclk[o];
        auto seen=[&](int q,u16 c){ return q==t || (q<(int)vc.size()&&vc[q]>=c); };
        if(wc && !seen(wt,wc) && !(atomic&&wat)){ std::string b; auto&L=PR.dbg[h.wdbg[o]]; b= h.wdbg[o]? dem(PR.fnames[L.func])+" "+PR.files[L.file]+":"+std::to_string(L.line):"?"; violation(s,"race",std::string("data race: ")+(wr?"write":"read")+" not ordered after write by another thread in "+b); throw PathEnd{2}; }
        if(wr && !atomic) for(int q=0;q<3;q++) if(h.rclk[q][o] && !seen(q,h.rclk[q][o])){ violation(s,"race","data race: write not ordered after read by another thread"); throw PathEnd{2}; }
        u16 my=t<(int)vc.size()?vc[t]:1;
        if(wr){ h.wclk[o]=my; h.wtid[o]=(u8)(t|(atomic?16:0)); auto& fr=*s.fc[s.th[t].fctx]->fr.back().p; h.wdbg[o]=fr.f->code[fr.pc].dbg; }
        else if(!atomic) h.rclk[t][o]=my;
    }
}
static bool ordAcq(u8 fl){ int o=fl-1; return o==3||o==4||o==6||o==7; } static bool ordRel(u8 fl){ int o=fl-1; return o==5||o==6||o==7; }
static void hbAtomic(State& s,u64 a,bool rd,bool wr,u8 fl){
    if(!CF.hb||s.th.size()<2) return; auto& T=s.th[s.cur]; HBObj& h=HB(s); auto& rel=h.m[a];
    if(rd && ordAcq(fl)) vcJoin(T.vc,rel); else if(rd){ auto& pa=h.m[(1ull<<60)|s.cur]; vcJoin(pa,rel); }
    if(wr){ if(ordRel(fl)){ if(rd) vcJoin(rel,T.vc); else rel=T.vc; T.vc[s.cur]++; } else { auto f=h.m.find((1ull<<61)|s.cur); if(!rd) rel.clear(); if(f!=h.m.end()) vcJoin(h.m[a],f->second); } }
}
// ---------------------------------------------------------------- typed memory access
static std::string describe(State& s,u64 a){
    if(a<4096) return "null pointer"; 
    if(a>=HEAP_BASE&&a<STK_BASE){ auto it=std::upper_bound(s.allocs.begin(),s.allocs.end(),a); if(it!=s.allocs.begin()){ u64 b=*--it; u64 sz; u32 k; s.mem.rawRead(b-32,&sz,8); s.mem.rawRead(b-24,&k,4); if(a<b+sz+32){ if(k&0x80000000u) return "freed heap memory"; if(a>=b+sz) return "memory past the end of a heap block"; return "inaccessible heap memory"; } } return "unallocated heap memory"; }
    if(a>=STK_BASE&&a<ADDR_END) return "stack memory of a function that has returned (or a released fiber stack)";
    return "unmapped memory";
}
static void badAccess(State& s,u64 a,bool wr){ die(s,"memory",std::string(wr?"write to ":"read of ")+describe(s,a)); }
static Val symVar(State& s,const std::string& name,u8 w);
static inline Val loadB(State& s,u64 a,unsigned n){
    Page* p=s.mem.rd(a); u64 o=a&255;
    if(p && o+n<=256){
        u64 m=(n>=8?0xffull:((1ull<<n)-1)); u64 okb,inb; 
        if((o&63)+n<=64){ okb=p->ok[o>>6]>>(o&63); inb=p->ini[o>>6]>>(o&63); } else { u64 sh=o&63; okb=(p->ok[o>>6]>>sh)|(p->ok[(o>>6)+1]<<(64-sh)); inb=(p->ini[o>>6]>>sh)|(p->ini[(o>>6)+1]<<(64-sh)); }
        if((okb&m)==m && (inb&m)==m){
            bool sy=false; if(p->sym) for(unsigned i=0;i<n;i++) if(p->sym[o+i]){sy=true;break;}
            if(!sy){ u64 v=0; memcpy(&v,p->data+o,n); return Val(v); }
        }
    }
    // slow path, byte by byte
    Val r; u8 w=0; 
    for(unsigned i=0;i<n;i++){ u64 x=a+i; Page* q=s.mem.rd(x); u64 k=x&255; if(!q||!(q->ok[k>>6]>>(k&63)&1)) badAccess(s,x,false);
        Val b; if(!(q->ini[k>>6]>>(k&63)&1)){ b=symVar(s,"uninit",8); Page* z=s.mem.wr(x); if(!z->sym){ z->sym=new const Expr*[256]; memset(z->sym,0,256*sizeof(Expr*)); } z->sym[k]=b.e; z->ini[k>>6]|=1ull<<(k&63); }
        else if(q->sym&&q->sym[k]) b=Val(0,q->sym[k]); else b=Val(q->data[k]);
        if(i==0){ r= n==1&&b.e&&b.e->op==EExtract? xextract(Val(0,b.e->a),b.e->a->w,b.e->off,8) : b; w=8; } else { r=xconcat(b,8,r,w); w+=8; } }
    return r;
}
static inline void storeB(State& s,u64 a,unsigned n,Val v){
    Page* p=s.mem.wr(a); u64 o=a&255;
    if(p && o+n<=256){
        u64 m=(n>=8?0xffull:((1ull<<n)-1)); u64 okb; u64 sh=o&63; bool one=sh+n<=64;
        if(one) okb=p->ok[o>>6]>>sh; else okb=(p->ok[o>>6]>>sh)|(p->ok[(o>>6)+1]<<(64-sh));
        if((okb&m)!=m) badAccess(s,a,true);
        p->ini[o>>6]|=m<<sh; if(!one) p->ini[(o>>6)+1]|=m>>(64-sh);
        if(!v.e){ memcpy(p->data+o,&v.c,n); if(p->sym) for(unsigned i=0;i<n;i++) p->sym[o+i]=nullptr; return; }
        if(!p->sym){ p->sym=new const Expr*[256]; memset(p->sym,0,256*sizeof(Expr*)); }
        for(unsigned i=0;i<n;i++){ Val b= n==1&&v.e->w==8? v : xextract(v,v.e->w,8*i,8,true); p->sym[o+i]=b.e; p->data[o+i]=(u8)b.c; }
        return;
    }
    for(unsigned i=0;i<n;i++){ Page* q=s.mem.wr(a+i); if(!q) badAccess(s,a+i,true); storeB(s,a+i,1, v.e? xextract(v,v.e->w,8*i,8,true) : Val((v.c>>(8*i))&255)); }
}
static u64 rd64(State& s,u64 a){ u64 v; s.mem.rawRead(a,&v,8); return v; }
static std::string rdStr(State& s,u64 a){ std::string r; for(int i=0;i<300;i++){ char c; s.mem.rawRead(a+i,&c,1); if(!c) break; r+=c; } return r; }

static Val symVar(State& s,const std::string& name,u8 w){
    // variables are shared between paths by position, so that equal prefixes give equal queries
    static std::unordered_map<std::string,u32> ids; std::string k=name+"#"+std::to_string(s.nsym)+"#"+std::to_string(w);
    auto it=ids.find(k); u32 id; if(it==ids.end()){ id=EP.newVar(name,w); ids[k]=id; } else id=it->second;
    s.nsym++; SymList* n=new SymList; n->r=SymRec{name,w,id}; n->up=std::move(s.syms); s.syms=Ref<SymList>(n);
    if(s.model.size()<=id) s.model.resize(id+1,0); s.model[id]=0;
    return Val(0,EP.var(id));
}
// ---------------------------------------------------------------- heap
static u64 heapAlloc(State& s,u64 n,u32 kind,u64 align=16){
    if(n>(1u<<24)) engineError(s,"huge allocation");
    u64 a=s.heapTop+32; if(align<16) align=16; a=(a+align-1)/align*align; s.heapTop=a+n+32; s.heapTop=(s.heapTop+15)&~15ull;
    if(s.heapTop>=STK_BASE) engineError(s,"heap arena exhausted");
    u32 mg=0xA110C8ED; s.mem.rawWrite(a-32,&n,8,false); s.mem.rawWrite(a-24,&kind,4,false); s.mem.rawWrite(a-20,&mg,4,false);
    u64 al2=align; s.mem.rawWrite(a-16,&al2,8,false);
    s.mem.mark(a,n,true,false); s.allocs.push_back(a); s.live[kind%6]++; return a;
}
static void killFctx(State& s,int i){ FCtx* f=s.fc[i].own(); for(auto&fr:f->fr) for(auto&al:fr->al) s.mem.drop(al.a,al.n); f->fr.clear(); f->st=3; }
static void heapFree(State& s,u64 a,u32 kind){
    if(!a) return; auto it=std::lower_bound(s.allocs.begin(),s.allocs.end(),a);
    if(it==s.allocs.end()||*it!=a) die(s,"memory","release of a pointer that was not allocated");
    u64 n; u32 k; s.mem.rawRead(a-32,&n,8); s.mem.rawRead(a-24,&k,4);
    if(k&0x80000000u) die(s,"memory","double release of heap memory");
    if(k!=kind) die(s,"memory","mismatched allocation and release functions");
    for(size_t i=0;i<s.fc.size();i++) if(s.fc[i]->home>a && s.fc[i]->home<=a+n && s.fc[i]->st!=3){ 
        if(s.fc[i]->st==2) die(s,"memory","release of the stack of the running fiber");
        killFctx(s,i); }
    if(CF.hb) { u64 m=std::min<u64>(n,4096); (void)m; }
    s.mem.drop(a,n); k|=0x80000000u; s.mem.rawWrite(a-24,&k,4,false); s.live[kind%6]--; 
    s.mem.rawWrite(a-32,&n,8,false);
}
// ---------------------------------------------------------------- frames
static void pushFrame(State& s,FCtx* c,Func* f,const Val* args,u32 n){
    compileFunc(f); f->executed++;
    if(c->fr.size()>600) die(s,"limit","call depth exceeds 600 (unbounded recursion)");
    Frame* fr=new Frame; fr->f=f; fr->r.resize(f->nslots); for(u32 i=0;i<n&&i<f->nargs;i++) fr->r[i]=args[i]; c->fr.push_back(Ref<Frame>(fr));
}
static void popFrame(State& s,FCtx* c){ for(auto&al:c->fr.back()->al) s.mem.drop(al.a,al.n); c->fr.pop_back(); }
static void takeEdge(Frame* fr,const Edge& e){
    Val* R=fr->r.data(); const Val* K=fr->f->consts.data();
    auto get=[&](i32 o)->Val{ return o>=0?R[o]:K[~o]; };
    if(!e.overlap){ for(auto&m:e.mv) R[m.first]=get(m.second); }
    else { static std::vector<Val> t; t.clear(); for(auto&m:e.mv) t.push_back(get(m.second)); for(size_t i=0;i<e.mv.size();i++) R[e.mv[i].first]=t[i]; }
    fr->pc=e.pc;
}
static void completeCall(Frame* fr,const Val* v,u32 n){ Inst& I=fr->f->code[fr->pc]; for(u32 i=0;i<n&&i<I.w;i++) fr->r[I.d+i]=v[i]; if(I.b>=0) takeEdge(fr,fr->f->edges[I.b]); else fr->pc++; }

// ---------------------------------------------------------------- exceptions
static bool tiMatch(State& s,u64 c,u64 t,u64 obj,u64& adj,int depth=0){
    if(c==0||c==t){ adj=obj; return true; } if(depth>8) return false;
    u64 vt=rd64(s,t);
    if(PR.vtSi && vt==PR.vtSi+16) return tiMatch(s,c,rd64(s,t+16),obj,adj,depth+1);
    if(PR.vtVmi && vt==PR.vtVmi+16){ u32 n; s.mem.rawRead(t+20,&n,4); for(u32 i=0;i<n;i++){ u64 bt=rd64(s,t+24+16*i); i64 of=(i64)rd64(s,t+32+16*i); i64 off=of>>8; if(!(of&2)) continue; if(of&1){ u64 vtp=rd64(s,obj); off=(i64)rd64(s,vtp+off); } if(tiMatch(s,c,bt,obj+off,adj,depth+1)) return true; } }
    return false;
}
// returns: 0 nothing, 1 cleanup, 2 handler ; sel
static int lpadCheck(State& s,Frame* fr,u64 exc,u64& sel,u64& adj){
    Inst& ci=fr->f->code[fr->pc]; if(ci.op!=O_CALL||ci.c<0) return 0; Edge& e=fr->f->edges[ci.c]; Inst& lp=fr->f->code[e.pc]; if(lp.op!=O_LPAD) engineError(s,"unwind edge without landing pad");
    u64 ti=rd64(s,exc-64), obj=rd64(s,exc-8); const Val* K=fr->f->consts.data();
    for(u32 i=0;i<lp.naux;){ i32 ty=fr->f->aux[lp.aux+i]; 
        if(ty==0){ u64 c=K[~fr->f->aux[lp.aux+i+1]].c; if(tiMatch(s,c,ti,obj,adj)){ sel=c?(u32)c:1; return 2; } i+=2; }
        else { u32 n=fr->f->aux[lp.aux+i+1]; bool any=false; for(u32 k=0;k<n;k++) if(tiMatch(s,K[~fr->f->aux[lp.aux+i+2+k]].c,ti,obj,adj)) any=true; if(!any){ sel=(u32)-1; adj=obj; return 2; } i+=2+n; } }
    if(lp.fl){ sel=0; return 1; } return 0;
}
static void unwindTo(State& s,u64 exc,size_t from){ // continue phase 2 from frame index `from` downwards
    FCtx* c=s.fc[s.th[s.cur].fctx].own();
    for(size_t i=from+1;i-->0;){ u64 sel,adj=0; int r=lpadCheck(s,c->fr[i].p,exc,sel,adj);
        if(r){ while(c->fr.size()>i+1) popFrame(s,c); Frame* fr=c->fr.back().own(); Inst& ci=fr->f->code[fr->pc]; Edge& e=fr->f->edges[ci.c]; takeEdge(fr,e); Inst& lp=fr->f->code[fr->pc]; fr->r[lp.d]=Val(exc); fr->r[lp.d+1]=Val(sel); if(r==2) s.mem.rawWrite(exc-48,&adj,8,true); fr->pc++; return; } }
    die(s,"terminate","exception leaves the bottom of a stack");
}
static void doThrow(State& s,u64 exc){
    FCtx* c=s.fc[s.th[s.cur].fctx].p; bool h=false; for(size_t i=c->fr.size();i-->0;){ u64 sel,adj; if(lpadCheck(s,c->fr[i].p,exc,sel,adj)==2){ h=true; break; } }
    if(!h){ if(s.expectTerm) throw PathEnd{5}; u64 ti=rd64(s,exc-64); std::string nm=rdStr(s,rd64(s,ti+8)); die(s,"terminate","uncaught exception of type "+dem("_Z"+nm).substr(0,80)+" ("+nm+"): std::terminate"); }
    unwindTo(s,exc,c->fr.size()-1);
}
// ---------------------------------------------------------------- forking
static State* forkState(State& s){ State* n=new State(s); RS.forks++; RS.states++; n->forks++; s.forks++; return n; }
static bool concretize(State& s,Val& v,u8 w){ // pc of the running frame must be saved; the other values go to a sibling re-executing the instruction
    u64 x=evalE(v.e,s.model); const Expr* eq=asE(xbin(EEq,v,Val(x),v.e->w),1); Val ne=xnot1(Val(0,eq));
    if(ne.e){ std::vector<std::pair<u32,u64>> m; if(sat(s,ne.e,&m)){ State* o=forkState(s); setModel(*o,m); addPC(*o,ne.e); WL.push_back(o); } }
    else if(ne.c){ }
    if(eq->op!=EConst) addPC(s,eq); v=Val(x); return true;
}
// ---------------------------------------------------------------- threads
static void switchIn(State& s,int t,bool timeout){
    Thread& T=s.th[t]; if(T.st==1){ T.st=0; T.wres=timeout?1:0; }
    if(t!=s.cur){ s.th[s.cur].yielded=0; RS.switches++; }
    s.cur=t; T.yielded=0; T.spun=0; T.wait=0; for(auto&u:s.th) u.wait&=~(1u<<t);
    FCtx* c=s.fc[T.fctx].own(); Frame* fr=c->fr.back().own();
    if(T.pend==1 && CF.por && !T.touched){ T.pend=0; throw PathEnd{4}; }
    T.pend=0;
    Inst& I=fr->f->code[fr->pc];
    if(I.op==O_CALL && T.timed!=9){ Val r(T.wres); completeCall(fr,&r,1); }
    T.timed=0; T.wres=0;
}
struct Opt { int t; bool to; bool pre; };
// a thread that has yielded is not scheduled again before the threads that were runnable then
static void fair(State& s,std::vector<Opt>& op,bool must){
    unsigned run=0; for(size_t t=0;t<s.th.size();t++) if(s.th[t].st==0) run|=1u<<t;
    std::vector<Opt> k; for(auto&o:op) if(o.to || !(s.th[o.t].wait & run & ~(1u<<o.t))) k.push_back(o);
    bool real=false; for(auto&o:k) if(!o.to) real=true;
    if(real||!must) op.swap(k); }
static void noteSwitch(State& s,int t,bool to){ SwList* n=new SwList; n->seq=s.seq; n->tid=(u8)(t|(to?0x80:0)); n->up=std::move(s.sw); s.sw=Ref<SwList>(n); }
static void markTouch(State& s,int by,u64 addr,int kind){ for(size_t t=0;t<s.th.size();t++) if((int)t!=by){ Thread& T=s.th[t]; if(T.pend && !T.touched && (T.paddr>>3)==(addr>>3) && (T.pkind||kind)) T.touched=1; } }
static void applyOpt(State& s,const Opt& o,bool stay){ if(stay) return; noteSwitch(s,o.t,o.to); if(o.pre) s.preempt++; switchIn(s,o.t,o.to); }
// explore all options from the current state; `stayOk`: current thread may just continue (its call must then be completed by the caller)
static bool schedule(State& s,bool stayOk,std::vector<Opt>& op){ // returns true if current continues
    // fork for all but the first alternative
    size_t n=op.size()+(stayOk?1:0); if(n==0) return false;
    for(size_t i=(stayOk?0:1);i<op.size();i++){ State* o=forkState(s); try{ applyOpt(*o,op[i],false); WL.push_back(o); } catch(PathEnd& e){ if(e.why==4) RS.pruned++; delete o; } }
    if(stayOk) return true;
    applyOpt(s,op[0],false); return false;
}
static bool allDone(State& s){ for(auto&t:s.th) if(t.st!=2) return false; return true; }
// a single schedule where only the data matters: the next thread in turn
static void oneOf(State& s,std::vector<Opt>& op){ if(!CF.one||op.size()<2) return; size_t n=s.th.size(),b=0; for(size_t i=1;i<op.size();i++) if((op[i].t+n-s.cur)%n<(op[b].t+n-s.cur)%n) b=i; op[0]=op[b]; op.resize(1); }
static void blockedSwitch(State& s){ // current thread cannot continue
    std::vector<Opt> op; for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur && s.th[t].st==0) op.push_back({(int)t,false,false});
    bool anyRun=!op.empty();
    for(size_t t=0;t<s.th.size();t++) if(s.th[t].st==1&&s.th[t].timed){ if(!anyRun) op.push_back({(int)t,true,false}); else if((int)s.preempt<CF.pb&&s.th[t].timed==1) op.push_back({(int)t,true,true}); }
    if(op.empty()) die(s,"deadlock","all threads are blocked: a wakeup was lost or never sent");
    fair(s,op,true); oneOf(s,op); schedule(s,false,op);
}
static int newThread(State& s,Func* f,const Val* args,u32 n){
    FCtx* c=new FCtx; c->st=2; s.fc.push_back(Ref<FCtx>(c)); Thread T; T.fctx=s.fc.size()-1; T.timed=9; 
    int id=s.th.size(); if(id>=CF.maxThreads) engineError(s,"too many threads");
    if(id) { T.vc=s.th[s.cur].vc; s.th[s.cur].vc[s.cur]++; } T.vc.resize(8,0); T.vc[id]=1; 
    s.th.push_back(T);
    u64 tb=TLS_BASE+id*TLS_STRIDE; s.mem.mark(tb,PR.tlsSize,false,false);
    for(u64 i=0;i<PR.tlsSize;i++) if(PR.tlsInit[i]) s.mem.rawWrite(tb+i,&PR.tlsImage[i],1,true);
    pushFrame(s,c,f,args,n); return id;
}
static void sample(State& s){
    RS.sampleSeen++; if((int)RS.samples.size()<CF.nsamples) RS.samples.push_back(pathJson(s,s.model));
    else if(CF.nsamples){ u64 k=((u64)rnd()<<16^rnd())%RS.sampleSeen; if(k<(u64)CF.nsamples) RS.samples[k]=pathJson(s,s.model); }
}
static int findToken(State& s,u64 tok){ for(size_t i=0;i<s.fc.size();i++) if(s.fc[i]->token==tok && (s.fc[i]->st==0||s.fc[i]->st==1)) return i; return -1; }
static float asF(u64 v){ float f; u32 x=(u32)v; memcpy(&f,&x,4); return f; } static double asD(u64 v){ double f; memcpy(&f,&v,8); return f; }
static u64 fromF(float f){ u32 x; memcpy(&x,&f,4); return x; } static u64 fromD(double f){ u64 x; memcpy(&x,&f,8); return x; }

// ---------------------------------------------------------------- the interpreter
static bool overBudget();
static void run(State& s){
  FCtx* c; Frame* fr; Val* R; const Val* K; Inst* code; u32 pc;
#define GET(o) ((o)>=0?R[o]:K[~(o)])
#define SAVE fr->pc=pc
#define CONC(o,w) do{ if((o)>=0 && R[o].e){ SAVE; Val v_=R[o]; concretize(s,v_,w); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); fr->r[o]=v_; goto reload; } }while(0)
reload:
  c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); R=fr->r.data(); K=fr->f->consts.data(); code=fr->f->code.data(); pc=fr->pc;
  for(;;){
    Inst& I=code[pc]; fr->f->cov[pc]=1;
    if(!(s.insns&8191) && overBudget()){ RS.incomplete=true; RS.incWhy="budget"; throw PathEnd{6}; }
    if(++s.insns>CF.maxInsn){ SAVE; die(s,"no-progress","no completion within the step bound ("+std::to_string(CF.maxInsn)+" instructions)"); }
    switch(I.op){
    case O_NOP: pc++; break;
    case O_BIN: { Val a=GET(I.a),b=GET(I.b); 
        if(!a.e&&!b.e){ if((I.w2==EUDiv||I.w2==ESDiv||I.w2==EURem||I.w2==ESRem)&&b.c==0){ SAVE; die(s,"arith","division by zero"); } if(I.w2==EAdd) R[I.d]=Val((a.c+b.c)&maskw(I.w)); else R[I.d]=Val(cfold((EOp)I.w2,a.c,b.c,I.w)); }
        else { if((I.w2==EUDiv||I.w2==ESDiv||I.w2==EURem||I.w2==ESRem)){ CONC(I.b,I.w); if(b.c==0&&!b.e){ SAVE; die(s,"arith","division by zero"); } } R[I.d]=xbin((EOp)I.w2,a,b,I.w); }
        pc++; break; }
    case O_CMP: { Val a=GET(I.a),b=GET(I.b); Val r=(!a.e&&!b.e)?Val(cfold((EOp)I.w2,a.c,b.c,I.w)):xbin((EOp)I.w2,a,b,I.w); if(I.fl) r=xnot1(r); R[I.d]=r; pc++; break; }
    case O_TRUNC: { Val a=GET(I.a); R[I.d]= a.e? xextract(a,I.w,0,I.w2) : Val(a.c&maskw(I.w2)); pc++; break; }
    case O_ZEXT: { Val a=GET(I.a); R[I.d]= a.e? xzext(a,I.w,I.w2) : a; pc++; break; }
    case O_SEXT: { Val a=GET(I.a); R[I.d]= xsext(a,I.w,I.w2); pc++; break; }
    case O_SELECT: { Val k=GET(I.a); R[I.d]= k.e? xite(k,GET(I.b),GET(I.c),I.w) : (k.c? GET(I.b):GET(I.c)); pc++; break; }
    case O_MOVE: R[I.d]=GET(I.a); pc++; break;
    case O_GEPIDX: { Val a=GET(I.a),b=GET(I.b); if(!a.e&&!b.e) R[I.d]=Val(a.c+(u64)sextw(b.c,I.w)*I.imm); else R[I.d]=xbin(EAdd,a,xbin(EMul,xsext(b,I.w,64),Val(I.imm),64),64); pc++; break; }
    case O_LOAD: { CONC(I.a,64); u64 a=GET(I.a).c+I.imm; SAVE; 
        if(CF.hb){ hbAccess(s,a,I.w2,false,I.fl!=0); if(I.fl) hbAtomic(s,a,true,false,I.fl); }
        Val v=loadB(s,a,I.w2); if(I.w<I.w2*8) v=v.e?xextract(v,I.w2*8,0,I.w):Val(v.c&maskw(I.w)); R[I.d]=v; pc++; break; }
    case O_STORE: { CONC(I.a,64); u64 a=GET(I.a).c+I.imm; SAVE; Val v=GET(I.b); if(v.e&&I.w<I.w2*8) v=xzext(v,I.w,I.w2*8); 
        if(CF.hb){ hbAccess(s,a,I.w2,true,I.fl!=0); if(I.fl) hbAtomic(s,a,false,true,I.fl); }
        storeB(s,a,I.w2,v); pc++; break; }
    case O_CMPXCHG: { CONC(I.a,64); u64 a=GET(I.a).c; SAVE; Val old=loadB(s,a,I.w2); Val eq=xbin(EEq,old,GET(I.b),I.w2*8);
        if(eq.e){ // decide by forking
            u64 x=evalE(eq.e,s.model); Val other=x?xnot1(eq):eq; std::vector<std::pair<u32,u64>> m; if(other.e&&sat(s,other.e,&m)){ State* o=forkState(s); setModel(*o,m); addPC(*o,other.e); WL.push_back(o); addPC(s,x?eq.e:xnot1(eq).e); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); R=fr->r.data(); } eq=Val(x); }
        if(CF.hb){ hbAccess(s,a,I.w2,eq.c,true); hbAtomic(s,a,true,eq.c,eq.c?I.fl:(u8)(I.imm&255)); }
        if(eq.c) storeB(s,a,I.w2,GET(I.c)); R[I.d]=old; R[I.d+1]=Val(eq.c); pc++; break; }
    case O_RMW: { CONC(I.a,64); u64 a=GET(I.a).c; SAVE; if(CF.hb){ hbAccess(s,a,I.w2,true,true); hbAtomic(s,a,true,true,I.fl); }
        Val old=loadB(s,a,I.w2), v=GET(I.b), n; u8 w=I.w2*8; switch(I.imm){ case 0:n=v;break; case 1:n=xbin(EAdd,old,v,w);break; case 2:n=xbin(ESub,old,v,w);break; case 3:n=xbin(EAnd,old,v,w);break; case 4:n=xbin(EOr,old,v,w);break; default:n=xbin(EXor,old,v,w); }
        storeB(s,a,I.w2,n); R[I.d]=old; pc++; break; }
    case O_FENCE: { if(CF.hb&&s.th.size()>1){ HBObj& h=HB(s); auto&T=s.th[s.cur]; if(ordAcq(I.fl)) vcJoin(T.vc,h.m[(1ull<<60)|s.cur]); if(ordRel(I.fl)){ h.m[(1ull<<61)|s.cur]=T.vc; T.vc[s.cur]++; } if(I.fl-1==7){ vcJoin(h.sc,T.vc); T.vc=h.sc; h.m[(1ull<<61)|s.cur]=T.vc; T.vc[s.cur]++; } } pc++; break; }
    case O_ALLOCA: { u64 al=I.c<16?16:I.c; u64 a=(s.stkTop+16+al-1)/al*al; u64 n=I.imm; s.stkTop=a+n+8; if(s.stkTop>=ADDR_END){ SAVE; engineError(s,"stack arena exhausted"); } s.mem.mark(a,n,true,false); fr->al.push_back({a,(u32)n}); R[I.d]=Val(a); pc++; break; }
    case O_BR: fr->pc=pc; takeEdge(fr,fr->f->edges[I.imm]); pc=fr->pc; break;
    case O_CBR: { Val k=GET(I.a); 
        if(k.e){ SAVE; u64 x=evalE(k.e,s.model); Val other=x?xnot1(k):k; std::vector<std::pair<u32,u64>> m;
            if(!other.e? other.c!=0 : sat(s,other.e,&m)){ State* o=forkState(s); setModel(*o,m); if(other.e) addPC(*o,other.e); FCtx* oc=o->fc[o->th[o->cur].fctx].own(); Frame* of=oc->fr.back().own(); takeEdge(of,of->f->edges[x?I.c:I.b]); WL.push_back(o);
                Val me=x?k:xnot1(k); if(me.e) addPC(s,me.e); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); takeEdge(fr,fr->f->edges[x?I.b:I.c]); goto reload; }
            else SS.evalHits++;
            k=Val(x); }
        takeEdge(fr,fr->f->edges[k.c?I.b:I.c]); pc=fr->pc; break; }
    case O_SWITCH: {
        if(I.a>=0 && R[I.a].e){ SAVE; Val v=R[I.a]; u64 x=evalE(v.e,s.model); i32 e=I.b; for(u32 i=0;i<I.naux;i+=2) if(K[~fr->f->aux[I.aux+i]].c==x){ e=fr->f->aux[I.aux+i+1]; break; }
            Val hit(0); for(u32 i=0;i<I.naux;i+=2) if(fr->f->aux[I.aux+i+1]!=I.b) if(e==I.b||fr->f->aux[I.aux+i+1]==e) hit=xbin(EOr,hit,xbin(EEq,v,Val(K[~fr->f->aux[I.aux+i]].c),v.e->w),1);
            Val me=e==I.b?xnot1(hit):hit, other=xnot1(me); std::vector<std::pair<u32,u64>> m;
            if(!other.e? other.c!=0 : sat(s,other.e,&m)){ State* o=forkState(s); setModel(*o,m); if(other.e) addPC(*o,other.e); WL.push_back(o); }
            if(me.e) addPC(s,me.e); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); takeEdge(fr,fr->f->edges[e]); goto reload; }
        u64 v=GET(I.a).c; i32 e=I.b; for(u32 i=0;i<I.naux;i+=2) if(K[~fr->f->aux[I.aux+i]].c==v){ e=fr->f->aux[I.aux+i+1]; break; } takeEdge(fr,fr->f->edges[e]); pc=fr->pc; break; }
    case O_RET: {
        Val rv[8]; u32 n=std::min<u32>(I.naux,8); for(u32 i=0;i<n;i++) rv[i]=GET(fr->f->aux[I.aux+i]); SAVE;
        popFrame(s,c);
        if(c->fr.empty()){
            if(c->entry){ Func* e=c->entry; c->entry=nullptr; pushFrame(s,c,e,rv,n); goto reload; }
            Thread& T=s.th[s.cur]; if(c->home) die(s,"context","fiber entry function returned");
            T.st=2; c->st=3; if(s.cur==0){ throw PathEnd{0}; }
            s.seq++; u64 ja=TLS_BASE+s.cur*TLS_STRIDE+8; for(size_t t=0;t<s.th.size();t++) if(s.th[t].st==1&&s.th[t].baddr==ja){ s.th[t].st=0; s.th[t].wres=0; }
            markTouch(s,s.cur,ja,1);
            if(CF.hb){ vcJoin(HB(s).m[ja],T.vc); }
            blockedSwitch(s); goto reload;
        }
        { Frame* cf=c->fr.back().own(); completeCall(cf,rv,n); } goto reload; }
    case O_UNREACHABLE: SAVE; die(s,"unreachable","reached code the compiler proved unreachable (undefined behaviour)");
    case O_TRAP: SAVE; die(s,"trap","trap / abort");
    case O_UNSUP: SAVE; engineError(s,std::string("unsupported instruction ")+(const char*)I.imm);
    case O_LPAD: pc++; break;
    case O_RESUME: { SAVE; u64 exc=GET(I.a).c; if(c->fr.size()<2) die(s,"terminate","exception leaves the bottom of a stack"); u64 e=exc; size_t top=c->fr.size()-1; unwindTo(s,e,top-1); goto reload; }
    case O_TLS: { R[I.d]=Val(TLS_BASE+(u64)s.cur*TLS_STRIDE+GET(I.a).c); pc++; break; }
    case O_TYPEID: { u64 a=GET(I.a).c; R[I.d]=Val(a?(u32)a:1); pc++; break; }
    case O_MEMCPY: { CONC(I.a,64); CONC(I.b,64); CONC(I.c,64); SAVE; u64 d=GET(I.a).c, sr=GET(I.b).c, n=GET(I.c).c;
        if(n>(1u<<22)) engineError(s,"huge memcpy"); if(CF.hb&&n){ hbAccess(s,sr,n,false,false); hbAccess(s,d,n,true,false); }
        auto one=[&](u64 i){ Page* q=s.mem.rd(sr+i); u64 k=(sr+i)&255; if(!q||!(q->ok[k>>6]>>(k&63)&1)) badAccess(s,sr+i,false); bool ini=q->ini[k>>6]>>(k&63)&1; Val b=ini?((q->sym&&q->sym[k])?Val(0,q->sym[k]):Val(q->data[k])):Val(0); storeB(s,d+i,1,b); if(!ini){ Page* z=s.mem.wr(d+i); u64 o=(d+i)&255; z->ini[o>>6]&=~(1ull<<(o&63)); } };
        if(d<=sr||d>=sr+n) for(u64 i=0;i<n;i++) one(i); else for(u64 i=n;i-->0;) one(i);
        pc++; break; }
    case O_MEMSET: { CONC(I.a,64); CONC(I.c,64); SAVE; u64 d=GET(I.a).c,n=GET(I.c).c; Val v=GET(I.b); if(n>(1u<<22)) engineError(s,"huge memset"); if(CF.hb&&n) hbAccess(s,d,n,true,false); for(u64 i=0;i<n;i++) storeB(s,d+i,1,v); pc++; break; }
    case O_OVF: { Val a=GET(I.a),b=GET(I.b); if(a.e){ CONC(I.a,I.w); } if(b.e){ CONC(I.b,I.w); } u8 w=I.w; u64 m=maskw(w); bool o=false; u64 r=0; __int128 sa=sextw(a.c,w),sb=sextw(b.c,w),sr; unsigned __int128 ur;
        switch(I.imm){ case 0: ur=(unsigned __int128)a.c+b.c; r=(u64)ur&m; o=ur>m; break; case 1: r=(a.c-b.c)&m; o=a.c<b.c; break; case 2: ur=(unsigned __int128)a.c*b.c; r=(u64)ur&m; o=ur>m; break; default: sr= I.imm==3?sa+sb: I.imm==4?sa-sb: sa*sb; r=(u64)sr&m; o= (__int128)sextw(r,w)!=sr; }
        R[I.d]=Val(r); R[I.d+1]=Val(o); pc++; break; }
    case O_BITOP: { if(GET(I.a).e){ Val a=GET(I.a), r; unsigned w=I.w;
            if(I.imm==2){ // divide and conquer popcount
                static const u64 m1[3]={0x5555555555555555ull,0x3333333333333333ull,0x0f0f0f0f0f0f0f0full}; r=a;
                for(int k=0;k<3&&(1u<<k)<w;k++){ Val lo=xbin(EAnd,r,Val(m1[k]&maskw(w)),w), hi=xbin(EAnd,xbin(ELShr,r,Val(1ull<<k),w),Val(m1[k]&maskw(w)),w); r=xbin(EAdd,lo,hi,w); }
                if(w>8){ Val t=xextract(r,w,0,8); for(unsigned o=8;o<w;o+=8) t=xbin(EAdd,t,xextract(r,w,o,8),8); r=xzext(t,8,w); }
                R[I.d]=r; pc++; break; }
            if(I.imm==0||I.imm==1){ r=Val(w); for(unsigned i=0;i<w;i++){ unsigned b= I.imm==0? i : w-1-i; r=xite(xextract(a,w,b,1),Val(I.imm==0?w-1-b:b),r,w); } R[I.d]=r; pc++; break; }
            { r=xextract(a,w,0,8); unsigned rw=8; for(unsigned o=8;o<w;o+=8){ r=xconcat(r,rw,xextract(a,w,o,8),8); rw+=8; } R[I.d]=r; pc++; break; } }
        CONC(I.a,I.w); u64 v=GET(I.a).c; u64 r=0; switch(I.imm){ case 0: r=v?__builtin_clzll(v)-(64-I.w):I.w; break; case 1: r=v?__builtin_ctzll(v):I.w; break; case 2: r=__builtin_popcountll(v); break; default: r=__builtin_bswap64(v)>>(64-I.w); } R[I.d]=Val(r); pc++; break; }
    case O_MINMAX: { Val a=GET(I.a),b=GET(I.b); u8 w=I.w; Val r; switch(I.imm){ case 0: r=xite(xbin(EUlt,a,b,w),b,a,w); break; case 1: r=xite(xbin(EUlt,a,b,w),a,b,w); break; case 2: r=xite(xbin(ESlt,a,b,w),b,a,w); break; case 3: r=xite(xbin(ESlt,a,b,w),a,b,w); break; case 4: r=xite(xbin(ESlt,a,Val(0),w),xbin(ESub,Val(0),a,w),a,w); break; case 5: r=xite(xbin(EUlt,a,b,w),Val(0),xbin(ESub,a,b,w),w); break; default: { Val t=xbin(EAdd,a,b,w); r=xite(xbin(EUlt,t,a,w),Val(maskw(w)),t,w); } } R[I.d]=r; pc++; break; }
    case O_FBIN: { CONC(I.a,I.w); CONC(I.b,I.w); u64 a=GET(I.a).c,b=GET(I.b).c; if(I.w==32){ float x=asF(a),y=asF(b); R[I.d]=Val(fromF(I.imm==0?x+y:I.imm==1?x-y:I.imm==2?x*y:x/y)); } else { double x=asD(a),y=asD(b); R[I.d]=Val(fromD(I.imm==0?x+y:I.imm==1?x-y:I.imm==2?x*y:x/y)); } pc++; break; }
    case O_FCMP: { CONC(I.a,I.w); CONC(I.b,I.w); double x=I.w==32?asF(GET(I.a).c):asD(GET(I.a).c), y=I.w==32?asF(GET(I.b).c):asD(GET(I.b).c); bool un=std::isnan(x)||std::isnan(y); int p=I.imm; bool r= ((p&1)&&x==y)||((p&2)&&x>y)||((p&4)&&x<y)||((p&8)&&un); R[I.d]=Val(r); pc++; break; }
    case O_FCAST: { CONC(I.a,I.w); u64 a=GET(I.a).c; u64 r=0; switch(I.imm){ case 0: r=I.w2==32?fromF((float)a):fromD((double)a); break; case 1: r=I.w2==32?fromF((float)sextw(a,I.w)):fromD((double)sextw(a,I.w)); break; case 2: r=(u64)(I.w==32?asF(a):asD(a))&maskw(I.w2); break; case 3: r=(u64)(i64)(I.w==32?asF(a):asD(a))&maskw(I.w2); break; default: { double x=I.w==32?asF(a):asD(a); r=I.w2==32?fromF((float)x):fromD(x); } } R[I.d]=Val(r); pc++; break; }
    case O_PAUSE: case O_CALL: {
        SAVE; int ir=-1; Func* f=nullptr;
        if(I.op==O_PAUSE) ir=I_vf_yield;
        else {
            if(I.imm!=~0ull) f=PR.funcs[I.imm]; else { CONC(I.a,64); auto it=PR.byAddr.find(GET(I.a).c); if(it==PR.byAddr.end()) die(s,"memory","call through an invalid function pointer"); f=it->second; }
            if(!f->defined){ ir=f->intrin; if(ir<0) engineError(s,"unmodelled function "+f->name+" "+dem(f->name)); }
        }
        if(ir<0){
            Val av[32]; u32 n=I.naux; if(n>32) engineError(s,"too many arguments"); for(u32 i=0;i<n;i++) av[i]=GET(fr->f->aux[I.aux+i]);
            pushFrame(s,c,f,av,n); goto reload;
        }
        auto A=[&](u32 i){ return GET(fr->f->aux[I.aux+i]); };
#define CA(i) CONC(fr->f->aux[I.aux+i],64)
        Val res; 
        switch(ir){
        case I_vf_is_engine: res=Val(1); break;
        case I_vf_malloc: { CA(0); CA(1); CA(2); res=Val(heapAlloc(s,A(0).c,A(1).c,A(2).c)); break; }
        case I_vf_free: { CA(0); heapFree(s,A(0).c,A(1).c); break; }
        case I_vf_usable: { CA(0); res=Val(rd64(s,A(0).c-32)); break; }
        case I_vf_live: { res=Val(s.live[A(0).c%6]); break; }
        case I_vf_heap_ok: { CA(0); Page* q=s.mem.rd(A(0).c); u64 k=A(0).c&255; res=Val(q&&(q->ok[k>>6]>>(k&63)&1)); break; }
        case I_vf_protect: { CA(0); CA(1); u64 a=A(0).c,n=A(1).c; if(A(2).c) s.mem.mark(a,n,true,true); else s.mem.mark(a,n,false,false); break; }
        case I_vf_sym: { std::string nm=rdStr(s,A(0).c); u8 w=A(1).c; Val v=symVar(s,nm,w); res=xzext(v,w,64); break; }
        case I_vf_is_sym: res=Val(A(0).e!=nullptr); break;
        case I_vf_assume: { Val v=A(0); if(!v.e){ if(!(v.c&1)) throw PathEnd{1}; break; } Val k=v.e->w==1?v:xextract(v,v.e->w,0,1);
            if(!k.e){ if(!k.c) throw PathEnd{1}; break; }
            if(!evalE(k.e,s.model)){ std::vector<std::pair<u32,u64>> m; if(!sat(s,k.e,&m)) throw PathEnd{1}; setModel(s,m); } addPC(s,k.e); break; }
        case I_vf_check: { Val v=A(0); RS.checks++; Val k=v.e&&v.e->w!=1?xextract(v,v.e->w,0,1):Val(v.c&1,v.e); 
            if(!k.e){ if(!k.c){ violation(s,"check",rdStr(s,A(1).c)); throw PathEnd{2}; } break; }
            RS.checksSym++; Val nk=xnot1(k); std::vector<std::pair<u32,u64>> m;
            if(!evalE(k.e,s.model)){ violation(s,"check",rdStr(s,A(1).c)); if(!sat(s,k.e,&m)) throw PathEnd{2}; setModel(s,m); addPC(s,k.e); }
            else if(nk.e && sat(s,nk.e,&m)){ State t(s); setModel(t,m); addPC(t,nk.e); violation(t,"check",rdStr(s,A(1).c)); addPC(s,k.e); goto afterfork; }
            break;
            afterfork: c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); R=fr->r.data(); break; }
        case I_vf_fail: violation(s,"check",rdStr(s,A(0).c)); throw PathEnd{2};
        case I_vf_end: throw PathEnd{1};
        case I_vf_bound: RS.bounds[rdStr(s,A(0).c)]++; throw PathEnd{3};
        case I_vf_reach: RS.reach[rdStr(s,A(0).c)]++; break;
        case I_vf_log: { std::string t=rdStr(s,A(0).c); auto it=tagIdx.find(t); u32 id; if(it==tagIdx.end()){ id=tags.size(); tags.push_back(t); tagIdx[t]=id; } else id=it->second; LogList* n=new LogList; n->r=LogRec{id,A(1)}; n->up=std::move(s.log); s.log=Ref<LogList>(n); break; }
        case I_vf_choice: { std::string nm=rdStr(s,A(0).c); CA(1); u64 n=A(1).c; if(n==0) throw PathEnd{1}; Val v=symVar(s,nm,8); u32 id=v.e->k; 
            for(u64 i=n;i-->1;){ State* o=forkState(s); o->model[id]=i; addPC(*o,asE(xbin(EEq,v,Val(i),8),1)); FCtx* oc=o->fc[o->th[o->cur].fctx].own(); Frame* of=oc->fr.back().own(); Val r(i); completeCall(of,&r,1); WL.push_back(o); }
            addPC(s,asE(xbin(EEq,v,Val(0),8),1)); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); Val r(0); completeCall(fr,&r,1); goto reload; }
        case I_vf_concrete: { CA(0); res=A(0); break; }
        case I_vf_expect_terminate: s.expectTerm=A(0).c; break;
        case I_vf_terminate: if(s.expectTerm) throw PathEnd{5}; die(s,"terminate",rdStr(s,A(0).c));
        case I_vf_throw: { u64 e=A(0).c; doThrow(s,e); goto reload; }
        case I_make_fcontext: { CA(0); CA(1); u64 sp=A(0).c; u64 fn=A(2).c; FCtx* n=new FCtx; n->home=sp; n->entry=PR.byAddr.at(fn); n->token=(s.tokTop+=16); s.fc.push_back(Ref<FCtx>(n)); res=Val(n->token);
            // the stack memory handed over must be usable
            u64 sz=A(1).c; if(sz<64) die(s,"memory","fiber stack too small"); for(u64 x : {sp-8, sp-64, sp-(sz<1024?sz:1024)}) { Page* q=s.mem.rd(x); u64 k=x&255; if(!q||!(q->ok[k>>6]>>(k&63)&1)) badAccess(s,x,true); }
            c=s.fc[s.th[s.cur].fctx].p; break; }
        case I_jump_fcontext: case I_ontop_fcontext: {
            CA(0); u64 tok=A(0).c; Val vp=A(1); Func* of= ir==I_ontop_fcontext? PR.byAddr.at(A(2).c):nullptr; int k=findToken(s,tok); if(k<0) die(s,"context","resumption of a context that is not suspended (already resumed, finished or released)");
            u64 mytok=(s.tokTop+=16); c->token=mytok; c->st=1; s.th[s.cur].fctx=k; FCtx* t=s.fc[k].own(); t->token=0; Val tv[2]={Val(mytok),vp}; bool fresh=t->st==0; t->st=2;
            if(of){ pushFrame(s,t,of,tv,2); }
            else if(fresh){ Func* e=t->entry; t->entry=nullptr; pushFrame(s,t,e,tv,2); }
            else { completeCall(t->fr.back().own(),tv,2); }
            goto reload; }
        case I_vf_fctx_live: { u64 n=0; for(auto&f:s.fc) if(f->home&&f->st!=3) n++; res=Val(n); break; }
        // ---- threads
        case I_vf_thread_self: res=Val(s.cur); break;
        case I_vf_join_addr: res=Val(TLS_BASE+A(0).c*TLS_STRIDE+8); break;
        case I_vf_thread_spawn: { Func* tm=PR.byName.at("__vf_thread_main"); Val av[2]={A(0),A(1)}; int id=newThread(s,tm,av,2); c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); R=fr->r.data(); res=Val(id); break; }
        case I_vf_thread_done: { u64 t=A(0).c; res=Val(s.th[t].st==2); if(res.c&&CF.hb) vcJoin(s.th[s.cur].vc,HB(s).m[TLS_BASE+t*TLS_STRIDE+8]); break; }
        case I_vf_hb_acq: if(CF.hb&&s.th.size()>1) vcJoin(s.th[s.cur].vc,HB(s).m[A(0).c]); break;
        case I_vf_hb_rel: if(CF.hb&&s.th.size()>1){ vcJoin(HB(s).m[A(0).c],s.th[s.cur].vc); s.th[s.cur].vc[s.cur]++; } break;
        case I_vf_exempt: exemptRanges.push_back({A(0).c,A(1).c}); break;
        case I_vf_vaddr: res=Val(0); break;
        case I_vf_hint: { Val v=A(0); const Expr* e=v.e; while(e&&e->op==EZExt) e=e->a; if(e&&e->op==EVar){ u32 id=e->k; u64 x=A(1).e?evalE(A(1).e,s.model):A(1).c; if(s.model.size()<=id) s.model.resize(id+1,0); s.model[id]=x&maskw(e->w); } break; } // value proposed for a fresh variable; no constraint
        case I_vf_point: {
            if(s.th.size()>1){ 
                s.seq++; CA(0); u64 ad=A(0).c; int kind=A(1).c; RS.points++;
                ptAcc[ad>>3]|= (1u<<s.cur)<<(kind?8:0);
                Thread& T=s.th[s.cur];
                bool vis=!useFilter||sharedFilter.count(ad>>3);
                ++T.spun; bool forced= vis? ++T.yielded>CF.quantum : T.spun>CF.quantum*20; // fairness: a thread that spins lets the others run
                if(vis||forced){
                    std::vector<Opt> op; if(forced){ T.wait=0; T.spun=0; for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur && s.th[t].st==0) T.wait|=1u<<t; }
                    if((int)s.preempt<CF.pb||forced){ for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur){ if(s.th[t].st==0) op.push_back({(int)t,false,!forced}); else if(s.th[t].st==1&&s.th[t].timed==1) op.push_back({(int)t,true,!forced}); } }
                    fair(s,op,forced); if(forced) oneOf(s,op);
                    if(!op.empty()){
                        u8 sp=T.pend,st=T.touched; T.pend=forced?2:1; T.touched=0; T.paddr=ad; T.pkind=kind; T.wres=0; T.timed=0;
                        if(forced){ T.yielded=0; schedule(s,false,op); goto reload; }
                        schedule(s,true,op); // clones carry pend
                        Thread& T2=s.th[s.cur]; T2.pend=sp; T2.touched=st;
                        markTouch(s,s.cur,ad,kind);
                        c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); completeCall(fr,nullptr,0); goto reload;
                    }
                    markTouch(s,s.cur,ad,kind);
                }
            } break; }
        case I_vf_yield: {
            Thread& T=s.th[s.cur];
            if(s.th.size()>1){ s.seq++; std::vector<Opt> op; T.wait=0; for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur && s.th[t].st==0){ op.push_back({(int)t,false,false}); T.wait|=1u<<t; }
                bool anyRun=!op.empty(); for(size_t t=0;t<s.th.size();t++) if(s.th[t].st==1&&s.th[t].timed){ if(!anyRun) op.push_back({(int)t,true,false}); else if((int)s.preempt<CF.pb&&s.th[t].timed==1) op.push_back({(int)t,true,true}); }
                fair(s,op,true);
                T.pend=2; T.touched=1; T.wres=0; T.timed= I.op==O_PAUSE?9:0; 
                if(I.op==O_PAUSE) fr->pc++; // resume after the pause
                bool stay=false; if(!anyRun && !op.empty() && T.yielded<3){ stay=true; T.yielded++; }
                if(!op.empty()){ if(schedule(s,stay,op)){ Thread& T2=s.th[s.cur]; T2.pend=0; T2.timed=0; c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); if(I.op!=O_PAUSE) completeCall(fr,nullptr,0); } goto reload; }
                T.pend=0; T.timed=0; if(I.op==O_PAUSE) goto reload;
            } else if(I.op==O_PAUSE){ pc++; fr->pc=pc; continue; }
            break; }
        case I_vf_block: { CA(0); s.seq++; Thread& T=s.th[s.cur]; T.st=1; T.baddr=A(0).c; T.timed=A(1).c; /* 1: may time out at any moment, 2: only once no thread can run */ T.wres=0; T.pend=0;
            if(s.th.size()==1 && !T.timed) die(s,"deadlock","the only thread is blocked: a wakeup was lost or never sent");
            blockedSwitch(s); goto reload; }
        case I_vf_wake: { CA(0); u64 ad=A(0).c; u64 n=A(1).c; std::vector<int> bl; for(size_t t=0;t<s.th.size();t++) if(s.th[t].st==1&&s.th[t].baddr==ad) bl.push_back(t);
            res=Val(std::min<u64>(n,bl.size()));
            if(n>=bl.size()){ for(int t:bl){ s.th[t].st=0; s.th[t].wres=0; } }
            else { Val v=symVar(s,"wakeone",8); u32 id=v.e->k; for(size_t i=1;i<bl.size();i++){ State* o=forkState(s); o->model[id]=i; addPC(*o,asE(xbin(EEq,v,Val(i),8),1)); o->th[bl[i]].st=0; o->th[bl[i]].wres=0; FCtx* oc=o->fc[o->th[o->cur].fctx].own(); completeCall(oc->fr.back().own(),&res,1); WL.push_back(o); }
                addPC(s,asE(xbin(EEq,v,Val(0),8),1)); s.th[bl[0]].st=0; s.th[bl[0]].wres=0; c=s.fc[s.th[s.cur].fctx].own(); fr=c->fr.back().own(); completeCall(fr,&res,1); goto reload; }
            break; }
        default: engineError(s,"intrinsic not implemented: "+f->name);
        }
        completeCall(fr,&res,1); pc=fr->pc; break; }
    default: SAVE; engineError(s,"bad opcode");
    }
  }
}
// ---------------------------------------------------------------- exploration
static void finish(State* s,int why){
    RS.insns+=s->insns; RS.maxInsns=std::max(RS.maxInsns,s->insns); RS.maxSyms=std::max<u64>(RS.maxSyms,s->nsym);
    switch(why){ case 0: RS.paths++; sample(*s); break; case 1: RS.ended++; break; case 2: RS.paths++; break; case 3: RS.bounded++; break; case 4: RS.pruned++; break; case 5: RS.paths++; RS.termOk++; RS.reach["terminated-as-expected"]++; sample(*s); break; }
    delete s;
}
static bool overBudget(){ return (!RS.viol.empty() && now_s()-firstViol>8) || (CF.tlimit>0 && now_s()-T0>CF.tlimit) || (CF.maxPaths && RS.paths>=CF.maxPaths); }
static void step1(State* s){ int why=0; try{ run(*s); } catch(PathEnd& e){ why=e.why; } finish(s,why); }
static void collectFuncs(){
    for(Func* f:PR.funcs) if(f->compiled) for(size_t i=0;i<f->code.size();i++) if(f->cov[i]) for(i32 k=f->code[i].dbg;k>0;k=PR.dbg[k].parent){ auto&L=PR.dbg[k]; const std::string& fl=PR.files[L.file]; if(fl.compare(0,CF.src.size(),CF.src)==0) RS.funcs.insert({PR.fnames[L.func],fl.substr(CF.src.size())}); }
}
static void dump(const std::string& file){
    std::ofstream o(file); o<<"paths "<<RS.paths<<"\nended "<<RS.ended<<"\nbounded "<<RS.bounded<<"\npruned "<<RS.pruned<<"\nforks "<<RS.forks<<"\ninsns "<<RS.insns<<"\npoints "<<RS.points<<"\nswitches "<<RS.switches<<"\nmaxInsns "<<RS.maxInsns<<"\nmaxSyms "<<RS.maxSyms<<"\ntermOk "<<RS.termOk<<"\nchecks "<<RS.checks<<"\nchecksSym "<<RS.checksSym
      <<"\nqueries "<<SS.queries<<"\nsat "<<SS.sat<<"\nunsat "<<SS.unsat<<"\ncacheHits "<<SS.cacheHits<<"\nintq "<<SS.intq<<"\nsolverUs "<<(u64)(SS.secs*1e6)<<"\n";
    for(auto&r:RS.reach) o<<"R\t"<<r.second<<"\t"<<r.first<<"\n"; for(auto&r:RS.bounds) o<<"B\t"<<r.second<<"\t"<<r.first<<"\n";
    for(auto&v:RS.viol) o<<"V\t"<<v.first<<"\t"<<v.second.kind<<"\t"<<v.second.msg<<"\t"<<v.second.where<<"\t"<<v.second.json<<"\n";
    for(auto&x:RS.samples) o<<"S\t"<<x<<"\n"; for(auto&f:RS.funcs) o<<"F\t"<<f.first<<"\t"<<f.second<<"\n"; for(auto&p:ptAcc) o<<"P\t"<<p.first<<"\t"<<p.second<<"\n";
    if(RS.incomplete) o<<"I\t"<<RS.incWhy<<"\n"; if(!RS.err.empty()) o<<"E\t"<<RS.err<<"\n";
}
static void load(const std::string& file){
    std::ifstream i(file); std::string l; bool any=false;
    while(std::getline(i,l)){ any=true; std::vector<std::string> t; if(l.size()>1&&l[1]=='\t'){ size_t p=0; for(;;){ size_t q=l.find('\t',p); t.push_back(l.substr(p,q==std::string::npos?q:q-p)); if(q==std::string::npos) break; p=q+1; } }
        if(t.empty()){ std::istringstream is(l); std::string k; u64 v; is>>k>>v; 
            if(k=="paths")RS.paths+=v; else if(k=="ended")RS.ended+=v; else if(k=="bounded")RS.bounded+=v; else if(k=="pruned")RS.pruned+=v; else if(k=="forks")RS.forks+=v; else if(k=="insns")RS.insns+=v; else if(k=="points")RS.points+=v; else if(k=="switches")RS.switches+=v; else if(k=="maxInsns")RS.maxInsns=std::max(RS.maxInsns,v); else if(k=="maxSyms")RS.maxSyms=std::max(RS.maxSyms,v); else if(k=="termOk")RS.termOk+=v; else if(k=="checks")RS.checks+=v; else if(k=="checksSym")RS.checksSym+=v;
            else if(k=="intq")SS.intq+=v; else if(k=="queries")SS.queries+=v; else if(k=="sat")SS.sat+=v; else if(k=="unsat")SS.unsat+=v; else if(k=="cacheHits")SS.cacheHits+=v; else if(k=="solverUs")SS.secs+=v*1e-6; continue; }
        switch(t[0][0]){ case 'R': RS.reach[t[2]]+=std::stoull(t[1]); break; case 'B': RS.bounds[t[2]]+=std::stoull(t[1]); break; case 'V': if(!RS.viol.count(t[1])) RS.viol[t[1]]=Viol{t[2],t[3],t[4],t[5]}; break; case 'S': RS.samples.push_back(t[1]); break; case 'F': RS.funcs.insert({t[1],t[2]}); break; case 'P': ptAcc[std::stoull(t[1])]|=std::stoul(t[2]); break; case 'I': RS.incomplete=true; RS.incWhy=t[1]; break; case 'E': RS.err=t[1]; break; }
    }
    if(!any) RS.err="worker process died";
}
static void exploreOnce(State* init){
    RS.states=1; WL.clear(); WL.push_back(init);
    std::deque<State*> fr; 
    // sequential phase until there is enough work to share
    u64 startForks=RS.forks; double t1=now_s();
    while(!WL.empty()){
        if(RS.viol.size()>200||overBudget()||!RS.err.empty()) break;
        if(CF.jobs>1 && (WL.size()>=(size_t)CF.jobs*12 ) && now_s()-t1>0.3) break;
        // breadth first while small, so that the shared frontier is balanced
        State* s; if(CF.jobs>1){ s=WL.front(); WL.erase(WL.begin()); } else { s=WL.back(); WL.pop_back(); }
        step1(s);
    }
    (void)startForks;
    if(WL.empty()||!RS.err.empty()) { return; }
    if(overBudget()||RS.viol.size()>200){ RS.incomplete=true; RS.incWhy="budget"; return; }
    // parallel phase
    size_t N=WL.size(); std::vector<State*> base=WL; 
    std::atomic<u64>* ctr=(std::atomic<u64>*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(ctr) std::atomic<u64>(0);
    std::vector<pid_t> pids; std::vector<std::string> files;
    for(int j=0;j<CF.jobs;j++){
        std::string f=CF.out+".w"+std::to_string(j); unlink(f.c_str()); files.push_back(f); pid_t p=fork();
        if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL);
            Result keep; auto acc=ptAcc; RS=Result(); SS=SolverStats(); rng=CF.seed*7919+j*104729+1; 
            for(;;){ u64 i=ctr->fetch_add(1); if(i>=N) break; WL.clear(); WL.push_back(base[N-1-i]);
                while(!WL.empty()){ if(overBudget()||RS.viol.size()>200||!RS.err.empty()){ if(RS.err.empty()){ RS.incomplete=true; RS.incWhy="budget"; } break; } State* s=WL.back(); WL.pop_back(); step1(s); }
                if(RS.incomplete||!RS.err.empty()) break; }
            collectFuncs(); dump(f); _exit(0);
        }
        pids.push_back(p);
    }
    for(size_t j=0;j<pids.size();j++){ int st; waitpid(pids[j],&st,0); load(files[j]); unlink(files[j].c_str()); }
    munmap(ctr,4096); WL.clear();
}
static State* initial(){
    State* s=new State; for(auto&g:PR.ginit){ s->mem.mark(g.addr,g.data.size(),true,true); s->mem.rawWrite(g.addr,g.data.data(),g.data.size(),true); }
    Func* m=PR.byName.count("__vf_main")?PR.byName["__vf_main"]:nullptr; Func* e=PR.byName.count(CF.entry)?PR.byName[CF.entry]:nullptr;
    if(!m||!e||!e->defined){ fprintf(stderr,"fsym: no entry %s\n",CF.entry.c_str()); exit(3); }
    // table of constructors for __vf_main
    u64 tab=GLOB_BASE+0x2000000; std::vector<u64> v=PR.ctors; v.push_back(0); s->mem.rawWrite(tab,v.data(),v.size()*8,true);
    Val av[2]={Val(e->addr),Val(tab)}; newThread(*s,m,av,2); s->cur=0; return s;
}
int main(int argc,char** argv){
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
        if(a=="--entry") CF.entry=nx(); else if(a=="--rt") CF.rt=nx(); else if(a=="--out") CF.out=nx(); else if(a=="--instr") CF.instr=nx(); else if(a=="--max-insn") CF.maxInsn=std::stoull(nx()); else if(a=="--pb") CF.pb=std::stoi(nx()); else if(a=="--jobs") CF.jobs=std::stoi(nx()); else if(a=="--time") CF.tlimit=std::stod(nx()); else if(a=="--max-paths") CF.maxPaths=std::stoull(nx()); else if(a=="--hb") CF.hb=true; else if(a=="--samples") CF.nsamples=std::stoi(nx()); else if(a=="--seed") CF.seed=std::stoul(nx()); else if(a=="-v") CF.verbose=true; else if(a=="--src") CF.src=nx(); else if(a=="--quantum") CF.quantum=std::stoul(nx()); else if(a=="--one-schedule") CF.one=true; else if(a=="--nopor") CF.por=false; else if(a=="--nofilter") CF.shared=false; else CF.bc=a; }
    struct rlimit rl; getrlimit(RLIMIT_STACK,&rl);
    T0=now_s(); rng=CF.seed*2654435761u+1; SOLVER=new Solver; 
    loadProgram(CF.bc,CF.rt,CF.instr); if(CF.entry.empty()) return 0;
    double tload=now_s()-T0; int rounds=0; std::vector<std::string> roundInfo;
    // rounds: the set of addresses at which threads may be preempted grows to a fixpoint
    {
        // initial round without preemption collects shared addresses; single-threaded programs need only this round
        int pb=CF.pb; 
        if(CF.shared){
            CF.pb=0; useFilter=false; exploreOnce(initial()); rounds++;
            bool multi=false; for(auto&p:ptAcc){ u32 m=(p.second|(p.second>>8))&255; if(m&(m-1)) multi=true; } if(RS.points) multi=true;
            CF.pb=pb;
            if(multi && pb>0){
                for(;;){
                    std::set<u64> sh; for(auto&p:ptAcc){ u32 m=(p.second|(p.second>>8))&255; if((m&(m-1)) && (p.second>>8)) sh.insert(p.first); }
                    if(rounds>1 && sh==sharedFilter) break; 
                    if(rounds>6||!RS.err.empty()||overBudget()) break;
                    sharedFilter=sh; useFilter=true; Result old=RS; RS=Result(); RS.viol=old.viol; RS.reach=old.reach; exploreOnce(initial()); rounds++; RS.funcs.insert(old.funcs.begin(),old.funcs.end());
                    if(RS.incomplete) break; if(!RS.viol.empty() && rounds>1) break;
                }
            }
        } else exploreOnce(initial());
    }
    collectFuncs();
    std::ofstream o(CF.out.empty()?"/dev/stdout":CF.out);
    o<<"{\"entry\":"<<js(CF.entry)<<",\"paths\":"<<RS.paths<<",\"infeasible_or_discarded\":"<<RS.ended<<",\"bound_cut\":"<<RS.bounded<<",\"por_pruned\":"<<RS.pruned<<",\"forks\":"<<RS.forks<<",\"instructions\":"<<RS.insns<<",\"max_path_instructions\":"<<RS.maxInsns<<",\"max_symbols\":"<<RS.maxSyms<<",\"sched_points\":"<<RS.points<<",\"thread_switches\":"<<RS.switches<<",\"rounds\":"<<rounds<<",\"shared_addresses\":"<<sharedFilter.size()<<",\"expected_terminate\":"<<RS.termOk<<",\"checks\":"<<RS.checks<<",\"symbolic_checks\":"<<RS.checksSym
     <<",\"queries\":"<<SS.queries<<",\"sat\":"<<SS.sat<<",\"unsat\":"<<SS.unsat<<",\"integer_queries\":"<<SS.intq<<",\"query_cache_hits\":"<<SS.cacheHits<<",\"solver_s\":"<<SS.secs<<",\"load_s\":"<<tload<<",\"wall_s\":"<<now_s()-T0<<",\"incomplete\":"<<(RS.incomplete?"true":"false")<<",\"error\":"<<js(RS.err)<<",\"preemption_bound\":"<<CF.pb<<",\"insn_bound\":"<<CF.maxInsn;
    o<<",\"reach\":{"; bool f=true; for(auto&r:RS.reach){ if(!f)o<<","; f=false; o<<js(r.first)<<":"<<r.second; } o<<"},\"bounds_hit\":{"; f=true; for(auto&r:RS.bounds){ if(!f)o<<","; f=false; o<<js(r.first)<<":"<<r.second; }
    o<<"},\"violations\":["; f=true; for(auto&v:RS.viol){ if(!f)o<<","; f=false; o<<v.second.json; } o<<"],\"samples\":["; f=true; int k=0; for(auto&x:RS.samples){ if(k++>=CF.nsamples) break; if(!f)o<<","; f=false; o<<x; }
    o<<"],\"functions\":["; f=true; for(auto&x:RS.funcs){ if(!f)o<<","; f=false; o<<"["<<js(dem(x.first))<<","<<js(x.second)<<"]"; } o<<"]}\n";
    o.close();
    return RS.err.empty()?0:3;
}
