// fsym front end: LLVM IR -> compact code, plus the instrumentation pass (schedule points)
#include "core.h"
#include "intrin.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/ReplaceConstant.h>
using namespace llvm;
Program PR;
static LLVMContext* LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static DenseMap<const GlobalValue*,u64> gaddr; static DenseMap<const Function*,Func*> fmap; static DenseMap<const GlobalVariable*,u64> tlsOff;
static const char* INTRIN_NAMES[]={
#define X(n) #n,
INTRIN_LIST
#undef X
};
static void fatal(const std::string& s){ fprintf(stderr,"fsym: %s\n",s.c_str()); exit(3); }
static std::string str(const Value* v){ std::string s; raw_string_ostream o(s); v->print(o); return s; }
static std::string str(const Type* v){ std::string s; raw_string_ostream o(s); v->print(o); return s; }

static u32 slots(Type* t){
    if(t->isVoidTy()) return 0;
    if(auto*i=dyn_cast<IntegerType>(t)) return (i->getBitWidth()+63)/64;
    if(t->isPointerTy()||t->isFloatTy()||t->isDoubleTy()) return 1;
    if(auto*s=dyn_cast<StructType>(t)){ u32 n=0; for(auto*e:s->elements()) n+=slots(e); return n; }
    if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*slots(a->getElementType());
    if(auto*a=dyn_cast<FixedVectorType>(t)) return a->getNumElements()*slots(a->getElementType());
    if(t->isX86_FP80Ty()) return 1; // only carried around / unsupported when executed
    if(t->isTokenTy()||t->isMetadataTy()||t->isLabelTy()) return 0;
    fatal("type "+str(t)); return 0;
}
static u8 bits(Type* t){ if(auto*i=dyn_cast<IntegerType>(t)) return i->getBitWidth()>64?64:i->getBitWidth(); if(t->isPointerTy()||t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(auto*v=dyn_cast<FixedVectorType>(t)) return bits(v->getElementType()); return 64; }
// flattened leaves (offset in bytes, bit width)
struct Leaf { u64 off; u8 w; };
static void leaves(Type* t,u64 off,std::vector<Leaf>& o){
    if(auto*i=dyn_cast<IntegerType>(t)){ unsigned w=i->getBitWidth(); if(w<=64) o.push_back({off,(u8)w}); else for(unsigned k=0;k<w;k+=64) o.push_back({off+k/8,(u8)std::min(64u,w-k)}); return; }
    if(t->isPointerTy()||t->isDoubleTy()){ o.push_back({off,64}); return; }
    if(t->isFloatTy()){ o.push_back({off,32}); return; }
    if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leaves(s->getElementType(i),off+l->getElementOffset(i),o); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leaves(a->getElementType(),off+i*sz,o); return; }
    if(auto*a=dyn_cast<FixedVectorType>(t)){ u64 sz=DL->getTypeStoreSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leaves(a->getElementType(),off+i*sz,o); return; }
    if(t->isX86_FP80Ty()){ o.push_back({off,64}); return; }
    fatal("leaf type "+str(t));
}
static bool isTls(const Value* v){ auto*g=dyn_cast<GlobalVariable>(v); return g&&g->isThreadLocal(); }
static u64 addrOf(const GlobalValue* g){
    if(auto*a=dyn_cast<GlobalAlias>(g)) { auto*b=a->getAliaseeObject(); return addrOf(b); }
    auto it=gaddr.find(g); if(it==gaddr.end()) fatal("no address for "+g->getName().str()); return it->second;
}
static u64 constVal(const Constant* c){
    if(auto*i=dyn_cast<ConstantInt>(c)) return i->getBitWidth()<=64? i->getZExtValue() : i->getValue().getRawData()[0];
    if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
    if(auto*f=dyn_cast<ConstantFP>(c)) { return f->getValueAPF().bitcastToAPInt().getRawData()[0]; }
    if(auto*g=dyn_cast<GlobalVariable>(c)) { if(g->isThreadLocal()) return tlsOff[g]; return addrOf(g); }
    if(auto*g=dyn_cast<GlobalValue>(c)) return addrOf(g);
    if(auto*e=dyn_cast<ConstantExpr>(c)){
        switch(e->getOpcode()){
        case Instruction::GetElementPtr: { APInt off(64,0); auto*ge=cast<GEPOperator>(e); if(!ge->accumulateConstantOffset(*DL,off)) fatal("const gep"); return constVal(e->getOperand(0))+off.getSExtValue(); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0))&maskw(bits(e->getType()));
        case Instruction::Add: return (constVal(e->getOperand(0))+constVal(e->getOperand(1)))&maskw(bits(e->getType()));
        case Instruction::Sub: return (constVal(e->getOperand(0))-constVal(e->getOperand(1)))&maskw(bits(e->getType()));
        case Instruction::Trunc: return constVal(e->getOperand(0))&maskw(bits(e->getType()));
        case Instruction::ICmp: { auto p=e->getPredicate(); u64 x=constVal(e->getOperand(0)),y=constVal(e->getOperand(1)); if(p==CmpInst::ICMP_EQ) return x==y; if(p==CmpInst::ICMP_NE) return x!=y; break; }
        default: break; }
    }
    fatal("constant "+str(c)); return 0;
}
static void flattenConst(const Constant* c, std::vector<u64>& o){
    Type* t=c->getType();
    if(auto*i=dyn_cast<ConstantInt>(c)){ unsigned n=slots(t); for(unsigned k=0;k<n;k++) o.push_back(i->getValue().extractBitsAsZExtValue(std::min(64u,i->getBitWidth()-64*k),64*k)); return; }
    if(t->isAggregateType()||t->isVectorTy()){
        if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ o.resize(o.size()+slots(t),0); return; }
        unsigned n=t->isStructTy()?t->getStructNumElements(): t->isArrayTy()? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for(unsigned i=0;i<n;i++) flattenConst(c->getAggregateElement(i),o); return;
    }
    o.push_back(constVal(c));
}
static void writeConst(const Constant* c, std::vector<u8>& d, u64 off){
    Type* t=c->getType();
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return;
    if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) writeConst(c->getAggregateElement(i),d,off+l->getElementOffset(i)); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){
        u64 sz=DL->getTypeAllocSize(a->getElementType());
        if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(&d[off],r.data(),r.size()); return; }
        for(u64 i=0;i<a->getNumElements();i++) writeConst(c->getAggregateElement(i),d,off+i*sz); return; }
    if(auto*a=dyn_cast<FixedVectorType>(t)){ u64 sz=DL->getTypeStoreSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) writeConst(c->getAggregateElement(i),d,off+i*sz); return; }
    if(auto*i=dyn_cast<ConstantInt>(c)){ unsigned n=(i->getBitWidth()+7)/8; memcpy(&d[off],i->getValue().getRawData(),n); return; }
    u64 v=constVal(c); unsigned n=DL->getTypeStoreSize(t); if(n>8) return; memcpy(&d[off],&v,n);
}
// ---- instrumentation: redirect environment calls, schedule points before visible operations
static const char* REDIRECT[][2]={
 {"pthread_mutex_lock","vfe_pthread_mutex_lock"},{"pthread_mutex_unlock","vfe_pthread_mutex_unlock"},{"pthread_mutex_trylock","vfe_pthread_mutex_trylock"},{"pthread_mutex_init","vfe_pthread_mutex_init"},{"pthread_mutex_destroy","vfe_pthread_mutex_destroy"},
 {"pthread_rwlock_rdlock","vfe_pthread_rwlock_rdlock"},{"pthread_rwlock_tryrdlock","vfe_pthread_rwlock_tryrdlock"},{"pthread_rwlock_wrlock","vfe_pthread_rwlock_wrlock"},{"pthread_rwlock_trywrlock","vfe_pthread_rwlock_trywrlock"},{"pthread_rwlock_unlock","vfe_pthread_rwlock_unlock"},{"_ZNSt6thread20hardware_concurrencyEv","vfe_hardware_concurrency"},
 {"pthread_cond_wait","vfe_pthread_cond_wait"},{"pthread_cond_clockwait","vfe_pthread_cond_clockwait"},{"pthread_cond_timedwait","vfe_pthread_cond_timedwait"},{"pthread_cond_signal","vfe_pthread_cond_signal"},{"pthread_cond_broadcast","vfe_pthread_cond_broadcast"},{"pthread_cond_init","vfe_pthread_cond_init"},{"pthread_cond_destroy","vfe_pthread_cond_destroy"},
 {"_ZNSt18condition_variableC1Ev","vfe_cv_ctor"},{"_ZNSt18condition_variableC2Ev","vfe_cv_ctor"},{"_ZNSt18condition_variableD1Ev","vfe_cv_dtor"},{"_ZNSt18condition_variableD2Ev","vfe_cv_dtor"},{"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE","vfe_cv_wait"},{"_ZNSt18condition_variable10notify_oneEv","vfe_cv_notify_one"},{"_ZNSt18condition_variable10notify_allEv","vfe_cv_notify_all"},
 {"_ZNSt6chrono3_V212steady_clock3nowEv","vfe_steady_now"},{"_ZNSt6chrono3_V212system_clock3nowEv","vfe_system_now"},{"syscall","vfe_syscall"},{"sched_yield","vfe_sched_yield"},{"nanosleep","vfe_nanosleep"},{"pthread_setaffinity_np","vfe_pthread_setaffinity_np"},{"pthread_self","vfe_pthread_self"},{"make_fcontext","vfe_make_fcontext"},{"pthread_once","vfe_pthread_once"} };
static void redirect(){
    for(auto&r:REDIRECT) if(Function* f=M->getFunction(r[0])) if(f->isDeclaration()){
        if(Function* t=M->getFunction(r[1])) f->replaceUsesWithIf(t,[&](Use& u){ auto* i=dyn_cast<Instruction>(u.getUser()); return !i||i->getFunction()!=t; }); else f->setName(r[1]); }
}
static void instrument(){
    FunctionCallee pt=M->getOrInsertFunction("vf_point",Type::getVoidTy(*LC),PointerType::get(*LC,0),Type::getInt32Ty(*LC));
    Function* ptf=cast<Function>(pt.getCallee()); ptf->setDoesNotThrow();
    Function* yf=cast<Function>(M->getOrInsertFunction("vf_yield",Type::getVoidTy(*LC)).getCallee()); yf->setDoesNotThrow();
    for(auto&F:*M){
        if(F.isDeclaration()) continue;
        for(auto&B:F) for(auto&I:make_early_inc_range(B)){
            Value* p=nullptr; int k=1;
            if(auto*c=dyn_cast<CallBase>(&I)){ bool pause=false;
                if(auto*ia=dyn_cast<InlineAsm>(c->getCalledOperand())){ std::string t=ia->getAsmString(); pause=t.find("pause")!=std::string::npos||t.find("rep; nop")!=std::string::npos; }
                else if(auto*ii=dyn_cast<IntrinsicInst>(&I)) pause=ii->getIntrinsicID()==Intrinsic::x86_sse2_pause;
                if(pause && isa<CallInst>(c)){ IRBuilder<> b(&I); auto*y=b.CreateCall(yf,{}); y->setDebugLoc(I.getDebugLoc()); I.eraseFromParent(); continue; } }
            if(auto*l=dyn_cast<LoadInst>(&I)){ if(l->isAtomic()){ p=l->getPointerOperand(); k=0; } }
            else if(auto*s=dyn_cast<StoreInst>(&I)){ if(s->isAtomic()) p=s->getPointerOperand(); }
            else if(auto*x=dyn_cast<AtomicRMWInst>(&I)) p=x->getPointerOperand();
            else if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)) p=x->getPointerOperand();
            if(p){ IRBuilder<> b(&I); auto*c=b.CreateCall(pt,{p,b.getInt32(k)}); c->setDebugLoc(I.getDebugLoc()); }
        }
    }
}
// direct uses of thread-local variables (after global optimisation) become calls of llvm.threadlocal.address
static void normaliseTls(){
    std::vector<Constant*> tl; for(auto&G:M->globals()) if(G.isThreadLocal()) tl.push_back(&G);
    convertUsersOfConstantsToInstructions(tl);
    Function* ta=nullptr;
    for(auto*c:tl){ auto*G=cast<GlobalVariable>(c); std::vector<Use*> us; for(Use&u:G->uses()) if(auto*I=dyn_cast<Instruction>(u.getUser())){ if(auto*ii=dyn_cast<IntrinsicInst>(I)) if(ii->getIntrinsicID()==Intrinsic::threadlocal_address) continue; us.push_back(&u); }
        for(Use* u:us){ auto*I=cast<Instruction>(u->getUser()); Instruction* at=I; if(auto*ph=dyn_cast<PHINode>(I)) at=ph->getIncomingBlock(*u)->getTerminator();
            if(!ta) ta=Intrinsic::getDeclaration(M.get(),Intrinsic::threadlocal_address,{PointerType::get(*LC,0)});
            IRBuilder<> b(at); auto*n=b.CreateCall(ta,{G}); n->setDebugLoc(I->getDebugLoc()); u->set(n); } }
}
void loadProgram(const std::string& bc,const std::string& rtbc,const std::string& instrOut){
    LC=new LLVMContext; SMDiagnostic err; M=parseIRFile(bc,err,*LC); if(!M) fatal("cannot read "+bc);
    DL=&M->getDataLayout();
    if(!M->getNamedMetadata("vf.instrumented")){ redirect(); instrument(); M->getOrInsertNamedMetadata("vf.instrumented"); }
    if(!instrOut.empty()){ std::error_code ec; raw_fd_ostream o(instrOut,ec); WriteBitcodeToFile(*M,o); }
    std::set<std::string> own; for(auto&F:*M) if(!F.isDeclaration()) own.insert(F.getName().str());
    if(!rtbc.empty()){ auto R=parseIRFile(rtbc,err,*LC); if(!R) fatal("cannot read "+rtbc); if(Linker::linkModules(*M,std::move(R))) fatal("link with rt failed"); }
    normaliseTls();
    for(auto&F:*M){
        Func* f=new Func; f->name=F.getName().str(); f->id=PR.funcs.size(); f->addr=FUNC_BASE+16*f->id; f->defined=!F.isDeclaration(); f->llvm=&F;
        f->fromRt=!own.count(f->name); f->noRace=f->fromRt; if(auto*sp=F.getSubprogram()) if(sp->getFilename().ends_with("rt/env.cpp")) f->noRace=true;
        PR.funcs.push_back(f); PR.byName[f->name]=f; PR.byAddr[f->addr]=f; fmap[&F]=f; gaddr[&F]=f->addr;
        if(F.isDeclaration()){
            for(int i=0;i<I_COUNT;i++) if(f->name==INTRIN_NAMES[i]) f->intrin=i;
            if(F.hasExternalWeakLinkage() && f->intrin<0) gaddr[&F]=0;
        }
    }
    u64 a=GLOB_BASE+64, tl=64;
    for(auto&G:M->globals()){
        u64 sz=DL->getTypeAllocSize(G.getValueType()); u64 al=std::max<u64>(G.getAlign()?G.getAlign()->value():1,16);
        if(G.isThreadLocal()){ tl=(tl+al-1)/al*al; tlsOff[&G]=tl; tl+=sz+16; continue; }
        if(G.hasExternalWeakLinkage()){ gaddr[&G]=0; continue; }
        a=(a+al-1)/al*al; gaddr[&G]=a; PR.globals[G.getName().str()]=a; PR.globByAddr[a]={sz,G.getName().str()}; 
        u64 s2=G.isDeclaration()?64:sz; if(G.isDeclaration()) PR.globByAddr[a].first=64;
        a+=s2+32;
    }
    PR.tlsSize=tl+64; PR.tlsImage.assign(PR.tlsSize,0); PR.tlsInit.assign(PR.tlsSize,0);
    for(auto&G:M->globals()){
        u64 sz=DL->getTypeAllocSize(G.getValueType());
        if(G.isThreadLocal()){ std::vector<u8> d(sz,0); if(G.hasInitializer()) writeConst(G.getInitializer(),d,0); memcpy(&PR.tlsImage[tlsOff[&G]],d.data(),sz); memset(&PR.tlsInit[tlsOff[&G]],1,sz); continue; }
        if(G.hasExternalWeakLinkage()) continue;
        if(G.getName()=="llvm.global_ctors"){
            if(auto*arr=dyn_cast<ConstantArray>(G.getInitializer())){ std::vector<std::pair<u64,u64>> v;
                for(auto&op:arr->operands()){ auto*s=cast<ConstantStruct>(op); if(auto*fn=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),addrOf(fn)}); }
                std::stable_sort(v.begin(),v.end(),[](auto&x,auto&y){return x.first<y.first;}); for(auto&x:v) PR.ctors.push_back(x.second); }
            continue; }
        u64 ad=gaddr[&G]; std::vector<u8> d(G.isDeclaration()?64:sz,0);
        if(G.hasInitializer()) writeConst(G.getInitializer(),d,0);
        else { auto n=G.getName(); if(n=="_ZTVN10__cxxabiv117__class_type_infoE") PR.vtCls=ad; else if(n=="_ZTVN10__cxxabiv120__si_class_type_infoE") PR.vtSi=ad; else if(n=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") PR.vtVmi=ad; }
        PR.ginit.push_back({ad,d,G.isConstant()});
    }
}
// ---- function compilation
struct FC {
    Func* f; Function& F; DenseMap<const Value*,i32> slot; DenseMap<const BasicBlock*,u32> bpc; std::map<u64,i32> cidx; DenseMap<const DILocation*,u32> dl; 
    struct Fix { u32 edge; const BasicBlock* to; }; std::vector<Fix> fixes; u32 curdbg=0;
    FC(Func*x,Function&y):f(x),F(y){}
    i32 cst(u64 v){ auto it=cidx.find(v); if(it!=cidx.end()) return it->second; f->consts.push_back(Val(v)); i32 r=~(i32)(f->consts.size()-1); cidx[v]=r; return r; }
    u32 newSlots(u32 n){ u32 r=f->nslots; f->nslots+=n; return r; }
    // operand: k-th slot of a value
    i32 opnd(const Value* v,u32 k=0){
        if(auto*c=dyn_cast<Constant>(v)){ if(slots(c->getType())==1 && !c->getType()->isAggregateType() && !c->getType()->isVectorTy()) return cst(constVal(c)); std::vector<u64> o; flattenConst(c,o); return cst(o.at(k)); }
        auto it=slot.find(v); if(it==slot.end()) fatal("operand "+str(v)+" in "+f->name); return it->second+k;
    }
    u32 dbgId(const DILocation* l){
        if(!l) return 0; auto it=dl.find(l); if(it!=dl.end()) return it->second;
        static std::map<std::string,u32> fidx, nidx;
        std::string file=l->getScope()->getFilename().str(); if(!file.empty()&&file[0]!='/') file=l->getScope()->getDirectory().str()+"/"+file;
        auto*sp=l->getScope()->getSubprogram(); std::string fn= sp? (sp->getLinkageName().empty()?sp->getName().str():sp->getLinkageName().str()) : "?";
        u32 fi,ni; { auto i=fidx.find(file); if(i==fidx.end()){ fi=PR.files.size(); PR.files.push_back(file); fidx[file]=fi; } else fi=i->second; }
        { auto i=nidx.find(fn); if(i==nidx.end()){ ni=PR.fnames.size(); PR.fnames.push_back(fn); nidx[fn]=ni; } else ni=i->second; }
        i32 par=-1; if(auto*ia=l->getInlinedAt()) par=dbgId(ia);
        if(PR.dbg.empty()) PR.dbg.push_back({0,0,0,-1});
        PR.dbg.push_back({fi,l->getLine(),ni,par}); return dl[l]=PR.dbg.size()-1;
    }
    Inst& emit(u8 op,u8 w=0,i32 d=0,i32 a=0,i32 b=0,i32 c=0,u64 imm=0){ f->code.push_back(Inst{op,w,0,0,d,a,b,c,imm,0,0,curdbg}); return f->code.back(); }
    u32 edge(const BasicBlock* from,const BasicBlock* to){
        Edge e; e.pc=0;
        for(auto&phi:to->phis()){ const Value* v=phi.getIncomingValueForBlock(from); u32 n=slots(phi.getType()); for(u32 k=0;k<n;k++){ i32 s=opnd(v,k), d=slot[&phi]+k; if(s!=d) e.mv.push_back({d,s}); } }
        for(auto&x:e.mv) for(auto&y:e.mv) if(x.first==y.second) e.overlap=true;
        f->edges.push_back(e); fixes.push_back({(u32)f->edges.size()-1,to}); return f->edges.size()-1;
    }
    void run(){
        for(auto&A:F.args()){ slot[&A]=newSlots(slots(A.getType())); } f->nargs=f->nslots;
        for(auto&B:F) for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=newSlots(slots(I.getType()));
        for(auto&B:F){ bpc[&B]=f->code.size(); for(auto&I:B){ if(I.getDebugLoc()) curdbg=dbgId(I.getDebugLoc().get()); inst(I); } }
        for(auto&x:fixes) f->edges[x.edge].pc=bpc[x.to];
        f->cov.assign(f->code.size(),0);
    }
    void unsup(const Instruction& I){ std::string s=str(&I); emit(O_UNSUP,0,0,0,0,0,(u64)strdup(s.c_str())); }
    void inst(Instruction& I){
        i32 d= I.getType()->isVoidTy()?0:slot[&I]; Type* T=I.getType();
        switch(I.getOpcode()){
        case Instruction::PHI: return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            EOp o; switch(I.getOpcode()){ case Instruction::Add:o=EAdd;break; case Instruction::Sub:o=ESub;break; case Instruction::Mul:o=EMul;break; case Instruction::UDiv:o=EUDiv;break; case Instruction::SDiv:o=ESDiv;break; case Instruction::URem:o=EURem;break; case Instruction::SRem:o=ESRem;break; case Instruction::And:o=EAnd;break; case Instruction::Or:o=EOr;break; case Instruction::Xor:o=EXor;break; case Instruction::Shl:o=EShl;break; case Instruction::LShr:o=ELShr;break; default:o=EAShr; }
            if(T->isIntegerTy()&&T->getIntegerBitWidth()>64){
                if(I.getOpcode()==Instruction::Or||I.getOpcode()==Instruction::And||I.getOpcode()==Instruction::Xor){ u32 n=slots(T); for(u32 k=0;k<n;k++) emit(O_BIN,64,d+k,opnd(I.getOperand(0),k),opnd(I.getOperand(1),k)).w2=o; return; }
                if(T->getIntegerBitWidth()==128) if(auto*c=dyn_cast<ConstantInt>(I.getOperand(1))) if(c->getZExtValue()==64){
                    if(I.getOpcode()==Instruction::LShr){ emit(O_MOVE,64,d,opnd(I.getOperand(0),1)); emit(O_MOVE,64,d+1,cst(0)); return; }
                    if(I.getOpcode()==Instruction::Shl){ emit(O_MOVE,64,d+1,opnd(I.getOperand(0),0)); emit(O_MOVE,64,d,cst(0)); return; } }
                unsup(I); return; }
            u32 n=slots(T); u8 w=bits(T); for(u32 k=0;k<n;k++) emit(O_BIN,w,d+k,opnd(I.getOperand(0),k),opnd(I.getOperand(1),k)).w2=o; return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: emit(O_FBIN,bits(T),d,opnd(I.getOperand(0)),opnd(I.getOperand(1)),0,I.getOpcode()-Instruction::FAdd).w2=I.getOpcode(); f->code.back().imm=I.getOpcode()==Instruction::FAdd?0:I.getOpcode()==Instruction::FSub?1:I.getOpcode()==Instruction::FMul?2:3; return;
        case Instruction::FCmp: emit(O_FCMP,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),opnd(I.getOperand(1)),0,cast<FCmpInst>(I).getPredicate()); return;
        case Instruction::UIToFP: emit(O_FCAST,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),0,0,0).w2=bits(T); return;
        case Instruction::SIToFP: emit(O_FCAST,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),0,0,1).w2=bits(T); return;
        case Instruction::FPToUI: emit(O_FCAST,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),0,0,2).w2=bits(T); return;
        case Instruction::FPToSI: emit(O_FCAST,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),0,0,3).w2=bits(T); return;
        case Instruction::FPExt: case Instruction::FPTrunc: if(T->isX86_FP80Ty()||I.getOperand(0)->getType()->isX86_FP80Ty()){ unsup(I); return; } emit(O_FCAST,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0)),0,0,4).w2=bits(T); return;
        case Instruction::ICmp: {
            auto&C=cast<ICmpInst>(I); Type* ot=C.getOperand(0)->getType(); 
            if(ot->isIntegerTy()&&ot->getIntegerBitWidth()>64){ if(!C.isEquality()){ unsup(I); return; }
                u32 n=slots(ot); i32 t=newSlots(n); for(u32 k=0;k<n;k++) emit(O_CMP,64,t+k,opnd(C.getOperand(0),k),opnd(C.getOperand(1),k)).w2=EEq;
                for(u32 k=1;k<n;k++) emit(O_BIN,1,t,t,t+k).w2=EAnd; if(C.getPredicate()==CmpInst::ICMP_NE) emit(O_BIN,1,d,t,cst(1)).w2=EXor; else emit(O_MOVE,1,d,t); return; }
            u32 n=slots(ot); u8 w=bits(ot);
            for(u32 k=0;k<n;k++){ i32 a=opnd(C.getOperand(0),k),b=opnd(C.getOperand(1),k); EOp o=EEq; bool neg=false;
                switch(C.getPredicate()){ case CmpInst::ICMP_EQ:o=EEq;break; case CmpInst::ICMP_NE:o=EEq;neg=true;break; case CmpInst::ICMP_ULT:o=EUlt;break; case CmpInst::ICMP_ULE:o=EUle;break; case CmpInst::ICMP_UGT:o=EUlt;std::swap(a,b);break; case CmpInst::ICMP_UGE:o=EUle;std::swap(a,b);break;
                case CmpInst::ICMP_SLT:o=ESlt;break; case CmpInst::ICMP_SLE:o=ESle;break; case CmpInst::ICMP_SGT:o=ESlt;std::swap(a,b);break; default:o=ESle;std::swap(a,b); }
                Inst& x=emit(O_CMP,w,d+k,a,b); x.w2=o; x.fl=neg; }
            return; }
        case Instruction::Trunc: { auto*s=I.getOperand(0)->getType(); if(s->isIntegerTy()&&s->getIntegerBitWidth()>64){ if(slots(T)==1) emit(O_TRUNC,64,d,opnd(I.getOperand(0),0)).w2=bits(T); else for(u32 k=0;k<slots(T);k++) emit(O_MOVE,64,d+k,opnd(I.getOperand(0),k)); return; }
            for(u32 k=0;k<slots(T);k++) emit(O_TRUNC,bits(s),d+k,opnd(I.getOperand(0),k)).w2=bits(T); return; }
        case Instruction::ZExt: if(T->isIntegerTy()&&T->getIntegerBitWidth()>64){ emit(O_ZEXT,bits(I.getOperand(0)->getType()),d,opnd(I.getOperand(0))).w2=64; for(u32 k=1;k<slots(T);k++) emit(O_MOVE,64,d+k,cst(0)); return; }
            for(u32 k=0;k<slots(T);k++) emit(O_ZEXT,bits(I.getOperand(0)->getType()),d+k,opnd(I.getOperand(0),k)).w2=bits(T); return;
        case Instruction::SExt: if(T->isIntegerTy()&&T->getIntegerBitWidth()>64){ unsup(I); return; } for(u32 k=0;k<slots(T);k++) emit(O_SEXT,bits(I.getOperand(0)->getType()),d+k,opnd(I.getOperand(0),k)).w2=bits(T); return;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { u8 a=bits(I.getOperand(0)->getType()),b=bits(T); for(u32 k=0;k<slots(T);k++) { if(a==b) emit(O_MOVE,a,d+k,opnd(I.getOperand(0),k)); else if(a<b) emit(O_ZEXT,a,d+k,opnd(I.getOperand(0),k)).w2=b; else emit(O_TRUNC,a,d+k,opnd(I.getOperand(0),k)).w2=b; } return; }
        case Instruction::BitCast: { Type* s=I.getOperand(0)->getType(); if(slots(s)==slots(T)&&(bits(s)==bits(T))){ for(u32 k=0;k<slots(T);k++) emit(O_MOVE,bits(T),d+k,opnd(I.getOperand(0),k)); return; } unsup(I); return; }
        case Instruction::Freeze: for(u32 k=0;k<slots(T);k++) emit(O_MOVE,bits(T),d+k,opnd(I.getOperand(0),k)); return;
        case Instruction::Select: { auto&S=cast<SelectInst>(I); bool vec=S.getCondition()->getType()->isVectorTy(); std::vector<Leaf> lv; leaves(T,0,lv); for(u32 k=0;k<slots(T);k++) emit(O_SELECT,lv[k].w,d+k,opnd(S.getCondition(),vec?k:0),opnd(S.getTrueValue(),k),opnd(S.getFalseValue(),k)); return; }
        case Instruction::ExtractValue: { auto&E=cast<ExtractValueInst>(I); Type* t=E.getAggregateOperand()->getType(); u32 o=0; for(unsigned ix:E.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) o+=slots(s->getElementType(q)); t=s->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*slots(t);} } for(u32 k=0;k<slots(T);k++) emit(O_MOVE,64,d+k,opnd(E.getAggregateOperand(),o+k)); return; }
        case Instruction::InsertValue: { auto&E=cast<InsertValueInst>(I); Type* t=T; u32 o=0; for(unsigned ix:E.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) o+=slots(s->getElementType(q)); t=s->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*slots(t);} } u32 n=slots(t); for(u32 k=0;k<slots(T);k++){ if(k>=o&&k<o+n) emit(O_MOVE,64,d+k,opnd(E.getInsertedValueOperand(),k-o)); else emit(O_MOVE,64,d+k,opnd(E.getAggregateOperand(),k)); } return; }
        case Instruction::ExtractElement: { auto*c=dyn_cast<ConstantInt>(I.getOperand(1)); if(!c){ unsup(I); return; } emit(O_MOVE,64,d,opnd(I.getOperand(0),c->getZExtValue())); return; }
        case Instruction::InsertElement: { auto*c=dyn_cast<ConstantInt>(I.getOperand(2)); if(!c){ unsup(I); return; } u32 o=c->getZExtValue(); for(u32 k=0;k<slots(T);k++) emit(O_MOVE,64,d+k,k==o?opnd(I.getOperand(1)):opnd(I.getOperand(0),k)); return; }
        case Instruction::ShuffleVector: { auto&S=cast<ShuffleVectorInst>(I); u32 n=slots(S.getOperand(0)->getType()); auto mk=S.getShuffleMask(); for(u32 k=0;k<slots(T);k++){ int m=mk[k]; emit(O_MOVE,64,d+k, m<0?cst(0): (u32)m<n? opnd(S.getOperand(0),m):opnd(S.getOperand(1),m-n)); } return; }
        case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); auto*c=dyn_cast<ConstantInt>(A.getArraySize()); if(!c){ unsup(I); return; } emit(O_ALLOCA,0,d,0,0,A.getAlign().value(),DL->getTypeAllocSize(A.getAllocatedType())*c->getZExtValue()); return; }
        case Instruction::GetElementPtr: {
            auto&G=cast<GetElementPtrInst>(I); if(T->isVectorTy()){ unsup(I); return; }
            i32 base=opnd(G.getPointerOperand()); i64 off=0; i32 cur=base; 
            for(auto gi=gep_type_begin(G);gi!=gep_type_end(G);++gi){ Value* ix=gi.getOperand();
                if(auto*s=gi.getStructTypeOrNull()) off+=DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(ix)) off+=c->getSExtValue()*(i64)sz; else { i32 t=newSlots(1); emit(O_GEPIDX,bits(ix->getType()),t,cur,opnd(ix),0,sz); cur=t; } } }
            emit(O_BIN,64,d,cur,cst((u64)off)).w2=EAdd; return; }
        case Instruction::Load: { auto&L=cast<LoadInst>(I); std::vector<Leaf> lv; leaves(T,0,lv); i32 p=opnd(L.getPointerOperand()); i32 pp=p;
            if(lv.size()>1){ pp=newSlots(1); emit(O_MOVE,64,pp,p); }
            for(u32 k=0;k<lv.size();k++){ Inst&x=emit(O_LOAD,lv[k].w,d+k,pp,0,0,lv[k].off); x.w2=(lv[k].w+7)/8; x.fl=L.isAtomic()?(u8)(1+(int)L.getOrdering()):0; } return; }
        case Instruction::Store: { auto&S=cast<StoreInst>(I); std::vector<Leaf> lv; leaves(S.getValueOperand()->getType(),0,lv); i32 p=opnd(S.getPointerOperand());
            for(u32 k=0;k<lv.size();k++){ Inst&x=emit(O_STORE,lv[k].w,0,p,opnd(S.getValueOperand(),k),0,lv[k].off); x.w2=(lv[k].w+7)/8; x.fl=S.isAtomic()?(u8)(1+(int)S.getOrdering()):0; } return; }
        case Instruction::AtomicCmpXchg: { auto&X=cast<AtomicCmpXchgInst>(I); u8 w=bits(X.getCompareOperand()->getType()); Inst&x=emit(O_CMPXCHG,w,d,opnd(X.getPointerOperand()),opnd(X.getCompareOperand()),opnd(X.getNewValOperand())); x.w2=(w+7)/8; x.fl=(u8)(1+(int)X.getSuccessOrdering()); x.imm=(1+(int)X.getFailureOrdering()) | (X.isWeak()?256:0); return; }
        case Instruction::AtomicRMW: { auto&X=cast<AtomicRMWInst>(I); u8 w=bits(T); Inst&x=emit(O_RMW,w,d,opnd(X.getPointerOperand()),opnd(X.getValOperand()),0,X.getOperation()); x.w2=(w+7)/8; x.fl=(u8)(1+(int)X.getOrdering());
            switch(X.getOperation()){ case AtomicRMWInst::Xchg:x.imm=0;break; case AtomicRMWInst::Add:x.imm=1;break; case AtomicRMWInst::Sub:x.imm=2;break; case AtomicRMWInst::And:x.imm=3;break; case AtomicRMWInst::Or:x.imm=4;break; case AtomicRMWInst::Xor:x.imm=5;break; default: f->code.pop_back(); unsup(I);} return; }
        case Instruction::Fence: { auto&X=cast<FenceInst>(I); emit(O_FENCE).fl=(u8)(1+(int)X.getOrdering()); return; }
        case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isUnconditional()){ u32 e=edge(B.getParent(),B.getSuccessor(0)); emit(O_BR,0,0,0,0,0,e); } else { i32 c=opnd(B.getCondition()); u32 t=edge(B.getParent(),B.getSuccessor(0)); u32 e=edge(B.getParent(),B.getSuccessor(1)); emit(O_CBR,0,0,c,t,e); } return; }
        case Instruction::Switch: { auto&S=cast<SwitchInst>(I); u8 w=bits(S.getCondition()->getType()); i32 c=opnd(S.getCondition()); u32 de=edge(S.getParent(),S.getDefaultDest()); std::vector<i32> ax; for(auto&cs:S.cases()){ u32 e=edge(S.getParent(),cs.getCaseSuccessor()); ax.push_back(cst(cs.getCaseValue()->getZExtValue())); ax.push_back(e); } u32 o=f->aux.size(); f->aux.insert(f->aux.end(),ax.begin(),ax.end()); Inst&x=emit(O_SWITCH,w,0,c,de); x.aux=o; x.naux=ax.size(); return; }
        case Instruction::Ret: { auto&R=cast<ReturnInst>(I); std::vector<i32> ax; if(R.getReturnValue()) for(u32 k=0;k<slots(R.getReturnValue()->getType());k++) ax.push_back(opnd(R.getReturnValue(),k)); u32 o=f->aux.size(); f->aux.insert(f->aux.end(),ax.begin(),ax.end()); Inst&x=emit(O_RET); x.aux=o; x.naux=ax.size(); return; }
        case Instruction::Unreachable: emit(O_UNREACHABLE); return;
        case Instruction::LandingPad: { auto&L=cast<LandingPadInst>(I); std::vector<i32> ax; 
            for(unsigned k=0;k<L.getNumClauses();k++){ Constant* c=L.getClause(k); if(L.isCatch(k)){ ax.push_back(0); ax.push_back(cst(constVal(c))); } else { ax.push_back(1); u64 n=slots(c->getType()); ax.push_back(n); std::vector<u64> o; flattenConst(c,o); for(u64 v:o) ax.push_back(cst(v)); } }
            u32 o=f->aux.size(); f->aux.insert(f->aux.end(),ax.begin(),ax.end()); Inst&x=emit(O_LPAD,0,d); x.aux=o; x.naux=ax.size(); x.fl=L.isCleanup(); return; }
        case Instruction::Resume: emit(O_RESUME,0,0,opnd(I.getOperand(0),0),opnd(I.getOperand(0),1)); return;
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
        default: unsup(I); return;
        }
    }
    void fin(CallBase& C){ if(auto*v=dyn_cast<InvokeInst>(&C)){ u32 e=edge(v->getParent(),v->getNormalDest()); emit(O_BR,0,0,0,0,0,e); } }
    void call(CallBase& C){
        i32 d=C.getType()->isVoidTy()?0:slot[&C]; Type* T=C.getType();
        if(C.isInlineAsm()){ auto*ia=cast<InlineAsm>(C.getCalledOperand()); std::string s=ia->getAsmString(); if(s.find("pause")!=std::string::npos||s.find("rep; nop")!=std::string::npos) emit(O_PAUSE); else if(s.empty()){ if(slots(T)) unsup(C);} else unsup(C); return; }
        Function* cf=C.getCalledFunction(); 
        if(!cf) if(auto*al=dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(al->getAliaseeObject());
        if(cf&&cf->isDeclaration()&&C.arg_size()==3&&(cf->getName()=="memset"||cf->getName()=="memcpy"||cf->getName()=="memmove")){
            i32 a0=opnd(C.getArgOperand(0)),a1=opnd(C.getArgOperand(1)),a2=opnd(C.getArgOperand(2));
            if(cf->getName()=="memset") emit(O_MEMSET,0,0,a0,a1,a2); else emit(O_MEMCPY,0,0,a0,a1,a2).fl=cf->getName()=="memmove";
            if(d) emit(O_MOVE,64,d,a0); fin(C); return; }
        if(cf&&cf->isIntrinsic()){
            auto id=cf->getIntrinsicID(); auto A=[&](unsigned k){ return opnd(C.getArgOperand(k)); };
            switch(id){
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::stackrestore: return;
            case Intrinsic::stacksave: case Intrinsic::invariant_start: case Intrinsic::returnaddress: case Intrinsic::frameaddress: emit(O_MOVE,64,d,cst(0)); return;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: emit(O_MEMCPY,0,0,A(0),A(1),A(2)).fl=(id==Intrinsic::memmove); return;
            case Intrinsic::memset: emit(O_MEMSET,0,0,A(0),A(1),A(2)); return;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: for(u32 k=0;k<slots(T);k++) emit(O_MOVE,64,d+k,opnd(C.getArgOperand(0),k)); return;
            case Intrinsic::is_constant: emit(O_MOVE,1,d,cst(0)); return;
            case Intrinsic::objectsize: emit(O_MOVE,64,d,cst(~0ull)); return;
            case Intrinsic::trap: case Intrinsic::debugtrap: emit(O_TRAP); return;
            case Intrinsic::eh_typeid_for: emit(O_TYPEID,32,d,A(0)); return;
            case Intrinsic::threadlocal_address: emit(O_TLS,64,d,A(0)); return;
            case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
                emit(O_OVF,bits(C.getArgOperand(0)->getType()),d,A(0),A(1),0, id==Intrinsic::uadd_with_overflow?0: id==Intrinsic::usub_with_overflow?1: id==Intrinsic::umul_with_overflow?2: id==Intrinsic::sadd_with_overflow?3: id==Intrinsic::ssub_with_overflow?4:5); return;
            case Intrinsic::ctlz: emit(O_BITOP,bits(T),d,A(0),0,0,0); return; case Intrinsic::cttz: emit(O_BITOP,bits(T),d,A(0),0,0,1); return; case Intrinsic::ctpop: emit(O_BITOP,bits(T),d,A(0),0,0,2); return; case Intrinsic::bswap: emit(O_BITOP,bits(T),d,A(0),0,0,3); return;
            case Intrinsic::abs: emit(O_MINMAX,bits(T),d,A(0),A(0),0,4); return;
            case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: for(u32 k=0;k<slots(T);k++) emit(O_MINMAX,bits(T),d+k,opnd(C.getArgOperand(0),k),opnd(C.getArgOperand(1),k),0, id==Intrinsic::umax?0:id==Intrinsic::umin?1:id==Intrinsic::smax?2:id==Intrinsic::smin?3:id==Intrinsic::usub_sat?5:6); return;
            case Intrinsic::fshl: if(C.getArgOperand(0)==C.getArgOperand(1)||true){ // general funnel shift with constant amount
                if(auto*k=dyn_cast<ConstantInt>(C.getArgOperand(2))){ u8 w=bits(T); u64 s=k->getZExtValue()%w; i32 t1=newSlots(1),t2=newSlots(1); emit(O_BIN,w,t1,A(0),cst(s)).w2=EShl; if(s==0){ emit(O_MOVE,w,d,A(0)); return; } emit(O_BIN,w,t2,A(1),cst(w-s)).w2=ELShr; emit(O_BIN,w,d,t1,t2).w2=EOr; return; } }
                unsup(C); return;
            case Intrinsic::x86_sse2_pause: emit(O_PAUSE); return;
            case Intrinsic::ptrmask: emit(O_BIN,64,d,A(0),A(1)).w2=EAnd; return;
            default: unsup(C); return;
            }
        }
        // arguments
        std::vector<i32> ax;
        for(unsigned k=0;k<C.arg_size();k++){ Value* v=C.getArgOperand(k);
            if(C.paramHasAttr(k,Attribute::ByVal)){ Type* bt=C.getParamByValType(k); u64 sz=DL->getTypeAllocSize(bt); i32 t=newSlots(1); emit(O_ALLOCA,0,t,0,0,16,sz); emit(O_MEMCPY,0,0,t,opnd(v),cst(sz)); ax.push_back(t); continue; }
            u32 n=slots(v->getType()); for(u32 q=0;q<n;q++) ax.push_back(opnd(v,q)); }
        i32 ue=-1, ne=-1; 
        if(auto*v=dyn_cast<InvokeInst>(&C)){ ue=edge(v->getParent(),v->getUnwindDest()); ne=edge(v->getParent(),v->getNormalDest()); }
        u32 o=f->aux.size(); f->aux.insert(f->aux.end(),ax.begin(),ax.end());
        i32 callee=0; u64 imm=~0ull; if(cf){ imm=fmap[cf]->id; } else callee=opnd(C.getCalledOperand());
        Inst&x=emit(O_CALL,slots(T),d,callee,ne,ue,imm); x.aux=o; x.naux=ax.size();
    }
};
void compileFunc(Func* f){ if(f->compiled) return; f->compiled=true; FC c(f,*(Function*)f->llvm); c.run(); }
