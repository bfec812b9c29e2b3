// vga: abstract interpreter of LLVM IR over the value-graph domain of terms.h
//   vga FILE.bc OUT.json [--only substr] [--seed N] [--trials N] [--timeout S] [--repo /repo]
#include "terms.h"
#include "refine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/CommandLine.h>
#include <memory>
#include <chrono>
#include <random>
#include <fstream>
#include <sstream>
#include <iostream>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
typedef std::string str;

static Graph *Gp; 
#define G (*Gp)

struct Cell { Tm v; unsigned n; };
struct Obj { uint64_t uid; uint64_t size; std::map<uint64_t,Cell> c; Constant *init=nullptr; bool cst=false, heap=false, freed=false; str name; };
typedef std::shared_ptr<Obj> OP;
struct Chunk { OP o[32]; };
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  Obj* get(uint32_t id) const { uint32_t c=id>>5; if(c>=ch.size()||!ch[c]) return nullptr; return ch[c]->o[id&31].get(); }
  OP* slot(uint32_t id){ uint32_t c=id>>5; if(c>=ch.size()) ch.resize(c+1); if(!ch[c]) ch[c]=std::make_shared<Chunk>(); else if(ch[c].use_count()>1) ch[c]=std::make_shared<Chunk>(*ch[c]); return &ch[c]->o[id&31]; }
  Obj* mut(uint32_t id){ OP*s=slot(id); if(!*s) return nullptr; if(s->use_count()>1) *s=std::make_shared<Obj>(**s); return s->get(); }
};
struct State { Bd g=0; Mem m; };
struct Oblig { int kind; Bd g; Bd bad; str msg; str where; str path; };
struct FnInfo { std::vector<BasicBlock*> rpo; std::unordered_map<const BasicBlock*,unsigned> pos; std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; };
struct Ret { bool norm=false, exc=false; State ns, es; Tm val=0; Tm eptr=0; };

static str jesc(const str&s){ str o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }

struct Interp {
  Module &M; const DataLayout &DL;
  std::map<const Function*,std::unique_ptr<FnInfo>> finfo;
  std::map<const Value*,uint32_t> gobj; std::map<uint32_t,const Function*> fobj; std::vector<uint32_t> freeIds; uint32_t nextId=1; uint64_t nextUid=1;
  std::map<uint32_t,const GlobalVariable*> excType;   // exception object -> typeinfo
  std::map<std::pair<uint64_t,uint64_t>,Tm> undefs; uint64_t undefCnt=0; uint64_t undefReads=0;
  std::vector<Oblig> obl; std::vector<std::pair<int,int>> twins; int bound=700; Bd dropped=0; long trialsReq=0; bool mayThrow=false, valuesOnly=false;
  std::map<str,int> boundedLoops; std::set<str> fnsSeen; uint64_t steps=0, callsN=0; std::vector<str> cstack; std::vector<const Instruction*> istack;
  double deadline; str repo; str incompleteWhy;
  struct Hist { Bd g; Tm v; int draws; u128 lo,hi; str msg,where; u128 num=0,den=0,ppm=0; }; std::vector<Hist> hists;
  std::map<const GlobalVariable*,uint64_t> tids; 
  Interp(Module&m):M(m),DL(m.getDataLayout()){}
  static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  str locOf(const Instruction*I){ if(!I) return "?"; const DILocation*d=I->getDebugLoc().get(); if(!d) return "?"; str f=d->getFilename().str(); if(f.rfind("/",0)!=0) f=d->getDirectory().str()+"/"+f; return f+":"+std::to_string(d->getLine()); }
  str stackPath(){ str s; int k=0; for(int i=(int)istack.size()-1;i>=0&&k<12;--i){ str l=locOf(istack[i]); if(l=="?") continue; if(k++) s+=" <- "; s+=l; } return s; }
  // nearest location in repo sources
  str where(){ for(int i=(int)istack.size()-1;i>=0;--i){ str l=locOf(istack[i]); if(l.rfind(repo+"/",0)==0) return l; } return istack.empty()?"?":locOf(istack.back()); }
  [[noreturn]] void uns(const str&s){ throw Unsupported(s+" @ "+(istack.empty()?"?":locOf(istack.back()))+" in "+(cstack.empty()?"?":cstack.back())); }

  FnInfo& info(const Function*F){ auto&p=finfo[F]; if(p) return *p; p=std::make_unique<FnInfo>(); Function&f=*const_cast<Function*>(F);
    p->DT=std::make_unique<DominatorTree>(f); p->LI=std::make_unique<LoopInfo>(*p->DT);
    ReversePostOrderTraversal<Function*> R(&f); for(BasicBlock*b:R){ p->pos[b]=p->rpo.size(); p->rpo.push_back(b);} 
    // irreducible?
    for(BasicBlock*b:p->rpo) for(BasicBlock*s:successors(b)) if(p->pos[s]<=p->pos[b] && !p->DT->dominates(s,b)) throw Unsupported("irreducible CFG in "+F->getName().str());
    return *p; }

  // ---------------- objects
  uint32_t newId(){ if(!freeIds.empty()){ uint32_t i=freeIds.back(); freeIds.pop_back(); return i; } return nextId++; }
  uint32_t alloc(State&S, uint64_t size, const str&name, bool heap=false){ uint32_t id= heap? nextId++ : newId(); auto o=std::make_shared<Obj>(); o->uid=nextUid++; o->size=size; o->name=name; o->heap=heap; *S.m.slot(id)=o; return id; }
  Tm globalPtr(State&, const GlobalValue*GV){ auto it=gobj.find(GV); uint32_t id; if(it==gobj.end()){ id=nextId++; gobj[GV]=id; if(auto*F=dyn_cast<Function>(GV)) fobj[id]=F; gnames[id]=GV; } else id=it->second; return G.ptr(id,G.cst(64,0)); }
  std::map<uint32_t,const GlobalValue*> gnames;
  Obj* objRead(State&S, uint32_t id){ Obj*o=S.m.get(id); if(o) return o; materialize(S,id); return S.m.get(id); }
  void materialize(State&S, uint32_t id){ if(S.m.get(id)) return; auto it=gnames.find(id); if(it==gnames.end()) return; auto*GV=dyn_cast<GlobalVariable>(it->second); if(!GV){ auto*al=dyn_cast<GlobalAlias>(it->second); if(al) GV=dyn_cast<GlobalVariable>(al->getAliasee()->stripPointerCasts()); } if(!GV) return; auto o=std::make_shared<Obj>(); o->uid=nextUid++; o->size=GV->getValueType()->isSized()?DL.getTypeAllocSize(GV->getValueType()).getFixedValue():0; o->name=GV->getName().str(); o->cst=GV->isConstant(); if(GV->hasInitializer()) o->init=const_cast<Constant*>(GV->getInitializer()); else o->init=nullptr; *S.m.slot(id)=o; }
  Tm undef(Obj*o, uint64_t off, int kind, unsigned w){ auto k=std::make_pair(o->uid, off*4+ (w==8?0:w==16?1:w==32?2:3)); auto it=undefs.find(k); if(it!=undefs.end()) return conv(it->second,kind,w); ++undefReads; Tm t=G.sym(-1,++undefCnt,KI,w,0,maskw(w),0,0,true); G.syms[G.N[t].aux].name="uninitialised "+o->name+"+"+std::to_string(off); undefs[k]=t; return conv(t,kind,w); }
  Tm conv(Tm t,int kind,unsigned w){ const Node&x=G.n(t); if(x.kind==kind&&x.w==w) return t; if(kind==KI) return G.toInt(t); if(kind==KP){ return G.i2p(G.toInt(t)); } return G.toFP(G.toInt(t),kind); }
  static int kindOf(Type*T){ if(T->isIntegerTy()) return KI; if(T->isFloatTy()) return KF; if(T->isDoubleTy()) return KD; if(T->isX86_FP80Ty()) return KX; if(T->isPointerTy()) return KP; return KA; }
  unsigned widthOf(Type*T){ if(auto*I=dyn_cast<IntegerType>(T)) return I->getBitWidth(); if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; if(T->isX86_FP80Ty()) return 80; if(T->isPointerTy()) return 64; return 0; }

  // load n bytes at const offset, as int (w=8n)
  Tm loadBytes(State&S, Obj*o, uint32_t id, uint64_t off, unsigned n, int kind, unsigned w){
    auto it=o->c.upper_bound(off); if(it!=o->c.begin()){ auto p=std::prev(it); if(p->first==off&&p->second.n==n){ return conv(p->second.v,kind,w); } }
    // any overlap?
    bool any=false; { auto p=it; if(p!=o->c.begin()){ auto q=std::prev(p); if(q->first+q->second.n>off) any=true; } if(p!=o->c.end()&&p->first<off+n) any=true; }
    if(!any){ if(o->init){ return loadInit(S,o,off,n,kind,w); } 
      if(o->name.size()&&gnames.count(id)) uns("read of external global "+o->name);
      return undef(o,off,kind,w); }
    // assemble bytewise from cells
    Tm acc=0; unsigned i=0; while(i<n){ auto p=o->c.upper_bound(off+i); Tm piece=0; unsigned take=0; if(p!=o->c.begin()){ auto q=std::prev(p); if(q->first+q->second.n>off+i){ unsigned d=off+i-q->first; take=std::min<unsigned>(n-i,q->second.n-d); piece=G.extract(q->second.v,d*8,take*8); } }
      if(!take){ uint64_t nx= p==o->c.end()? off+n: std::min<uint64_t>(off+n,p->first); take=nx-(off+i); if(take!=1&&take!=2&&take!=4&&take!=8) take=1; if(o->init) piece=loadInit(S,o,off+i,take,KI,take*8); else piece=undef(o,off+i,KI,take*8); }
      acc= acc? G.concat(acc,piece):G.toInt(piece); i+=take; }
    return conv(acc,kind,w); }
  Tm loadInit(State&S, Obj*o, uint64_t off, unsigned n, int kind, unsigned w){
    Type*T= kind==KP? (Type*)PointerType::get(M.getContext(),0): kind==KF?Type::getFloatTy(M.getContext()):kind==KD?Type::getDoubleTy(M.getContext()):kind==KX?Type::getX86_FP80Ty(M.getContext()):(Type*)IntegerType::get(M.getContext(),n*8);
    Constant*C=ConstantFoldLoadFromConst(o->init,T,APInt(64,off),DL);
    if(!C){ if(kind!=KI){ Tm t=loadInit(S,o,off,n,KI,n*8); return conv(t,kind,w);} 
      if(n==8){ Constant*P=ConstantFoldLoadFromConst(o->init,PointerType::get(M.getContext(),0),APInt(64,off),DL); if(P) return conv(cval(S,P),kind,w); }
      if(o->init->isNullValue()) return conv(G.cst(n*8,0),kind,w);
      uns("constant initializer load"); }
    return conv(cval(S,C),kind,w); }
  void carve(Obj*o, uint64_t off, uint64_t n){ // remove [off,off+n) keeping partial pieces
    auto it=o->c.lower_bound(off); if(it!=o->c.begin()){ auto p=std::prev(it); if(p->first+p->second.n>off) it=p; }
    std::vector<std::pair<uint64_t,Cell>> add; while(it!=o->c.end()&&it->first<off+n){ uint64_t s=it->first,e=s+it->second.n; Tm v=it->second.v; if(s<off) add.push_back({s,{G.extract(v,0,(off-s)*8),(unsigned)(off-s)}}); if(e>off+n) add.push_back({off+n,{G.extract(v,(off+n-s)*8,(e-off-n)*8),(unsigned)(e-off-n)}}); it=o->c.erase(it); }
    for(auto&p:add) o->c[p.first]=p.second; }
  void storeBytes(Obj*o, uint64_t off, unsigned n, Tm v){ auto it=o->c.find(off); if(it!=o->c.end()&&it->second.n==n){ it->second.v=v; return; } 
    if(o->init&&!o->cst){} carve(o,off,n); o->c[off]={v,n}; }
  void oblige(State&S, Bd bad, const str&msg, int kind){ if(kind==2){ if(valuesOnly) return; kind=0; Bd b=G.band(S.g,G.bnot(dropped)); if(b==0) return; obl.push_back({0,S.g,b,msg,where(),stackPath()}); return; } Bd b=G.band(S.g,bad); if(b&&dropped) b=G.band(b,G.bnot(dropped)); if(kind==1&&(b==0||valuesOnly)) return; obl.push_back({kind,S.g,b,msg,where(),stackPath()}); }
  // enumerate leaves of a pointer term:  (cond, obj, offterm)
  struct Leaf { Bd c; uint32_t obj; Tm off; };
  void leaves(Tm p, Bd c, std::vector<Leaf>&out){ if(c==0) return; const Node&x=G.n(p); if(x.op==O_ITE){ Bd d=x.aux; leaves(x.a[0],G.band(c,d),out); leaves(x.a[1],G.band(c,G.bnot(d)),out); return; } if(x.op==O_PTR){ for(auto&l:out) if(l.obj==x.aux&&l.off==x.a[0]){ l.c=G.bor(l.c,c); return; } out.push_back({c,x.aux,x.a[0]}); return; } uns("opaque pointer dereference"); }
  // enumerate possible constant offsets
  struct OffC { Bd c; uint64_t off; };
  bool offsets(State&S, Tm off, uint64_t size, unsigned n, std::vector<OffC>&out, Bd &oob, size_t lim=2100){
    const Node&x=G.n(off); oob=0; if(x.op==O_CONST){ out.push_back({1,(uint64_t)x.c}); return true; }
    if(x.op==O_ITE&&G.isTree(off)){ std::map<uint64_t,Bd> m; std::function<void(Tm,Bd)> go=[&](Tm t,Bd c){ if(c==0) return; const Node&y=G.n(t); if(y.op==O_ITE){ Bd d=y.aux; go(y.a[0],G.band(c,d)); go(y.a[1],G.band(c,G.bnot(d))); } else { auto&r=m[(uint64_t)y.c]; r=G.bor(r,c);} }; go(off,1); for(auto&p:m) out.push_back({p.second,p.first}); return true; }
    Tm var=off; u128 k=1,c=0; if(x.op==O_LIN&&x.a.size()==1){ var=x.a[0]; k=x.k[0]; c=x.c; }
    if(k>size||k==0) { return false; }
    const Node&v=G.n(var); u128 lo=v.lo, hi=v.hi; u128 maxv=0; if((s128)c<0||c>size){ s128 sc=sx(c,64); // negative const part: shift
      u128 minv = (u128)((-sc + (s128)k-1)/(s128)k); if(lo<minv){ oob=G.bor(oob,G.ult(var,G.cst(64,minv))); lo=minv; } maxv=(u128)((s128)size-(s128)n-sc)/k; }
    else { if(c+n>size) return false; maxv=(size-n-c)/k; }
    if(hi>maxv){ oob=G.bor(oob,G.ult(G.cst(64,maxv),var)); hi=maxv; }
    if(lo>hi||hi-lo>=lim) return false; unsigned step=1; if(v.tz>0&&v.tz<10) step=1u<<v.tz; u128 st=(lo+step-1)/step*step;
    for(u128 i=st;i<=hi;i+=step){ Bd e=G.eq(var,G.cst(64,i)); if(e) out.push_back({e,(uint64_t)(c+k*i)}); } return true; }
  Tm loadScalar(State&S, Tm p, unsigned n, int kind, unsigned w){
    std::vector<Leaf> L; leaves(p,1,L); bool have=false; Tm res=0; 
    for(auto it=L.rbegin(); it!=L.rend(); ++it){ Bd lc=G.band(S.g,it->c); if(lc==0) continue; Tm v=0; 
      Obj*o= it->obj? objRead(S,it->obj):nullptr; if(!o||o->freed){ State t; t.g=lc; oblige(t,1,it->obj? "access to dead or external object":"null pointer dereference",1); if(it->obj&&gnames.count(it->obj)) uns("load from external object "+gnames[it->obj]->getName().str()); continue; }
      std::vector<OffC> os; Bd oob=0; 
      if(!G.isC(it->off) && o->cst && o->init && o->size/n>24 && (v=tableLoad(S,o,it->obj,it->off,n,kind,w,lc))){ }
      else { if(!offsets(S,it->off,o->size,n,os,oob)) uns("unbounded symbolic offset into "+o->name+" : "+G.show(it->off)); 
        if(oob){ State t; t.g=lc; oblige(t,oob,"out-of-bounds read of "+o->name,1);} 
        bool hv=false; for(auto oc=os.rbegin(); oc!=os.rend(); ++oc){ if(G.band(lc,oc->c)==0) continue; if(oc->off+n>o->size){ State t; t.g=lc; oblige(t,oc->c,"out-of-bounds read of "+o->name+" at "+std::to_string((int64_t)oc->off),1); continue; } Tm q=loadBytes(S,o,it->obj,oc->off,n,kind,w); v= hv? G.ite(oc->c,q,v):q; hv=true; }
        if(!hv) continue; }
      res= have? G.ite(it->c,v,res):v; have=true; }
    if(!have){ return conv(G.cst(kind==KI?w:kind==KP?64:fpw(kind),0),kind,w); }
    return res; }
  Tm tableLoad(State&S, Obj*o, uint32_t id, Tm off, unsigned n, int kind, unsigned w, Bd lc){
    const Node&x=G.n(off); Tm var=off; u128 k=1,c=0; if(x.op==O_LIN&&x.a.size()==1){ var=x.a[0]; k=x.k[0]; c=x.c; } if(k<n||k>64||kind==KP) return 0; s128 sc=sx(c,64); const Node&v=G.n(var); u128 lo=v.lo,hi=v.hi; if(sc<0) return 0; if((u128)sc+n>o->size) return 0; u128 maxv=(o->size-n-(u128)sc)/k; if(hi>maxv){ State t; t.g=lc; oblige(t,G.ult(G.cst(64,maxv),var),"out-of-bounds read of "+o->name,1); hi=maxv; } if(lo>hi||hi-lo>70000) return 0;
    std::vector<u128> vals; for(u128 i=0;i<=hi;++i) { Tm q=loadBytes(S,o,id,(uint64_t)(sc+(s128)(k*i)),n,kind,w); if(!G.isC(q)) return 0; vals.push_back(G.n(q).c); }
    return G.table(var,vals,kind,w); }
  void storeScalar(State&S, Tm p, Tm v, unsigned n){
    std::vector<Leaf> L; leaves(p,1,L);
    for(auto&l:L){ Bd lc=G.band(S.g,l.c); if(lc==0) continue; Obj*o= l.obj? objRead(S,l.obj):nullptr; if(!o||o->freed){ State t; t.g=lc; oblige(t,1,l.obj?"store to dead or external object":"null pointer store",1); if(l.obj&&gnames.count(l.obj)) uns("store to external"); continue; }
      std::vector<OffC> os; Bd oob=0; if(!offsets(S,l.off,o->size,n,os,oob)) uns("unbounded symbolic store offset into "+o->name+" : "+G.show(l.off));
      if(oob){ State t; t.g=lc; oblige(t,oob,"out-of-bounds write of "+o->name,1);} 
      bool sure = L.size()==1&&os.size()==1&&!oob; 
      for(auto&oc:os){ Bd cc=G.brestrict(G.band(l.c,oc.c),S.g); if(G.band(S.g,cc)==0) continue; if(oc.off+n>o->size){ State t; t.g=lc; oblige(t,oc.c,"out-of-bounds write of "+o->name,1); continue; }
        Tm nv=v; if(!sure&&cc!=1){ Tm old=loadBytes(S,objRead(S,l.obj),l.obj,oc.off,n,G.n(v).kind,G.n(v).kind==KI?G.n(v).w:widthK(v)); nv=G.ite(cc,v,old); }
        Obj*mo=S.m.mut(l.obj); storeBytes(mo,oc.off,n,nv); } } }
  unsigned widthK(Tm v){ const Node&x=G.n(v); return x.kind==KP?64:x.w; }
  Tm load(State&S, Tm p, Type*T){
    if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL.getStructLayout(ST); std::vector<Tm> v; for(unsigned i=0;i<ST->getNumElements();++i) v.push_back(load(S,G.padd(p,G.cst(64,SL->getElementOffset(i))),ST->getElementType(i))); return G.agg(v); }
    if(auto*AT=dyn_cast<ArrayType>(T)){ uint64_t es=DL.getTypeAllocSize(AT->getElementType()); std::vector<Tm> v; for(unsigned i=0;i<AT->getNumElements();++i) v.push_back(load(S,G.padd(p,G.cst(64,i*es)),AT->getElementType())); return G.agg(v); }
    if(auto*VT=dyn_cast<FixedVectorType>(T)){ uint64_t es=DL.getTypeAllocSize(VT->getElementType()); std::vector<Tm> v; for(unsigned i=0;i<VT->getNumElements();++i) v.push_back(load(S,G.padd(p,G.cst(64,i*es)),VT->getElementType())); return G.agg(v); }
    int k=kindOf(T); unsigned w=widthOf(T); unsigned n=DL.getTypeStoreSize(T).getFixedValue(); if(k==KI&&w!=n*8){ Tm t=loadScalar(S,p,n,KI,n*8); return G.trunc(t,w); } return loadScalar(S,p,n,k,w); }
  void store(State&S, Tm p, Tm v, Type*T){
    if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL.getStructLayout(ST); std::vector<Tm> a=G.n(v).a; for(unsigned i=0;i<ST->getNumElements();++i) store(S,G.padd(p,G.cst(64,SL->getElementOffset(i))),a[i],ST->getElementType(i)); return; }
    if(auto*AT=dyn_cast<ArrayType>(T)){ uint64_t es=DL.getTypeAllocSize(AT->getElementType()); std::vector<Tm> a=G.n(v).a; for(unsigned i=0;i<AT->getNumElements();++i) store(S,G.padd(p,G.cst(64,i*es)),a[i],AT->getElementType()); return; }
    if(auto*VT=dyn_cast<FixedVectorType>(T)){ uint64_t es=DL.getTypeAllocSize(VT->getElementType()); std::vector<Tm> a=G.n(v).a; for(unsigned i=0;i<VT->getNumElements();++i) store(S,G.padd(p,G.cst(64,i*es)),a[i],VT->getElementType()); return; }
    unsigned w=widthOf(T), n=DL.getTypeStoreSize(T).getFixedValue(); if(T->isIntegerTy()&&w!=n*8) v=G.zext(v,n*8); storeScalar(S,p,v,n); }
  void copyMem(State&S, Tm d, Tm s, uint64_t n){
    if(!n) return; std::vector<Leaf> LD,LS; leaves(d,1,LD); leaves(s,1,LS);
    if(LD.size()==1&&LS.size()==1&&G.isC(LD[0].off)&&G.isC(LS[0].off)){ uint64_t so=(uint64_t)G.n(LS[0].off).c, dof=(uint64_t)G.n(LD[0].off).c; Obj*src=objRead(S,LS[0].obj); if(!src||LS[0].obj==0){ oblige(S,1,"copy from null/dead object",1); return;} if(!objRead(S,LD[0].obj)||LD[0].obj==0){ oblige(S,1,"copy to null/dead object",1); return;} 
      if(so+n>src->size||src->freed){ oblige(S,1,"out-of-bounds copy from "+src->name,1); return; } Obj*dd=S.m.get(LD[0].obj); if(dof+n>dd->size||dd->freed){ oblige(S,1,"out-of-bounds copy to "+dd->name,1); return; }
      std::vector<std::pair<uint64_t,Cell>> cells; 
      if(src->init){ // constant: word pieces
        uint64_t i=0; while(i<n){ auto it=src->c.find(so+i); unsigned t; if(it!=src->c.end()&&it->second.n<=n-i) t=it->second.n; else { t=8; while(t>n-i||((so+i)%t)) t/=2; } cells.push_back({i,{loadBytes(S,src,LS[0].obj,so+i,t,KI,t*8),t}}); i+=t; } }
      else { auto it=src->c.lower_bound(so); if(it!=src->c.begin()){ auto p=std::prev(it); if(p->first+p->second.n>so){ uint64_t e=std::min(p->first+p->second.n,so+n); cells.push_back({0,{G.extract(p->second.v,(so-p->first)*8,(e-so)*8),(unsigned)(e-so)}}); } }
        for(;it!=src->c.end()&&it->first<so+n;++it){ uint64_t e=it->first+it->second.n; if(e<=so+n) cells.push_back({it->first-so,it->second}); else cells.push_back({it->first-so,{G.extract(it->second.v,0,(so+n-it->first)*8),(unsigned)(so+n-it->first)}}); } }
      Obj*mo=S.m.mut(LD[0].obj); carve(mo,dof,n); for(auto&c:cells) mo->c[dof+c.first]=c.second; return; }
    if(n>4096) uns("memcpy with symbolic pointers"); // elementwise
    std::vector<Tm> tmp; unsigned st= n%8==0?8: n%4==0?4:1; for(uint64_t i=0;i<n;i+=st) tmp.push_back(loadScalar(S,G.padd(s,G.cst(64,i)),st,KI,st*8)); for(uint64_t i=0;i<n;i+=st) storeScalar(S,G.padd(d,G.cst(64,i)),tmp[i/st],st); }
  void setMem(State&S, Tm d, Tm val, uint64_t n){ if(!n) return; uint64_t i=0; Tm v8=G.trunc(val,8); std::vector<Leaf> L; leaves(d,1,L); uint64_t base= L.size()==1&&G.isC(L[0].off)? (uint64_t)G.n(L[0].off).c:0; while(i<n){ unsigned t=8; while(t>n-i||((base+i)%t)) t/=2; Tm v=v8; if(G.isC(v8)){ u128 b=G.n(v8).c,r=0; for(unsigned k=0;k<t;++k) r=(r<<8)|b; v=G.cst(t*8,r);} else { for(unsigned k=1;k<t;++k) v=G.concat(v,v8);} storeScalar(S,G.padd(d,G.cst(64,i)),v,t); i+=t; } }

  // ---------------- joins
  void mergeObj(Bd c, Bd g, Obj*a, Obj*b, Obj*r, uint32_t id){ // r = c? a : b ; r is fresh copy of a
    std::vector<std::pair<uint64_t,unsigned>> keys; for(auto&p:a->c) keys.push_back({p.first,p.second.n}); for(auto&p:b->c){ auto it=a->c.find(p.first); if(it==a->c.end()||it->second.n!=p.second.n) keys.push_back({p.first,p.second.n}); }
    std::map<uint64_t,Cell> out; State tmp; tmp.g=g; bool simple=true; 
    if(a->c.size()==b->c.size()){ auto i=a->c.begin(), j=b->c.begin(); for(;i!=a->c.end();++i,++j) if(i->first!=j->first||i->second.n!=j->second.n){ simple=false; break; } } else simple=false;
    if(simple){ auto j=b->c.begin(); for(auto i=a->c.begin();i!=a->c.end();++i,++j){ Cell x=i->second; if(x.v!=j->second.v) x.v=mergeV(c,x.v,j->second.v); out[i->first]=x; } r->c.swap(out); return; }
    std::sort(keys.begin(),keys.end()); // choose boundaries: union of cut points
    std::set<uint64_t> cuts; for(auto&k:keys){ cuts.insert(k.first); cuts.insert(k.first+k.second);} 
    for(auto it=cuts.begin(); it!=cuts.end(); ++it){ auto nx=std::next(it); if(nx==cuts.end()) break; uint64_t s=*it,e=*nx; auto cov=[&](Obj*o)->const Cell*{ auto p=o->c.upper_bound(s); if(p==o->c.begin()) return nullptr; --p; return p->first+p->second.n>s? &p->second:nullptr; }; const Cell*ca=cov(a),*cb=cov(b); if(!ca&&!cb) continue; unsigned n=e-s; 
      auto get=[&](Obj*o,const Cell*cc)->Tm{ auto it2=o->c.find(s); if(it2!=o->c.end()&&it2->second.n==n) return it2->second.v; if(!cc&&!o->init&&n!=1&&n!=2&&n!=4&&n!=8){ Tm acc=0; for(unsigned i=0;i<n;++i){ Tm u=undef(o,s+i,KI,8); acc=acc?G.concat(acc,u):u; } return acc; } return loadBytes(tmp,o,id,s,n,KI,n*8); };
      Tm va=get(a,ca), vb=get(b,cb); out[s]={mergeV(c,va,vb),n}; }
    r->c.swap(out); }
  Tm mergeV(Bd c, Tm a, Tm b){ if(a==b) return a; const Node&x=G.n(a),&y=G.n(b); if(x.kind!=y.kind){ if(x.kind==KA||y.kind==KA) return a; if(x.kind==KP) b=G.i2p(G.toInt(b)); else if(y.kind==KP) a=G.i2p(G.toInt(a)); else if(x.kind!=KI) b=conv(G.toInt(b),x.kind,x.w); else if(y.kind!=KI) a=conv(G.toInt(a),y.kind,y.w); } return G.ite(c,a,b); }
  void mergeState(State&A, const State&B){ // A := A or B   (disjoint guards)
    if(B.g==0) return; if(A.g==0){ A=B; return; }
    Bd u=G.bor(A.g,B.g); Bd c=G.brestrict(A.g,u); 
    size_t nc=std::max(A.m.ch.size(),B.m.ch.size()); A.m.ch.resize(nc);
    for(size_t k=0;k<nc;++k){ Chunk*bc= k<B.m.ch.size()?B.m.ch[k].get():nullptr; if(!bc||A.m.ch[k].get()==bc) continue; if(!A.m.ch[k]){ A.m.ch[k]=B.m.ch[k]; continue; }
      for(int i=0;i<32;++i){ Obj*a=A.m.ch[k]->o[i].get(), *b=bc->o[i].get(); if(a==b||!b) continue; uint32_t id=k*32+i; if(!a){ *A.m.slot(id)=bc->o[i]; continue; }
        if(a->uid!=b->uid){ if(gnames.count(id)&&a->c.empty()&&b->c.empty()) continue; if(gnames.count(id)) { } else { // different incarnations of a recycled slot: keep whichever is live
            continue; } }
        if(a->freed!=b->freed){ // freed on one path only: keep the live one
          if(a->freed) *A.m.slot(id)=bc->o[i]; continue; }
        auto r=std::make_shared<Obj>(*a); OP ka=A.m.ch[k]->o[i]; mergeObj(c,u,a,b,r.get(),id); *A.m.slot(id)=r; } }
    A.g=u; }

  // ---------------- constants
  Tm cval(State&S, const Constant*C){
    if(auto*I=dyn_cast<ConstantInt>(C)){ const APInt&v=I->getValue(); u128 x=0; if(v.getBitWidth()>128) uns("wide int"); x=v.getRawData()[0]; if(v.getNumWords()>1) x|=(u128)v.getRawData()[1]<<64; return G.cst(v.getBitWidth(),x); }
    if(auto*F=dyn_cast<ConstantFP>(C)){ APInt b=F->getValueAPF().bitcastToAPInt(); u128 x=b.getRawData()[0]; if(b.getNumWords()>1) x|=(u128)b.getRawData()[1]<<64; int k=kindOf(C->getType()); if(k==KA) uns("fp type"); return G.fcst(k,x); }
    if(isa<ConstantPointerNull>(C)) return G.nullp();
    if(auto*GV=dyn_cast<GlobalValue>(C)){ if(auto*A=dyn_cast<GlobalAlias>(GV)) return cval(S,A->getAliasee()); return globalPtr(S,GV); }
    Type*T=C->getType();
    if(isa<UndefValue>(C)){ return undefOf(T); }
    if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ unsigned n= T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); std::vector<Tm> v; for(unsigned i=0;i<n;++i) v.push_back(cval(S,C->getAggregateElement(i))); return G.agg(v); }
    if(C->isNullValue()){ return conv(G.cst(widthOf(T),0),kindOf(T),widthOf(T)); }
    if(auto*E=dyn_cast<ConstantExpr>(C)){
      switch(E->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); const Value*b=E->stripAndAccumulateConstantOffsets(DL,off,true); if(b==E) uns("const gep"); return G.padd(cval(S,cast<Constant>(b)),G.cst(64,(u128)(s128)off.getSExtValue())); }
      case Instruction::PtrToInt: return G.trunc(G.p2i(cval(S,E->getOperand(0))),widthOf(T));
      case Instruction::IntToPtr: return G.i2p(G.zext(cval(S,E->getOperand(0)),64));
      case Instruction::BitCast: case Instruction::AddrSpaceCast: { Tm t=cval(S,E->getOperand(0)); return conv(t,kindOf(T),widthOf(T)); }
      case Instruction::Sub: return G.sub(cval(S,E->getOperand(0)),cval(S,E->getOperand(1)));
      case Instruction::Add: return G.add(cval(S,E->getOperand(0)),cval(S,E->getOperand(1)));
      case Instruction::Trunc: return G.trunc(cval(S,E->getOperand(0)),widthOf(T));
      case Instruction::ICmp: { const ICmpInst::Predicate p=(ICmpInst::Predicate)E->getPredicate(); return G.boolT(icmp(p,cval(S,E->getOperand(0)),cval(S,E->getOperand(1)))); }
      default: uns("constexpr"); } }
    uns("constant kind"); }
  Tm undefOf(Type*T){ if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ unsigned n= T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); std::vector<Tm> v; for(unsigned i=0;i<n;++i) v.push_back(undefOf(T->isStructTy()?T->getStructElementType(i):T->isArrayTy()?T->getArrayElementType():cast<VectorType>(T)->getElementType())); return G.agg(v); } return conv(G.cst(widthOf(T),0),kindOf(T),widthOf(T)); }
  Bd icmp(ICmpInst::Predicate p, Tm a, Tm b){ switch(p){ case ICmpInst::ICMP_EQ: return G.eq(a,b); case ICmpInst::ICMP_NE: return G.bnot(G.eq(a,b)); case ICmpInst::ICMP_ULT: return G.ult(a,b); case ICmpInst::ICMP_UGT: return G.ult(b,a); case ICmpInst::ICMP_ULE: return G.bnot(G.ult(b,a)); case ICmpInst::ICMP_UGE: return G.bnot(G.ult(a,b)); case ICmpInst::ICMP_SLT: return G.slt(a,b); case ICmpInst::ICMP_SGT: return G.slt(b,a); case ICmpInst::ICMP_SLE: return G.bnot(G.slt(b,a)); case ICmpInst::ICMP_SGE: return G.bnot(G.slt(a,b)); default: throw Unsupported("icmp"); } }
  Bd fcmp(FCmpInst::Predicate p, Tm a, Tm b){ Bd un=G.fcmp(O_FUNO,a,b); switch(p){ case FCmpInst::FCMP_FALSE: return 0; case FCmpInst::FCMP_TRUE: return 1; case FCmpInst::FCMP_ORD: return G.bnot(un); case FCmpInst::FCMP_UNO: return un; case FCmpInst::FCMP_OEQ: return G.fcmp(O_FEQ,a,b); case FCmpInst::FCMP_UEQ: return G.bor(un,G.fcmp(O_FEQ,a,b)); case FCmpInst::FCMP_ONE: return G.band(G.bnot(un),G.bnot(G.fcmp(O_FEQ,a,b))); case FCmpInst::FCMP_UNE: return G.bnot(G.fcmp(O_FEQ,a,b)); case FCmpInst::FCMP_OLT: return G.fcmp(O_FLT,a,b); case FCmpInst::FCMP_OGT: return G.fcmp(O_FLT,b,a); case FCmpInst::FCMP_OLE: return G.fcmp(O_FLE,a,b); case FCmpInst::FCMP_OGE: return G.fcmp(O_FLE,b,a); case FCmpInst::FCMP_ULT: return G.bor(un,G.fcmp(O_FLT,a,b)); case FCmpInst::FCMP_UGT: return G.bor(un,G.fcmp(O_FLT,b,a)); case FCmpInst::FCMP_ULE: return G.bor(un,G.fcmp(O_FLE,a,b)); case FCmpInst::FCMP_UGE: return G.bor(un,G.fcmp(O_FLE,b,a)); default: throw Unsupported("fcmp"); } }

  // ---------------- exceptions: type hierarchy
  static const std::map<str,std::vector<str>>& stdH(){ static const std::map<str,std::vector<str>> h={ {"_ZTISt16invalid_argument",{"_ZTISt11logic_error"}}, {"_ZTISt12domain_error",{"_ZTISt11logic_error"}}, {"_ZTISt12length_error",{"_ZTISt11logic_error"}}, {"_ZTISt12out_of_range",{"_ZTISt11logic_error"}}, {"_ZTISt11logic_error",{"_ZTISt9exception"}}, {"_ZTISt13runtime_error",{"_ZTISt9exception"}}, {"_ZTISt11range_error",{"_ZTISt13runtime_error"}}, {"_ZTISt14overflow_error",{"_ZTISt13runtime_error"}}, {"_ZTISt15underflow_error",{"_ZTISt13runtime_error"}}, {"_ZTISt9bad_alloc",{"_ZTISt9exception"}}, {"_ZTISt8bad_cast",{"_ZTISt9exception"}}, {"_ZTISt12system_error",{"_ZTISt13runtime_error"}} }; return h; }
  bool derives(const GlobalVariable*X, const GlobalVariable*T){ if(X==T||X->getName()==T->getName()) return true; if(X->hasInitializer()){ std::vector<const GlobalVariable*> bs; const Constant*I=X->getInitializer(); for(unsigned i=2;i<I->getNumOperands();++i){ const Value*v=I->getOperand(i)->stripPointerCasts(); if(auto*g=dyn_cast<GlobalVariable>(v)) if(g->getName().starts_with("_ZTI")) bs.push_back(g);} for(auto*b:bs) if(derives(b,T)) return true; return false; }
    std::function<bool(const str&)> up=[&](const str&n)->bool{ if(n==T->getName().str()) return true; auto it=stdH().find(n); if(it==stdH().end()) return false; for(auto&b:it->second) if(up(b)) return true; return false; }; return up(X->getName().str()); }
  uint64_t tid(const GlobalVariable*g){ auto it=tids.find(g); if(it!=tids.end()) return it->second; uint64_t k=tids.size()+1; tids[g]=k; return k; }

  // ---------------- function interpretation
  struct Pend { State s; std::map<const PHINode*,Tm> phi; Tm eptr=0; };
  struct Act { const Function*F; FnInfo*fi; std::unordered_map<const Value*,Tm> env; std::vector<uint32_t> allocas; Tm lastCaught=0; };
  typedef std::vector<uint32_t> Key;
  Tm val(Act&A, State&S, const Value*V){ if(auto*C=dyn_cast<Constant>(V)) return cval(S,C); auto it=A.env.find(V); if(it==A.env.end()) uns("undefined SSA value"); return it->second; }

  Key keyFor(FnInfo&fi, const BasicBlock*from, const Key&fk, const BasicBlock*to){ // key layout: for each enclosing loop: pos(header), iter ; finally pos(block)
    std::vector<Loop*> chain; for(Loop*L=fi.LI->getLoopFor(to);L;L=L->getParentLoop()) chain.push_back(L); std::reverse(chain.begin(),chain.end());
    std::vector<Loop*> fch; if(from) for(Loop*L=fi.LI->getLoopFor(from);L;L=L->getParentLoop()) fch.push_back(L); std::reverse(fch.begin(),fch.end());
    Key k; bool same=true; for(size_t i=0;i<chain.size();++i){ uint32_t it=0; if(same&&i<fch.size()&&fch[i]==chain[i]){ it=fk[2*i+1]; if(chain[i]->getHeader()==to){ // back edge (from is inside loop)
            ++it; same=false; } } else same=false; k.push_back(fi.pos[chain[i]->getHeader()]); k.push_back(it); }
    k.push_back(fi.pos[to]); return k; }

  Ret call(const Function*F, const std::vector<Tm>&args, State&S){
    if(cstack.size()>400) uns("call depth"); if(F->isDeclaration()) uns("external function "+F->getName().str());
    if(now()>deadline) uns("timeout"); ++callsN;
    FnInfo&fi=info(F); Act A; A.F=F; A.fi=&fi; cstack.push_back(F->getName().str());
    if(auto*sp=F->getSubprogram()){ str f=sp->getFilename().str(); if(f.rfind(repo+"/",0)==0) fnsSeen.insert(demangle(F->getName().str())+" @"+f.substr(repo.size()+1)); }
    Bd g0=S.g; unsigned ai=0; for(const Argument&a:F->args()){ Tm v= ai<args.size()?args[ai]:undefOf(a.getType()); if(a.hasByValAttr()){ uint64_t n=DL.getTypeAllocSize(a.getParamByValType()); uint32_t id=alloc(S,n,"byval"); A.allocas.push_back(id); Tm p=G.ptr(id,G.cst(64,0)); copyMem(S,p,v,n); v=p; } A.env[&a]=v; ++ai; }
    std::map<Key,std::pair<const BasicBlock*,Pend>> work; Ret R; Bd retg=0;
    { Pend p; p.s=S; S=State(); Key k=keyFor(fi,nullptr,{},&F->getEntryBlock()); work[k]={&F->getEntryBlock(),p}; }
    std::map<const BasicBlock*,std::pair<Bd,int>> hdr; // last guard, symbolic iterations per loop header activation
    while(!work.empty()){
      auto it=work.begin(); Key key=it->first; const BasicBlock*BB=it->second.first; Pend P=std::move(it->second.second); work.erase(it);
      State St=std::move(P.s); if(St.g==0) continue;
      // loop header bookkeeping
      if(fi.LI->isLoopHeader(const_cast<BasicBlock*>(BB))){ uint32_t iter=key[key.size()-2]; if(iter==0) hdr[BB]={St.g,0}; else { auto&h=hdr[BB]; if(h.first!=St.g){ Bd nd=G.bnot(dropped); Bd gn=G.band(St.g,nd); if(gn==0||G.band(h.first,nd)!=gn) ++h.second; h.first=St.g; if(h.second>=bound){ boundedLoops[where2(BB)]++; dropped=G.bor(dropped,St.g); continue; } } if(iter>400000) uns("loop iteration limit"); } }
      for(auto&p:P.phi) A.env[p.first]=p.second;
      if(P.eptr) excIn[BB]=P.eptr;
      auto edge=[&](const BasicBlock*to, State&&s, Tm eptr=0){ if(s.g==0) return; Key k=keyFor(fi,BB,key,to); std::map<const PHINode*,Tm> ph; for(const PHINode&pn:to->phis()){ const Value*v=pn.getIncomingValueForBlock(BB); Tm t; if(isa<UndefValue>(v)) t=undefOf(v->getType()); else t=val(A,s,v); ph[&pn]=t; }
        auto f=work.find(k); if(f==work.end()){ Pend q; q.s=std::move(s); q.phi=std::move(ph); q.eptr=eptr; work[k]={to,std::move(q)}; }
        else { Pend&q=f->second.second; Bd u=G.bor(q.s.g,s.g); Bd c=G.brestrict(q.s.g,u); for(auto&p:q.phi) p.second=mergeV(c,p.second,ph[p.first]); if(q.eptr&&eptr) q.eptr=G.ite(c,q.eptr,eptr); mergeState(q.s,s); } };
      bool stop=false;
      for(const Instruction&I:*BB){
        if(isa<PHINode>(I)) continue; if((++steps&1023)==0&&now()>deadline) uns("timeout");
        istack.push_back(&I); G.curloc=&I;
        switch(I.getOpcode()){
        case Instruction::Ret: { Tm v=0; if(I.getNumOperands()) v=val(A,St,I.getOperand(0)); if(!R.norm){ R.norm=true; R.val=v; R.ns=std::move(St);} else { Bd c=G.brestrict(R.ns.g,G.bor(R.ns.g,St.g)); if(v) R.val=mergeV(c,R.val,v); mergeState(R.ns,St);} stop=true; break; }
        case Instruction::Br: { auto*B=cast<BranchInst>(&I); if(B->isUnconditional()) edge(B->getSuccessor(0),std::move(St)); else { Bd c=G.asB(val(A,St,B->getCondition())); { auto ubt=[](BasicBlock*X){ for(Instruction&J:*X){ if(J.isDebugOrPseudoInst()) continue; auto*II=dyn_cast<IntrinsicInst>(&J); return II&&II->getIntrinsicID()==Intrinsic::ubsantrap; } return false; }; bool u0=ubt(B->getSuccessor(0)), u1=ubt(B->getSuccessor(1)); if(u0!=u1){ oblige(St,u0?c:G.bnot(c),"signed overflow, or a shift by more than the width",1); edge(B->getSuccessor(u0?1:0),std::move(St)); stop=true; break; } } Bd g1=G.band(St.g,c), g0=G.band(St.g,G.bnot(c)); if(B->getSuccessor(0)==B->getSuccessor(1)){ edge(B->getSuccessor(0),std::move(St)); stop=true; break; } g1=prune(g1); g0=prune(g0); if(g1&&g0){ State s2=St; s2.g=g0; St.g=g1; edge(B->getSuccessor(0),std::move(St)); edge(B->getSuccessor(1),std::move(s2)); } else if(g1){ St.g=g1; edge(B->getSuccessor(0),std::move(St)); } else if(g0){ St.g=g0; edge(B->getSuccessor(1),std::move(St)); } } stop=true; break; }
        case Instruction::Switch: { auto*W=cast<SwitchInst>(&I); Tm v=val(A,St,W->getCondition()); Bd rest=St.g; std::map<const BasicBlock*,Bd> tg; for(auto&c:W->cases()){ Bd e=G.eq(v,cval(St,c.getCaseValue())); Bd g=G.band(rest,e); rest=G.band(rest,G.bnot(e)); auto&q=tg[c.getCaseSuccessor()]; q=G.bor(q,g);} auto&q=tg[W->getDefaultDest()]; q=G.bor(q,rest); for(auto&p:tg) if(p.second){ State s2=St; s2.g=p.second; edge(p.first,std::move(s2)); } stop=true; break; }
        case Instruction::Unreachable: { oblige(St,1,"unreachable code reached (missing return or UB)",1); stop=true; break; }
        case Instruction::Resume: { Tm v=val(A,St,I.getOperand(0)); Tm p=G.n(v).a[0]; addExc(R,std::move(St),p); stop=true; break; }
        case Instruction::Call: case Instruction::Invoke: {
          const CallBase&CB=cast<CallBase>(I); Ret r=doCall(A,CB,St); 
          if(r.exc&&r.es.g){ if(auto*IV=dyn_cast<InvokeInst>(&I)) edge(IV->getUnwindDest(),std::move(r.es),r.eptr); else if(CB.doesNotThrow()&&0){} else addExc(R,std::move(r.es),r.eptr); }
          if(!r.norm||r.ns.g==0){ stop=true; break; } St=std::move(r.ns); if(!I.getType()->isVoidTy()) A.env[&I]=r.val? r.val: undefOf(I.getType());
          if(auto*IV=dyn_cast<InvokeInst>(&I)){ edge(IV->getNormalDest(),std::move(St)); stop=true; } break; }
        case Instruction::LandingPad: { auto*LP=cast<LandingPadInst>(&I); Tm ep=excIn[BB]; // per-leaf selector
          Bd miss=0; Tm sel=0; std::vector<std::pair<Bd,uint64_t>> parts; std::vector<Leaf> L; leaves(ep,1,L); bool first=true; 
          for(auto&l:L){ auto et=excType.find(l.obj); uint64_t s=~0ull; for(unsigned i=0;i<LP->getNumClauses()&&s==~0ull;++i){ if(LP->isCatch(i)){ auto*C=LP->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(C)) s=tid(nullptr)+1000; else if(et!=excType.end()&&derives(et->second,cast<GlobalVariable>(C))) s=tid(cast<GlobalVariable>(C)); } else { if(LP->getClause(i)->getType()->getArrayNumElements()==0) s=999999; } }
            if(s==~0ull){ if(LP->isCleanup()) s=0; else { miss=G.bor(miss,l.c); continue; } }
            Tm sv=G.cst(32,s); sel= first? sv: G.ite(l.c,sv,sel); first=false; }
          Bd mg=G.band(St.g,miss); if(mg){ State s2=St; s2.g=mg; addExc(R,std::move(s2),ep); St.g=G.band(St.g,G.bnot(miss)); if(St.g==0){ stop=true; break; } }
          A.env[&I]=G.agg({ep,sel?sel:G.cst(32,0)}); break; }
        default: A.env[&I]=exec(A,St,I); 
        }
        istack.pop_back(); if(stop) break;
      }
    }
    // free allocas
    std::set<uint32_t> fre(A.allocas.begin(),A.allocas.end());
    for(uint32_t id:A.allocas){ if(R.norm&&R.ns.m.get(id)) R.ns.m.slot(id)->reset(); if(R.exc&&R.es.m.get(id)) R.es.m.slot(id)->reset(); freeIds.push_back(id); }
    if(R.norm&&!R.exc&&R.ns.g!=g0&&dropped&&G.band(g0,G.bnot(G.bor(R.ns.g,dropped)))==0) R.ns.g=g0;
    cstack.pop_back(); (void)retg; return R; }
  std::unordered_map<const BasicBlock*,Tm> excIn;
  str where2(const BasicBlock*BB){ for(const Instruction&I:*BB){ str l=locOf(&I); if(l!="?"&&l.find(":0")==str::npos) return l; } return BB->getParent()->getName().str(); }
  void addExc(Ret&R, State&&s, Tm p){ if(s.g==0) return; if(!R.exc){ R.exc=true; R.es=std::move(s); R.eptr=p; } else { Bd c=G.brestrict(R.es.g,G.bor(R.es.g,s.g)); R.eptr=mergeV(c,R.eptr,p); mergeState(R.es,s); } }
  // path-guard pruning by interval axioms between constant comparisons of the same term
  Bd prune(Bd g){ return g; }

  Tm exec(Act&A, State&S, const Instruction&I){
    auto op=[&](unsigned i){ return val(A,S,I.getOperand(i)); }; Type*T=I.getType();
    if(auto*BO=dyn_cast<BinaryOperator>(&I)){ Tm a=op(0),b=op(1); if(T->isVectorTy()){ std::vector<Tm> r; std::vector<Tm> x=G.n(a).a,y=G.n(b).a; for(size_t i=0;i<x.size();++i) r.push_back(bin(S,BO->getOpcode(),x[i],y[i])); return G.agg(r);} return bin(S,BO->getOpcode(),a,b); }
    switch(I.getOpcode()){
    case Instruction::Alloca: { auto&AI=cast<AllocaInst>(I); uint64_t n=DL.getTypeAllocSize(AI.getAllocatedType()); Tm c=op(0); if(!G.isC(c)) uns("dynamic alloca"); n*=(uint64_t)G.n(c).c; uint32_t id=alloc(S,n,AI.getName().str()); A.allocas.push_back(id); return G.ptr(id,G.cst(64,0)); }
    case Instruction::Load: return load(S,op(0),T);
    case Instruction::Store: { store(S,op(1),op(0),I.getOperand(0)->getType()); return 0; }
    case Instruction::GetElementPtr: { auto&GE=cast<GetElementPtrInst>(I); if(T->isVectorTy()) uns("vector gep"); Tm p=op(0); Tm off=G.cst(64,0); for(auto gi=gep_type_begin(GE),ge=gep_type_end(GE); gi!=ge; ++gi){ Tm ix=val(A,S,gi.getOperand()); if(StructType*ST=gi.getStructTypeOrNull()) off=G.add(off,G.cst(64,DL.getStructLayout(ST)->getElementOffset((unsigned)G.n(ix).c))); else { uint64_t sz=DL.getTypeAllocSize(gi.getIndexedType()); off=G.add(off,G.mulc(G.sext(ix,64),sz)); } } return G.padd(p,off); }
    case Instruction::ICmp: { auto&C=cast<ICmpInst>(I); Tm a=op(0),b=op(1); if(T->isVectorTy()) uns("vec icmp"); return G.boolT(icmp(C.getPredicate(),a,b)); }
    case Instruction::FCmp: { auto&C=cast<FCmpInst>(I); return G.boolT(fcmp(C.getPredicate(),op(0),op(1))); }
    case Instruction::Select: { Tm c=op(0),a=op(1),b=op(2); Bd cc=G.brestrict(G.asB(c),S.g); return mergeV(cc,a,b); }
    case Instruction::ZExt: return G.zext(op(0),widthOf(T)); case Instruction::SExt: return G.sext(op(0),widthOf(T)); case Instruction::Trunc: return G.trunc(op(0),widthOf(T));
    case Instruction::FPToUI: return G.f2i(op(0),widthOf(T),false); case Instruction::FPToSI: return G.f2i(op(0),widthOf(T),true);
    case Instruction::UIToFP: return G.i2f(op(0),kindOf(T),false); case Instruction::SIToFP: return G.i2f(op(0),kindOf(T),true);
    case Instruction::FPExt: return G.fext(op(0),kindOf(T)); case Instruction::FPTrunc: return G.ftrunc(op(0),kindOf(T));
    case Instruction::FNeg: return G.fneg(op(0));
    case Instruction::PtrToInt: return G.trunc(G.p2i(op(0)),widthOf(T)); case Instruction::IntToPtr: return G.i2p(G.zext(op(0),64));
    case Instruction::BitCast: { Tm a=op(0); if(kindOf(T)==KA&&!T->isVectorTy()) uns("bitcast"); if(T->isVectorTy()||I.getOperand(0)->getType()->isVectorTy()) return vcast(a,I.getOperand(0)->getType(),T); return conv(a,kindOf(T),widthOf(T)); }
    case Instruction::Freeze: return op(0);
    case Instruction::ExtractValue: { auto&E=cast<ExtractValueInst>(I); Tm a=op(0); for(unsigned ix:E.indices()) a=G.n(a).a[ix]; return a; }
    case Instruction::InsertValue: { auto&E=cast<InsertValueInst>(I); std::function<Tm(Tm,unsigned)> ins=[&](Tm a,unsigned d)->Tm{ if(d==E.getNumIndices()) return op(1); std::vector<Tm> v=G.n(a).a; v[E.getIndices()[d]]=ins(v[E.getIndices()[d]],d+1); return G.agg(v); }; return ins(op(0),0); }
    case Instruction::ExtractElement: { Tm i=op(1); if(!G.isC(i)) uns("extractelement"); return G.n(op(0)).a[(size_t)G.n(i).c]; }
    case Instruction::InsertElement: { Tm i=op(2); if(!G.isC(i)) uns("insertelement"); std::vector<Tm> v=G.n(op(0)).a; v[(size_t)G.n(i).c]=op(1); return G.agg(v); }
    case Instruction::Fence: return 0;
    default: uns(str("instruction ")+I.getOpcodeName()); } }
  Tm vcast(Tm a, Type*F, Type*T){ // via flat integer
    Tm flat; if(F->isVectorTy()){ std::vector<Tm> v=G.n(a).a; flat=0; for(Tm t:v) flat= flat? G.concat(flat,t):G.toInt(t); } else flat=G.toInt(a);
    if(T->isVectorTy()){ auto*VT=cast<FixedVectorType>(T); Type*E=VT->getElementType(); unsigned w=widthOf(E); std::vector<Tm> v; for(unsigned i=0;i<VT->getNumElements();++i) v.push_back(conv(G.extract(flat,i*w,w),kindOf(E),w)); return G.agg(v);} return conv(flat,kindOf(T),widthOf(T)); }
  Tm bin(State&S, unsigned opc, Tm a, Tm b){
    switch(opc){ case Instruction::Add: return G.add(a,b); case Instruction::Sub: return G.sub(a,b); case Instruction::Mul: return G.mul(a,b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { if(!(G.isC(b)&&G.n(b).c)) { Bd z=G.eq(b,G.cst(G.n(b).w,0)); if(z) oblige(S,z,"division by zero",1); } return opc==Instruction::UDiv?G.udiv(a,b):opc==Instruction::SDiv?G.sdiv(a,b):opc==Instruction::URem?G.urem(a,b):G.srem(a,b); }
    case Instruction::And: return G.and_(a,b); case Instruction::Or: return G.or_(a,b); case Instruction::Xor: return G.xr(a,b);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { unsigned w=G.n(a).w; if(w>1){ Bd z=G.bnot(G.ult(b,G.cst(w,w))); if(z) oblige(S,z,"shift count not smaller than operand width",1);} return opc==Instruction::Shl?G.shl(a,b):opc==Instruction::LShr?G.lshr(a,b):G.ashr(a,b); }
    case Instruction::FAdd: return G.fbin(O_FADD,a,b); case Instruction::FSub: return G.fbin(O_FSUB,a,b); case Instruction::FMul: return G.fbin(O_FMUL,a,b); case Instruction::FDiv: return G.fbin(O_FDIV,a,b); case Instruction::FRem: return G.fbin(O_FREM,a,b);
    default: uns("binop"); } }
  str cstring(State&S, Tm p){ str r; const Node&x=G.n(p); if(x.op!=O_PTR) return "?"; Obj*o=objRead(S,x.aux); if(!o||!G.isC(x.a[0])) return "?"; uint64_t off=(uint64_t)G.n(x.a[0]).c; for(int i=0;i<400&&off<o->size;++i,++off){ Tm t=loadBytes(S,o,x.aux,off,1,KI,8); if(!G.isC(t)) return "?"; if(!G.n(t).c) break; r+=(char)G.n(t).c; } return r; }
  Ret norm(State&S, Tm v=0){ Ret r; r.norm=true; r.val=v; r.ns=std::move(S); return r; }
  Ret throwType(State&S, const str&ti){ Ret r; const GlobalVariable*g=M.getGlobalVariable(ti,true); if(!g){ g=new GlobalVariable(M,PointerType::get(M.getContext(),0),true,GlobalValue::ExternalLinkage,nullptr,ti); } uint32_t id=alloc(S,64,"exception",true); excType[id]=g; r.exc=true; r.eptr=G.ptr(id,G.cst(64,0)); r.es=std::move(S); return r; }
  uint64_t constArg(Tm t, const char*what){ if(!G.isC(t)) uns(str("non-constant ")+what+": "+G.show(t)); return (uint64_t)G.n(t).c; }

  Ret doCall(Act&A, const CallBase&CB, State&S){
    const Function*F=CB.getCalledFunction(); std::vector<Tm> a;
    if(F&&F->isIntrinsic()){ auto id=F->getIntrinsicID(); switch(id){ case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: return norm(S,0); default: break; } }
    for(auto&u:CB.args()){ if(u->getType()->isMetadataTy()) a.push_back(0); else a.push_back(val(A,S,u)); }
    if(!F){ const Value*cv=CB.getCalledOperand()->stripPointerCasts(); F=dyn_cast<Function>(cv); if(!F) if(auto*al=dyn_cast<GlobalAlias>(cv)) F=dyn_cast<Function>(al->getAliaseeObject()); if(!F){ Tm p=val(A,S,CB.getCalledOperand()); std::vector<Leaf> L; leaves(p,1,L); std::vector<Leaf> L2; for(auto&l:L) if(G.band(S.g,l.c)) L2.push_back(l); if(L2.size()!=1||!fobj.count(L2[0].obj)) uns("indirect call with several targets"); F=fobj[L2[0].obj]; } }
    str n=F->getName().str(); Type*T=CB.getType();
    if(F->isIntrinsic()) return norm(S,intrinsic(A,CB,F->getIntrinsicID(),n,a,S));
    if(n.rfind("va_",0)==0){ Ret r; if(prim(CB,n,a,S,r)) return r; }
    Ret mr; if(model(A,CB,F,n,a,S,mr)) return mr; (void)T;
    return call(F,a,S); }

  Tm intrinsic(Act&A, const CallBase&CB, unsigned id, const str&n, std::vector<Tm>&a, State&S){
    Type*T=CB.getType(); unsigned w=widthOf(T); int k=kindOf(T);
    switch(id){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { memop(S,a[2],[&](State&s,uint64_t n){ copyMem(s,a[0],a[1],n); }); return 0; }
    case Intrinsic::memset: { memop(S,a[2],[&](State&s,uint64_t n){ setMem(s,a[0],a[1],n); }); return 0; }
    case Intrinsic::expect: return a[0];
    case Intrinsic::is_constant: return G.cst(1,0);
    case Intrinsic::objectsize: return G.cst(w,maskw(w));
    case Intrinsic::umin: return G.ite(G.ult(a[0],a[1]),a[0],a[1]); case Intrinsic::umax: return G.ite(G.ult(a[0],a[1]),a[1],a[0]);
    case Intrinsic::smin: return G.ite(G.slt(a[0],a[1]),a[0],a[1]); case Intrinsic::smax: return G.ite(G.slt(a[0],a[1]),a[1],a[0]);
    case Intrinsic::abs: return G.ite(G.slt(a[0],G.cst(w,0)),G.neg(a[0]),a[0]);
    case Intrinsic::ctpop: if(G.isC(a[0])) return G.cst(w,__builtin_popcountll((uint64_t)G.n(a[0]).c)); return G.mk(O_CTPOP,KI,w,{a[0]});
    case Intrinsic::ctlz: if(G.isC(a[0])) return G.cst(w,w-bl128(G.n(a[0]).c)); return G.mk(O_CTLZ,KI,w,{a[0]});
    case Intrinsic::cttz: if(G.isC(a[0])) return G.cst(w,G.n(a[0]).c?ctz128(G.n(a[0]).c):w); return G.mk(O_CTTZ,KI,w,{a[0]});
    case Intrinsic::fshl: case Intrinsic::fshr: { if(!G.isC(a[2])) uns("fsh"); unsigned s=(unsigned)(G.n(a[2]).c%w); if(id==Intrinsic::fshr) s=(w-s)%w; if(!s) return id==Intrinsic::fshl?a[0]:a[1]; return G.or_(G.shl(a[0],G.cst(w,s)),G.lshr(a[1],G.cst(w,w-s))); }
    case Intrinsic::uadd_with_overflow: { Tm s=G.add(a[0],a[1]); return G.agg({s,G.boolT(G.ult(s,a[0]))}); }
    case Intrinsic::usub_with_overflow: return G.agg({G.sub(a[0],a[1]),G.boolT(G.ult(a[0],a[1]))});
    case Intrinsic::umul_with_overflow: { unsigned ww=G.n(a[0]).w; if(ww>64) uns("umulo"); Tm p=G.mul(G.zext(a[0],2*ww),G.zext(a[1],2*ww)); return G.agg({G.trunc(p,ww),G.boolT(G.ult(G.cst(2*ww,maskw(ww)),p))}); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned ww=G.n(a[0]).w; if(ww>64) uns("saddo"); Tm x=G.sext(a[0],2*ww),y=G.sext(a[1],2*ww); Tm r= id==Intrinsic::sadd_with_overflow?G.add(x,y):id==Intrinsic::ssub_with_overflow?G.sub(x,y):G.mul(x,y); Tm t=G.trunc(r,ww); return G.agg({t,G.boolT(G.bnot(G.eq(G.sext(t,2*ww),r)))}); }
    case Intrinsic::usub_sat: return G.ite(G.ult(a[0],a[1]),G.cst(w,0),G.sub(a[0],a[1]));
    case Intrinsic::uadd_sat: { Tm s=G.add(a[0],a[1]); return G.ite(G.ult(s,a[0]),G.cst(w,maskw(w)),s); }
    case Intrinsic::fmuladd: case Intrinsic::fma: return G.fbin(O_FADD,G.fbin(O_FMUL,a[0],a[1]),a[2]);
    case Intrinsic::fabs: return G.callf("fabs",k,{a[0]}); case Intrinsic::sqrt: return G.callf("sqrt",k,{a[0]}); case Intrinsic::floor: return G.callf("floor",k,{a[0]}); case Intrinsic::ceil: return G.callf("ceil",k,{a[0]}); case Intrinsic::trunc: return G.callf("trunc",k,{a[0]}); case Intrinsic::round: return G.callf("round",k,{a[0]}); case Intrinsic::rint: case Intrinsic::nearbyint: return G.callf("rint",k,{a[0]});
    case Intrinsic::log: return G.callf("log",k,{a[0]}); case Intrinsic::exp: return G.callf("exp",k,{a[0]}); case Intrinsic::pow: return G.callf("pow",k,{a[0],a[1]}); case Intrinsic::sin: return G.callf("sin",k,{a[0]}); case Intrinsic::cos: return G.callf("cos",k,{a[0]}); case Intrinsic::copysign: return G.callf("copysign",k,{a[0],a[1]});
    case Intrinsic::maxnum: return G.callf("fmax",k,{a[0],a[1]}); case Intrinsic::minnum: return G.callf("fmin",k,{a[0],a[1]}); case Intrinsic::ldexp: return G.callf("ldexp",k,{a[0],a[1]});
    case Intrinsic::is_fpclass: { uint64_t m=constArg(a[1],"fpclass mask"); Bd nan=G.fcmp(O_FUNO,a[0],a[0]); Tm ab=G.callf("fabs",G.n(a[0]).kind,{a[0]}); Tm inf=G.fval(G.n(a[0]).kind,INFINITY); Bd isinf=G.fcmp(O_FEQ,ab,inf); Bd fin=G.band(G.bnot(nan),G.bnot(isinf)); Bd r=0; if(m&3) r=G.bor(r,nan); if(m&0x204) r=G.bor(r,isinf); if(m&0x1f8){ if((m&0x1f8)!=0x1f8) uns("fpclass"); r=G.bor(r,fin);} return G.boolT(r); }
    case Intrinsic::eh_typeid_for: { auto*g=dyn_cast<GlobalVariable>(CB.getArgOperand(0)->stripPointerCasts()); return G.cst(32,tid(g)); }
    case Intrinsic::trap: oblige(S,1,"trap",1); S.g=0; return 0;
    case Intrinsic::ubsantrap: oblige(S,1,"a signed integer overflows or a shift leaves the width of its type",1); S.g=0; return 0;
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::stacksave: return G.nullp(); case Intrinsic::stackrestore: return 0;
    case Intrinsic::invariant_start: return G.nullp();
    default: uns("intrinsic "+n); } }
  void memop(State&S, Tm len, const std::function<void(State&,uint64_t)>&f){ if(G.isC(len)){ uint64_t n=(uint64_t)G.n(len).c; if(n>(1ull<<30)){ oblige(S,1,"memory operation with enormous length",1); return; } f(S,n); return; }
    if(G.isTree(len)){ std::map<uint64_t,Bd> m; std::function<void(Tm,Bd)> go=[&](Tm t,Bd c){ if(c==0) return; const Node&y=G.n(t); if(y.op==O_ITE){ Bd d=y.aux; go(y.a[0],G.band(c,d)); go(y.a[1],G.band(c,G.bnot(d))); } else { auto&r=m[(uint64_t)y.c]; r=G.bor(r,c);} }; go(len,S.g); State acc; for(auto&p:m){ State s=S; s.g=p.second; if(p.first<=(1ull<<30)) f(s,p.first); mergeState(acc,s);} S=std::move(acc); return; }
    uns("symbolic memory length "+G.show(len)); }

  // ---------------- scenario primitives
  bool prim(const CallBase&CB, const str&n, std::vector<Tm>&a, State&S, Ret&r){
    if(n=="va_sym_u"){ int st=(int)constArg(a[0],"stream"); unsigned bits=(unsigned)constArg(a[2],"bits"); u128 lo=constArg(a[3],"lo"),hi=constArg(a[4],"hi"); Graph::SymAt sd{st,KI,(int)bits,lo&maskw(bits),hi&maskw(bits),0,0}; Tm v=overIdx(a[1],[&](uint64_t i){ return G.sym(st,i,KI,bits,lo&maskw(bits),hi&maskw(bits),0,0); },&sd); r=norm(S,G.zext(v,64)); return true; }
    if(n=="va_sym_tab"){ int st=(int)constArg(a[0],"stream"); u128 lo=constArg(a[2],"lo"),hi=constArg(a[3],"hi"); Tm v=overIdx(a[1],[&](uint64_t i){ Tm s=G.sym(st,i,KI,64,0,hi-lo,0,0); Tm t=G.cst(64,hi); for(u128 k=hi-lo;k-->0;) t=G.ite(G.eq(s,G.cst(64,k)),G.cst(64,lo+k),t); return t; }); r=norm(S,v); return true; }
    if(n=="va_sym_d"||n=="va_sym_f"||n=="va_sym_l"){ int k=n=="va_sym_d"?KD:n=="va_sym_f"?KF:KX; int st=(int)constArg(a[0],"stream"); if(!G.isC(a[2])||!G.isC(a[3])) uns("fp bounds"); long double lo=bitsToLD(G.n(a[2]).c,k),hi=bitsToLD(G.n(a[3]).c,k); Graph::SymAt sd{st,k,fpw(k),0,0,lo,hi}; Tm v=overIdx(a[1],[&](uint64_t i){ return G.sym(st,i,k,fpw(k),0,0,lo,hi); },&sd); r=norm(S,v); return true; }
    if(n=="va_check"){ oblige(S,G.bnot(G.asB(a[0])),cstring(S,a[1]),0); r=norm(S); return true; }
    if(n=="va_assume"){ S.g=G.band(S.g,G.asB(a[0])); if(S.g==0){ r.norm=false; return true; } r=norm(S); return true; }
    if(n=="va_bound"){ bound=(int)constArg(a[0],"bound"); r=norm(S); return true; }
    if(n=="va_abort"){ oblige(S,1,cstring(S,a[0]),2); dropped=G.bor(dropped,S.g); r.norm=false; return true; }
    if(n=="va_split"){ G.splitOn=true; r=norm(S); return true; }
    if(n=="va_values_only"){ valuesOnly=true; r=norm(S); return true; }
    if(n=="va_trials"){ trialsReq=(long)constArg(a[0],"trials"); r=norm(S); return true; }
    if(n=="va_may_throw"){ mayThrow=true; r=norm(S); return true; }
    if(n=="va_twin"){ twins.push_back({(int)constArg(a[0],"stream"),(int)constArg(a[1],"stream")}); r=norm(S); return true; }
    if(n=="va_uniform"){ hists.push_back({S.g,a[0],0,constArg(a[1],"lo"),constArg(a[2],"hi"),cstring(S,a[3]),where()}); r=norm(S); return true; }
    if(n=="va_ratio"){ Hist h{S.g,a[0],0,constArg(a[1],"value"),0,cstring(S,a[5]),where()}; h.num=constArg(a[2],"numerator"); h.den=constArg(a[3],"denominator"); h.ppm=constArg(a[4],"tolerance"); hists.push_back(h); r=norm(S); return true; }
    if(n=="va_show"){ fprintf(stderr,"SHOW %s = %s   [guard %s]\n",cstring(S,a[1]).c_str(),G.show(a[0],8).c_str(),G.showB(S.g,6).c_str()); r=norm(S); return true; }
    if(n=="va_is_const"){ r=norm(S,G.cst(1,G.isC(a[0]))); return true; }
    return false; }
  Tm overIdx(Tm idx, const std::function<Tm(uint64_t)>&f, const Graph::SymAt*d=nullptr){ if(G.isC(idx)) return f((uint64_t)G.n(idx).c); if(G.isTree(idx)&&(!d||G.treeN(idx)<=treeLim)) return G.mapTree(idx,[&](Tm t){ return f((uint64_t)G.n(t).c); }); if(d) return G.symAt(idx,*d); uns("symbolic draw index "+G.show(idx)); }
  int treeLim=24;

  // ---------------- library models
  bool model(Act&A, const CallBase&CB, const Function*F, const str&n, std::vector<Tm>&a, State&S, Ret&r){
    auto ret=[&](Tm v=0){ r=norm(S,v); return true; };
    auto is=[&](const char*s){ return n==s; };
    if(is("_Znwm")||is("_Znam")||is("malloc")||is("_ZnwmSt11align_val_t")){ uint64_t k=0; if(G.isC(a[0])) k=(uint64_t)G.n(a[0]).c; else if(G.isTree(a[0])){ std::function<void(Tm)> go=[&](Tm t){ const Node&y=G.n(t); if(y.op==O_ITE){ Tm p=y.a[0],q=y.a[1]; go(p); go(q);} else k=std::max<uint64_t>(k,(uint64_t)y.c<(1u<<28)?(uint64_t)y.c:0); }; go(a[0]); } else uns("symbolic allocation size "+G.show(a[0])); if(k>(1u<<28)){ return r=throwType(S,"_ZTISt9bad_alloc"), true; } uint32_t id=alloc(S,k,"heap",true); return ret(G.ptr(id,G.cst(64,0))); }
    if(is("_ZdlPv")||is("_ZdaPv")||is("_ZdlPvm")||is("_ZdaPvm")||is("free")){ std::vector<Leaf> L; leaves(a[0],1,L); for(auto&l:L){ Bd lc=G.band(S.g,l.c); if(!lc||!l.obj) continue; if(lc==S.g){ Obj*o=S.m.get(l.obj); if(o&&o->freed) oblige(S,1,"double free",1); if(o){ S.m.mut(l.obj)->freed=true; } } } return ret(); }
    if(is("__cxa_allocate_exception")){ uint32_t id=alloc(S,constArg(a[0],"exc size"),"exception",true); return ret(G.ptr(id,G.cst(64,0))); }
    if(is("__cxa_free_exception")) return ret();
    if(is("__cxa_throw")){ const Node&x=G.n(a[0]); const Value*ti=CB.getArgOperand(1)->stripPointerCasts(); auto*g=dyn_cast<GlobalVariable>(ti); if(x.op!=O_PTR||!g) uns("throw"); excType[x.aux]=g; r.exc=true; r.eptr=a[0]; r.es=std::move(S); r.norm=false; return true; }
    if(is("__cxa_rethrow")){ if(!A.lastCaught) uns("rethrow"); r.exc=true; r.eptr=A.lastCaught; r.es=std::move(S); return true; }
    if(is("__cxa_begin_catch")){ A.lastCaught=a[0]; return ret(a[0]); }
    if(is("__cxa_end_catch")||is("__cxa_get_exception_ptr")) return ret(a.empty()?0:a[0]);
    if(is("__cxa_guard_acquire")){ Tm v=loadScalar(S,a[0],1,KI,8); return ret(G.zext(G.boolT(G.eq(v,G.cst(8,0))),32)); }
    if(is("__cxa_guard_release")){ storeScalar(S,a[0],G.cst(8,1),1); return ret(); }
    if(is("__cxa_guard_abort")||is("__cxa_atexit")) return ret(G.cst(32,0));
    if(is("_ZSt9terminatev")||is("__clang_call_terminate")||is("abort")||is("exit")||is("__cxa_pure_virtual")||is("_ZSt10unexpectedv")||n.rfind("__assert_fail",0)==0){ oblige(S,1,"abort/terminate reached ("+n+")",1); r.norm=false; return true; }
    if(is("memcpy")||is("memmove")){ memop(S,a[2],[&](State&s,uint64_t k){ copyMem(s,a[0],a[1],k); }); return ret(a[0]); }
    if(is("memset")){ memop(S,a[2],[&](State&s,uint64_t k){ setMem(s,a[0],a[1],k); }); return ret(a[0]); }
    if(is("memcmp")||is("bcmp")){ uint64_t k=constArg(a[2],"memcmp length"); if(k>65536) uns("memcmp length"); Bd eq=1; std::vector<Tm> X,Y; for(uint64_t i=0;i<k;){ unsigned t=8; while(t>k-i) t/=2; Tm x=loadScalar(S,G.padd(a[0],G.cst(64,i)),t,KI,t*8),y=loadScalar(S,G.padd(a[1],G.cst(64,i)),t,KI,t*8); eq=G.band(eq,G.eq(x,y)); i+=t; } return ret(G.ite(eq,G.cst(32,0),G.cst(32,1))); }
    if(is("strlen")){ str s=cstring(S,a[0]); return ret(G.cst(64,s.size())); }
    if(is("memchr")) uns("memchr");
    if(n.rfind("_ZSt20__throw_length_error",0)==0) return r=throwType(S,"_ZTISt12length_error"),true;
    if(n.rfind("_ZSt19__throw_logic_error",0)==0) return r=throwType(S,"_ZTISt11logic_error"),true;
    if(n.rfind("_ZSt24__throw_out_of_range_fmt",0)==0||n.rfind("_ZSt20__throw_out_of_range",0)==0) return r=throwType(S,"_ZTISt12out_of_range"),true;
    if(n.rfind("_ZSt17__throw_bad_alloc",0)==0||n.rfind("_ZSt28__throw_bad_array_new_length",0)==0) return r=throwType(S,"_ZTISt9bad_alloc"),true;
    if(n.rfind("_ZSt24__throw_invalid_argument",0)==0) return r=throwType(S,"_ZTISt16invalid_argument"),true;
    if(n.rfind("_ZSt20__throw_system_error",0)==0) return r=throwType(S,"_ZTISt12system_error"),true;
    if(n.rfind("_ZSt16__throw_bad_castv",0)==0) return r=throwType(S,"_ZTISt8bad_cast"),true;
    if(F->isDeclaration()){
      // std exception constructors/destructors: contents are irrelevant
      static const char*pre[]={"_ZNSt16invalid_argumentC","_ZNSt16invalid_argumentD","_ZNSt12domain_errorC","_ZNSt12domain_errorD","_ZNSt12length_errorC","_ZNSt12length_errorD","_ZNSt12out_of_rangeC","_ZNSt12out_of_rangeD","_ZNSt11logic_errorC","_ZNSt11logic_errorD","_ZNSt13runtime_errorC","_ZNSt13runtime_errorD","_ZNSt11range_errorC","_ZNSt11range_errorD","_ZNSt14overflow_errorC","_ZNSt14overflow_errorD","_ZNSt9exceptionC","_ZNSt9exceptionD","_ZNSt12system_errorC","_ZNSt12system_errorD","_ZNSt9bad_allocD","_ZNSt8bad_castD","_ZNSt10error_category","_ZNSt15underflow_errorC","_ZNSt15underflow_errorD","_ZNSt8ios_baseC","_ZNSt8ios_baseD","_ZNSt6localeC","_ZNSt6localeD"};
      for(auto p:pre) if(n.rfind(p,0)==0) return ret(a.empty()?0:a[0]);
      // math
      static const std::set<str> m1={"sqrt","log","exp","tan","sin","cos","floor","ceil","fabs","log2","log10","log1p","expm1","trunc","round","atan","tgamma","lgamma","rint","nearbyint","exp2"}; static const std::set<str> m2={"pow","fmod","fmax","fmin","copysign","atan2","ldexp"};
      Type*T=CB.getType(); int k=kindOf(T); if(k==KF||k==KD||k==KX){ str b=n; if(k==KF&&b.size()&&b.back()=='f') b.pop_back(); else if(k==KX&&b.size()&&b.back()=='l'&&b!="ceil") b.pop_back(); if(m1.count(b)) return ret(G.callf(b,k,{a[0]})); if(m2.count(b)) return ret(G.callf(b,k,{a[0],a[1]})); }
      if(is("__errno_location")){ auto it=gobj.find(nullptr); (void)it; static GlobalVariable*eg=nullptr; static Module*em=nullptr; if(em!=&M){ eg=new GlobalVariable(M,Type::getInt32Ty(M.getContext()),false,GlobalValue::InternalLinkage,ConstantInt::get(Type::getInt32Ty(M.getContext()),0),"errno_model"); em=&M; } return ret(globalPtr(S,eg)); }
      if(is("_ZNSt3_V215system_categoryEv")||is("_ZNSt3_V216generic_categoryEv")||is("_ZN5boost6system")) { uint32_t id=alloc(S,16,"category",true); return ret(G.ptr(id,G.cst(64,0))); }
    }
    return false; }

  // ---------------- deciding obligations
  struct Decision { str status; str witness; str prov; };
  // library source lines whose values flow into the failing obligation, latest first
  str prov(const Graph::Plan&P){ str r; std::set<str> seen; int k=0; for(size_t i=P.order.size();i-->0&&k<6;){ const void*l=G.n(P.order[i]).loc; if(!l) continue; str w=locOf((const Instruction*)l); if(w.rfind(repo+"/",0)!=0||!seen.insert(w).second) continue; const Function*f=((const Instruction*)l)->getFunction(); r+=(k++?"; ":"")+w.substr(repo.size()+1)+" ("+demangle(f->getName().str()).substr(0,110)+")"; } return r; }
  uint64_t seed=1; long trials=400;
  // axioms between constant comparisons of the same term inside a bdd
  Bd axioms(Bd b){ std::vector<char> sb; std::vector<Tm> at; G.collectB(b,sb,at); std::sort(at.begin(),at.end()); at.erase(std::unique(at.begin(),at.end()),at.end()); if(at.size()>400) return 1; 
    struct C { Tm atom; u128 c; int k; }; std::map<Tm,std::vector<C>> by; // k: 0 x==c, 1 x<c (unsigned), 2 x<c signed
    for(Tm t:at){ const Node&x=G.n(t); if((x.op==O_EQ||x.op==O_ULT||x.op==O_SLT)&&G.isC(x.a[1])) by[x.a[0]].push_back({t,G.n(x.a[1]).c,x.op==O_EQ?0:x.op==O_ULT?1:2}); else if(x.op==O_EQ&&G.isC(x.a[0])) by[x.a[1]].push_back({t,G.n(x.a[0]).c,0}); }
    Bd ax=1; for(auto&p:by){ auto&v=p.second; unsigned w=G.n(p.first).w; if(v.size()>60) continue; for(size_t i=0;i<v.size();++i) for(size_t j=0;j<v.size();++j) if(i!=j){ Bd A=G.atom(v[i].atom),B=G.atom(v[j].atom); if(v[i].k==0&&v[j].k==0){ if(i<j&&v[i].c!=v[j].c) ax=G.band(ax,G.bnot(G.band(A,B))); } else if(v[i].k==0&&v[j].k==1){ bool t=v[i].c<v[j].c; ax=G.band(ax,G.bor(G.bnot(A),t?B:G.bnot(B))); } else if(v[i].k==0&&v[j].k==2){ bool t=sx(v[i].c,w)<sx(v[j].c,w); ax=G.band(ax,G.bor(G.bnot(A),t?B:G.bnot(B))); } else if(v[i].k==v[j].k&&v[i].k){ bool le= v[i].k==1? v[i].c<=v[j].c: sx(v[i].c,w)<=sx(v[j].c,w); if(le) ax=G.band(ax,G.bor(G.bnot(A),B)); } } }
    return ax; }
  std::mt19937_64 rng;
  u128 rnd(u128 lo,u128 hi,int mode){ u128 span=hi-lo; u128 r=((u128)rng()<<64)|rng(); switch(mode){ case 0: break; case 1: return lo; case 2: return hi; case 3: { u128 s=r%8; return lo+(s>span?span:s);} case 4: { u128 s=r%8; return hi-(s>span?span:s);} case 5: { unsigned b=(unsigned)(rng()%128); r=r>>b; break; } case 6: { r=(u128)1<<(rng()%64); r+= (int)(rng()%3)-1; break; } } if(span==~(u128)0) return r; return lo+ r%(span+1); }
  // exact decision of t == u when both are GF(2)-affine functions of free bits (non-affine subterms are generalised to free words)
  bool affineEq(Tm t,Tm u){ const Node&a0=G.n(t); if(a0.kind!=KI||a0.w>128) return false; std::vector<Tm> order,st{t,u}; std::set<Tm> seen; std::set<Tm> leaf;
    while(!st.empty()){ Tm x=st.back(); st.pop_back(); if(!seen.insert(x).second) continue; order.push_back(x); if(order.size()>60000) return false; const Node n=G.n(x); bool inner=false; std::vector<Tm> ch;
      switch(n.op){ case O_CONST: inner=true; break; case O_XOR: inner=true; ch=n.a; break; case O_ZEXT: case O_TRUNC: inner=true; ch=n.a; break; case O_AND: if(G.isC(n.a[1])||G.isC(n.a[0])){ inner=true; ch=n.a; } break;
        case O_LSHR: case O_SHL: if(G.isC(n.a[1])){ inner=true; ch={n.a[0]}; } break; case O_LIN: if(n.a.size()==1&&n.c==0&&n.k[0]){ u128 mb=G.mayBits(n.a[0]); if(!(n.k[0]&(n.k[0]-1))||(mb&&!(mb&(mb-1)))){ inner=true; ch=n.a; } } break; case O_MODLIN: if(n.a.size()==1&&n.k[0]==1&&n.c==0&&!(n.k[1]&(n.k[1]-1))){ inner=true; ch=n.a; } break;
        case O_ITE: { const Graph::BN bn=G.B[n.aux]; Tm A0=n.a[0],A1=n.a[1]; if(bn.lo<=1&&bn.hi<=1&&n.kind==KI&&G.isC(G.xr(A0,A1))){ const Node&at=G.n(G.varAtom[bn.var]); if(at.op==O_EQ){ for(int s=0;s<2;++s) if(G.isC(at.a[s])){ Tm y=at.a[1-s]; u128 mb=G.mayBits(y); if(mb&&!(mb&(mb-1))){ inner=true; ch={y,A0,A1}; } } } } break; }
        default: break; }
      if(!inner){ leaf.insert(x); continue; } for(Tm c:ch) st.push_back(c); }
    std::sort(order.begin(),order.end()); unsigned bits=0; for(Tm l:leaf){ const Node&n=G.n(l); if(n.kind!=KI) return false; bits+=std::max(1u,bl128(n.hi)); } if((double)bits*order.size()>4e8) return false;
    std::unordered_map<Tm,u128> val; std::vector<std::pair<Tm,u128>> pts; 
    auto eval=[&](Tm hot,u128 hv)->bool{ for(Tm x:order){ const Node&n=G.n(x); u128 r=0; unsigned w=n.w; if(leaf.count(x)) r= x==hot?hv:0; else switch(n.op){ case O_CONST: r=n.c; break; case O_XOR: r=n.c; for(Tm c:n.a) r^=val[c]; break; case O_ZEXT: case O_TRUNC: r=val[n.a[0]]; break; case O_AND: r=(G.isC(n.a[1])?G.n(n.a[1]).c:G.n(n.a[0]).c)&(G.isC(n.a[1])?val[n.a[0]]:val[n.a[1]]); break; case O_LSHR: r=val[n.a[0]]>>(unsigned)G.n(n.a[1]).c; break; case O_SHL: r=val[n.a[0]]<<(unsigned)G.n(n.a[1]).c; break; case O_LIN: r=val[n.a[0]]*n.k[0]; break; case O_MODLIN: r=val[n.a[0]]&(n.k[1]-1); break;
          case O_ITE: { const Graph::BN bn=G.B[n.aux]; const Node&at=G.n(G.varAtom[bn.var]); int s=G.isC(at.a[0])?0:1; bool e=val[at.a[1-s]]==G.n(at.a[s]).c; bool c= e? bn.hi==1: bn.lo==1; r= c?val[n.a[0]]:val[n.a[1]]; break; } default: break; } val[x]=r&maskw(w); } return val[t]==val[u]; };
    // constants first (order is by id and children always precede parents, except ITE conditions whose atoms were interned before)
    if(!eval(0,0)) return false; for(Tm l:leaf){ unsigned nb=std::max(1u,bl128(G.n(l).hi)); for(unsigned i=0;i<nb;++i) if(!eval(l,(u128)1<<i)) return false; } return true; }
  // rebuild the value graph under a substitution of free symbols (congruence reasoning for implied equalities)
  struct Subst { std::unordered_map<Tm,Tm> m; std::unordered_map<Bd,Bd> mb; size_t budget=400000;
    Tm tm(Tm t){ auto it=m.find(t); if(it!=m.end()) return it->second; if(!budget--) throw Unsupported("subst budget"); const Node x=G.n(t); Tm r=t; if(x.op==O_CONST||x.op==O_SYM||x.op==O_PTR||x.op==O_I2P||x.op==O_P2I||x.op==O_NONE){ m[t]=t; return t; }
      std::vector<Tm> a; bool ch=false; for(Tm q:x.a){ Tm z=tm(q); a.push_back(z); ch|=z!=q; } Bd c=0; if(x.op==O_ITE||x.op==O_BOOL){ c=bd(x.aux); ch|=c!=x.aux; }
      if(ch) switch(x.op){ case O_LIN: { Tm s=G.cst(x.w,x.c); for(size_t i=0;i<a.size();++i) s=G.add(s,G.mulc(a[i],x.k[i])); r=s; break; } case O_MUL: r=G.mul(a[0],a[1]); break; case O_UDIV: r=G.udiv(a[0],a[1]); break; case O_SDIV: r=G.sdiv(a[0],a[1]); break; case O_UREM: r=G.urem(a[0],a[1]); break; case O_SREM: r=G.srem(a[0],a[1]); break;
        case O_AND: r=G.and_(a[0],a[1]); break; case O_OR: r=G.or_(a[0],a[1]); break; case O_XOR: { Tm s=G.cst(x.w,x.c); for(Tm q:a) s=G.xr(s,q); r=s; break; } case O_SHL: r=G.shl(a[0],a[1]); break; case O_LSHR: r=G.lshr(a[0],a[1]); break; case O_ASHR: r=G.ashr(a[0],a[1]); break;
        case O_ZEXT: r=G.zext(a[0],x.w); break; case O_SEXT: r=G.sext(a[0],x.w); break; case O_TRUNC: r=G.trunc(a[0],x.w); break; case O_ITE: r=G.ite(c,a[0],a[1]); break; case O_BOOL: r=G.boolT(c); break;
        case O_F2UI: r=G.f2i(a[0],x.w,false); break; case O_F2SI: r=G.f2i(a[0],x.w,true); break; case O_BITI: r=G.toInt(a[0]); break; case O_BITF: r=G.toFP(a[0],x.kind); break; case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r=G.fbin(x.op,a[0],a[1]); break; case O_FNEG: r=G.fneg(a[0]); break;
        case O_UI2F: r=G.i2f(a[0],x.kind,false); break; case O_SI2F: r=G.i2f(a[0],x.kind,true); break; case O_FEXT: r=G.fext(a[0],x.kind); break; case O_FTRUNC: r=G.ftrunc(a[0],x.kind); break; case O_CALLF: r=G.callf(G.fnames[x.aux],x.kind,a); break;
        case O_MODLIN: { Graph::MV v; u128 cc=x.c; u128 md=x.k.back(); for(size_t i=0;i<a.size();++i) G.toMod(a[i],x.k[i],md,v,cc); r=G.fromMod(x.w,v,cc,md); break; }
        case O_TBL: { std::vector<u128> tb=G.tabs[x.aux]; r=G.table(a[0],tb,x.kind,x.w); break; }
        case O_SYMAT: { Graph::SymAt d=G.symats[x.aux]; r=G.symAt(a[0],d); break; }
        default: throw Unsupported("subst op"); }
      m[t]=r; return r; }
    Bd at(Tm t){ const Node x=G.n(t); Tm a=tm(x.a[0]),b=tm(x.a[1]); switch(x.op){ case O_EQ: return G.eq(a,b); case O_ULT: return G.ult(a,b); case O_SLT: return G.slt(a,b); case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: return G.fcmp(x.op,a,b); default: throw Unsupported("subst atom"); } }
    Bd bd(Bd b){ if(b<=1) return b; auto it=mb.find(b); if(it!=mb.end()) return it->second; const Graph::BN n=G.B[b]; Bd r=G.bite(at(G.varAtom[n.var]),bd(n.hi),bd(n.lo)); mb[b]=r; return r; } };
  bool occurs(Tm s,Tm t){ std::vector<Tm> st{t}; std::set<Tm> seen; while(!st.empty()){ Tm x=st.back(); st.pop_back(); if(x==s) return true; if(!seen.insert(x).second) continue; if(seen.size()>3000) return true; for(Tm c:G.n(x).a) st.push_back(c); if(G.n(x).op==O_ITE) return true; } return false; }
  Bd congruence(Bd b){ for(int round=0;round<4&&b>1;++round){ std::vector<char> sb; std::vector<Tm> at; G.collectB(b,sb,at); std::sort(at.begin(),at.end()); at.erase(std::unique(at.begin(),at.end()),at.end()); if(at.size()>3000) return b; Subst S; bool any=false; std::set<Tm> used; 
      for(Tm t:at){ const Node x=G.n(t); if(x.op!=O_EQ) continue; Tm p=x.a[0],q=x.a[1]; auto strip=[&](Tm&z){ while(G.n(z).op==O_ZEXT||(G.n(z).op==O_TRUNC&&G.n(G.n(z).a[0]).hi<=maskw(G.n(z).w))) z=G.n(z).a[0]; }; Tm p0=p,q0=q; strip(p); strip(q); if(G.n(p).w!=G.n(q).w){ p=p0;q=q0; } if(G.n(p).w!=G.n(q).w) continue; if(G.n(p).op!=O_SYM||(G.n(q).op==O_SYM&&q>p)) std::swap(p,q); if(G.n(p).op!=O_SYM||used.count(p)||used.count(q)) continue; if(G.brestrict(b,G.bnot(G.atom(t)))!=0&&G.band(b,G.bnot(G.atom(t)))!=0) continue; if(G.n(q).op!=O_SYM&&(!G.isC(q))&&occurs(p,q)) continue; S.m[p]=q; used.insert(p); used.insert(q); any=true; }
      if(!any) return b; Bd r; try{ r=S.bd(b); }catch(Unsupported&){ return b; } if(r==b) return b; b=r; } return b; }
  Bd affineSimplify(Bd b){ std::vector<char> sb; std::vector<Tm> at; G.collectB(b,sb,at); std::sort(at.begin(),at.end()); at.erase(std::unique(at.begin(),at.end()),at.end()); int tries=0; for(Tm t:at){ if(G.n(t).op!=O_EQ) continue; Tm p=G.n(t).a[0],q=G.n(t).a[1]; if(G.isC(p)||G.isC(q)||tries++>12) continue; if(affineEq(p,q)){ b=G.brestrict(b,G.atom(t)); if(b==0) return 0; } } return b; }
  Decision decide(const Oblig&o, long T){
    Bd b=o.bad; if(b==0) return {"proved",""}; if(o.g==0) return {"vacuous",""}; Bd ax=axioms(b); if(G.band(b,ax)==0) return {"proved",""}; try{ Bd b2=congruence(b); if(b2==0) return {"proved",""}; b2=affineSimplify(b2); if(b2==0||G.band(b2,ax)==0||G.band(b2,axioms(b2))==0) return {"proved",""}; }catch(Unsupported&){}
    if(refineSpent<refineMax){ double r0=now(); bool ok=false; try{ Refine R(G,4000000,std::min(tbudget,refineMax-refineSpent)); ok=R.refuted(b); if(getenv("VGA_REF")) fprintf(stderr,"REFINE %s: %d steps %ld out %d %.2fs\n",o.msg.c_str(),(int)ok,R.steps,(int)R.out,now()-r0); }catch(Unsupported&){} refineSpent+=now()-r0; if(ok) return {"proved",""}; }
    if(getenv("VGA_SHOW")){ fprintf(stderr,"UNDET %s: %s\n",o.msg.c_str(),G.showB(b,8).c_str()); std::vector<char> sb; std::vector<Tm> at; G.collectB(b,sb,at); int k=0; for(Tm t:at){ if(++k>4) break; fprintf(stderr,"   atom %s\n",G.show(t,7).substr(0,1500).c_str()); } }
    Graph::Plan P; try{ P=G.plan({b}); }catch(Unsupported&e){ return {"undetermined",e.what()}; }
    if(P.order.size()>4000000) return {"undetermined","plan too large"};
    std::vector<u128> sv(G.syms.size(),0); 
    // constants compared against
    std::map<uint32_t,std::vector<u128>> hints; std::map<uint32_t,std::vector<long double>> fh; std::vector<u128> allc; for(Tm t:P.order){ const Node&x=G.n(t); if(x.op==O_EQ||x.op==O_ULT||x.op==O_SLT) for(int s=0;s<2;++s){ Tm u=x.a[s],c=x.a[1-s]; if(!G.isC(c)) continue; u128 cc=G.n(c).c; const Node*y=&G.n(u); unsigned w=y->w; while(true){ if(y->op==O_ZEXT||y->op==O_SEXT) y=&G.n(y->a[0]); else if(y->op==O_LIN&&y->a.size()==1&&(y->k[0]==1||y->k[0]==maskw(y->w))){ cc= y->k[0]==1? cc-y->c: y->c-cc; y=&G.n(y->a[0]); } else break; } (void)w; if(y->op==O_SYM) for(int d=-1;d<=1;++d) hints[y->aux].push_back((cc+d)&maskw(y->w)); else allc.push_back(cc); }
      if(x.op==O_FEQ||x.op==O_FLT||x.op==O_FLE) for(int s=0;s<2;++s){ Tm u=x.a[s],c=x.a[1-s]; if(G.isC(c)&&G.n(u).op==O_SYM) fh[G.n(u).aux].push_back(bitsToLD(G.n(c).c,G.n(c).kind)); } }
    // boundary valuations: two sides of an ordering/equality over disjoint symbols made equal (or adjacent) by collision search
    std::vector<std::vector<std::pair<uint32_t,u128>>> coll; { std::vector<Tm> at; std::vector<char> sb; G.collectB(b,sb,at); for(Tm t:P.order){ const Node&x=G.n(t); if(x.op==O_ITE||x.op==O_BOOL) G.collectB(x.aux,sb,at); } std::sort(at.begin(),at.end()); at.erase(std::unique(at.begin(),at.end()),at.end()); int tries=0; double c0=now();
      for(Tm t:at){ if(tries>=6||now()-c0>tbudget) break; const Node x=G.n(t); if(x.op!=O_EQ&&x.op!=O_ULT&&x.op!=O_SLT) continue; Tm p=x.a[0],q=x.a[1]; if(G.isC(p)||G.isC(q)) continue; if(G.n(p).op==O_SYM&&G.n(q).op==O_SYM) continue; Graph::Plan Pp,Pq; try{ Pp=planT(p); Pq=planT(q); }catch(Unsupported&){ continue; } if(Pp.order.size()>400||Pq.order.size()>400||Pp.symIds.empty()||Pq.symIds.empty()) continue; bool dis=true; for(uint32_t i:Pp.symIds) for(uint32_t j:Pq.symIds) dis&=i!=j; for(uint32_t i:Pp.symIds) dis&=G.syms[i].kind==KI; for(uint32_t i:Pq.symIds) dis&=G.syms[i].kind==KI; if(!dis) continue; ++tries;
        std::unordered_map<uint64_t,uint32_t> seen; std::vector<std::vector<u128>> vals; std::vector<u128> z(G.syms.size(),0); int found=0; uint32_t NS=Pp.order.size()+Pq.order.size()<80? 120000:40000; try{
          for(uint32_t k=0;k<NS;++k){ if((k&1023)==0&&now()-c0>tbudget) break; std::vector<u128> v; for(uint32_t id:Pp.symIds){ z[id]=rnd(G.syms[id].lo,G.syms[id].hi,0); v.push_back(z[id]); } G.evalAll(Pp,z); seen[(uint64_t)G.V[p]]=vals.size(); vals.push_back(v); }
          for(uint32_t k=0;k<NS&&found<6;++k){ if((k&1023)==0&&now()-c0>tbudget) break; for(uint32_t id:Pq.symIds) z[id]=rnd(G.syms[id].lo,G.syms[id].hi,0); G.evalAll(Pq,z); for(int d=0;d<3;++d){ auto it=seen.find((uint64_t)G.V[q]+(d==1?1:d==2?-1:0)); if(it==seen.end()) continue; std::vector<std::pair<uint32_t,u128>> c; for(size_t i=0;i<Pp.symIds.size();++i) c.push_back({Pp.symIds[i],vals[it->second][i]}); for(uint32_t id:Pq.symIds) c.push_back({id,z[id]}); coll.push_back(c); if(d==0) ++found; break; } }
        }catch(Unsupported&){ } } }
    double t0=now(); long done=0; double budget= tbudget; std::vector<uint32_t> sec; for(uint32_t id:P.symIds) for(auto&p:twins) if(G.syms[id].stream==p.second) sec.push_back(id); long sysN=std::min<long>(2*(long)sec.size(),120); T+=sysN;
    for(long t=0;t<T;++t){ if(now()-t0>budget) break; ++done; G.salt=rng(); int gm=t<6?(int)t:(int)(rng()%10); int tw=(int)(rng()%4); unsigned flip=(unsigned)(rng()%4==0? rng()%2: rng()%128); 
      std::map<std::pair<int,uint64_t>,u128> base; uint32_t odd=P.symIds.empty()?0:P.symIds[rng()%P.symIds.size()]; if(!sec.empty()){ odd=sec[rng()%sec.size()]; if(t>=6&&t<6+sysN){ long u=t-6; odd=sec[(u/2)%sec.size()]; tw=2; flip=u&1; } } 
      for(uint32_t id:P.symIds){ SymInfo&s=G.syms[id]; u128 v; int m=gm; if(gm>=7) m=(int)(rng()%7); auto hi=hints.find(id); 
        bool twinned=false; for(auto&p:twins) if(s.stream==p.second){ auto k=std::make_pair(p.first,s.idx); auto it=base.find(k); auto sm=G.symmap.find(k); if(it==base.end()&&sm!=G.symmap.end()){ /* may come later */ uint32_t oid=G.n(sm->second).aux; base[k]=sv[oid]; it=base.find(k); } if(it!=base.end()&&(tw!=0)&&(tw==1||tw==2||(tw==3&&rng()%8))){ v=it->second; twinned=true; if(tw==2&&id==odd){ if(s.kind==KI&&flip<64){ unsigned bl=bl128(s.hi); unsigned bit= flip==0? (bl?bl-1:0): flip==1? 0: bl? flip%bl:0; u128 v2=v^((u128)1<<bit); if(v2>=s.lo&&v2<=s.hi) v=v2; else twinned=false; } else twinned=false; } } }
        if(!twinned){ if(s.kind==KI){ if(hi!=hints.end()&&rng()%3==0){ v=hi->second[rng()%hi->second.size()]; if(v<s.lo||v>s.hi) v=rnd(s.lo,s.hi,m); } else v=rnd(s.lo,s.hi,m); }
          else { long double lo=s.flo,hi2=s.fhi,x; auto f=fh.find(id); if(s.undef){ lo=0; hi2=1; } if(f!=fh.end()&&rng()%3==0){ x=f->second[rng()%f->second.size()]; } else switch(m){ case 1: x=lo; break; case 2: x=hi2; break; case 3: x=lo+(hi2-lo)*((long double)(rng()%8)/ldexpl(1,40)); break; case 4: x=hi2-(hi2-lo)*((long double)(rng()%8)/ldexpl(1,40)); break; case 5: x=lo+(long double)(rng()%9); break; default: x=lo+(hi2-lo)*((long double)(rng()>>1)/ldexpl(1,63)); } if(!(x>=lo&&x<=hi2)) x=lo+(hi2-lo)*((long double)(rng()>>1)/ldexpl(1,63)); if(x>hi2) x=hi2; v=ldToBits(x,s.kind); long double back=bitsToLD(v,s.kind); if(back>hi2) v=ldToBits(hi2,s.kind); if(back<lo) v=ldToBits(lo,s.kind); } }
        sv[id]=v; base[{s.stream,s.idx}]=v; }
      if(!coll.empty()&&(t<(long)coll.size()||t%2)) for(auto&c:coll[t<(long)coll.size()?t:rng()%coll.size()]) sv[c.first]=c.second;
      try{ G.evalAll(P,sv); }catch(Unsupported&e){ return {"undetermined",e.what()}; }
      if(G.evalB(b)){ str w; int k=0; for(uint32_t id:P.symIds){ SymInfo&s=G.syms[id]; if(k++>24){ w+=" ..."; break; } w+=(k>1?", ":"")+(s.undef? s.name: "s"+std::to_string(s.stream)+"["+std::to_string(s.idx)+"]")+"="; if(s.kind==KI) w+=u128s(sv[id]); else { char bb[64]; snprintf(bb,64,"%.21Lg",bitsToLD(sv[id],s.kind)); w+=bb; } } return {"refuted",w,prov(P)}; } }
    return {"undetermined","no counter-valuation in "+std::to_string(done)+" random interpretations ("+std::to_string(P.order.size())+" terms, "+std::to_string(P.symIds.size())+" symbols)"}; }
  double tbudget=6, refineSpent=0, refineMax=8;
  Graph::Plan planT(Tm r){ Graph::Plan P; std::set<Tm> seen; std::vector<char> sb; std::vector<Tm> st{r}; while(!st.empty()){ Tm t=st.back(); st.pop_back(); if(!seen.insert(t).second) continue; if(seen.size()>600) throw Unsupported("plan"); P.order.push_back(t); const Node&x=G.n(t); for(Tm q:x.a) st.push_back(q); if(x.op==O_ITE||x.op==O_BOOL) G.collectB(x.aux,sb,st); if(x.op==O_SYM) P.symIds.push_back(x.aux); if(x.op==O_SYMAT) throw Unsupported("plan"); } std::sort(P.order.begin(),P.order.end()); std::sort(P.symIds.begin(),P.symIds.end()); return P; }
  // exact tabulation: counts per value over all valuations of the symbols in (guard, value)
  Decision decideHist(const Hist&h){ Graph::Plan P; std::vector<Bd> roots{h.g}; Tm holder=h.v; Bd extra=G.asB(G.zext(G.boolT(G.eq(holder,G.cst(G.n(holder).w,0))),8)); roots.push_back(extra); P=G.plan(roots); // make sure value is evaluated
    { std::vector<char> seen(G.N.size(),0); for(Tm t:P.order) seen[t]=1; std::vector<Tm> st{holder}; std::vector<char> sb; while(!st.empty()){ Tm t=st.back(); st.pop_back(); if(seen[t]) continue; seen[t]=1; P.order.push_back(t); const Node&x=G.n(t); for(Tm q:x.a) st.push_back(q); if(x.op==O_ITE||x.op==O_BOOL) G.collectB(x.aux,sb,st); if(x.op==O_SYM) P.symIds.push_back(x.aux);} std::sort(P.order.begin(),P.order.end()); std::sort(P.symIds.begin(),P.symIds.end()); }
    for(Tm t:P.order) if(G.n(t).op==O_SYMAT) return {"undetermined","draw at an undetermined index"}; u128 total=1; for(uint32_t id:P.symIds){ SymInfo&s=G.syms[id]; if(s.kind!=KI) return {"undetermined","fp symbol"}; total*=s.hi-s.lo+1; if(total>6000000) return {"undetermined","too many valuations "+u128s(total)}; }
    std::vector<u128> sv(G.syms.size(),0); for(uint32_t id:P.symIds) sv[id]=G.syms[id].lo; std::map<u128,uint64_t> cnt; uint64_t acc=0; 
    while(true){ G.evalAll(P,sv); if(G.evalB(h.g)){ ++acc; ++cnt[G.V[holder]]; } size_t i=0; for(;i<P.symIds.size();++i){ uint32_t id=P.symIds[i]; if(sv[id]<G.syms[id].hi){ ++sv[id]; break; } sv[id]=G.syms[id].lo; } if(i==P.symIds.size()) break; }
    if(!acc) return {"vacuous",""};
    if(h.den){ u128 c=cnt.count(h.lo)?cnt[h.lo]:0, x=c*h.den, y=h.num*acc, d=x>y?x-y:y-x; str t="value "+u128s(h.lo)+" arises from "+u128s(c)+" of "+u128s(acc)+" accepted raw sequences ("+u128s(total)+" tabulated), its share should be "+u128s(h.num)+"/"+u128s(h.den); if(d*1000000>h.ppm*h.den*acc) return {"refuted",t}; return {"proved",t}; }
    u128 n=h.hi-h.lo+1; str bad; for(auto&p:cnt) if(p.first<h.lo||p.first>h.hi) bad="value "+u128s(p.first)+" outside ["+u128s(h.lo)+","+u128s(h.hi)+"]"; uint64_t c0=cnt.count(h.lo)?cnt[h.lo]:0; for(u128 v=h.lo;v<=h.hi&&bad.empty();++v){ uint64_t c=cnt.count(v)?cnt[v]:0; if(c!=c0) bad="value "+u128s(v)+" arises from "+std::to_string(c)+" raw sequences, value "+u128s(h.lo)+" from "+std::to_string(c0)+" (of "+std::to_string(acc)+" accepted, "+u128s(total)+" tabulated)"; } (void)n;
    if(!bad.empty()) return {"refuted",bad}; return {"proved","each of "+u128s(n)+" values from "+std::to_string(c0)+" of "+u128s(total)+" raw sequences"}; }
};

static int g_argc; static char**g_argv; static int g_rc=2;
static void* mainThread(void*){
  str file,out,only,repo="/repo"; uint64_t seed=1; long trials=300; double timeout=120, tb=6; for(int i=1;i<g_argc;++i){ str a=g_argv[i]; auto nx=[&]{ return str(g_argv[++i]); }; if(a=="--only") only=nx(); else if(a=="--seed") seed=std::stoull(nx()); else if(a=="--trials") trials=std::stol(nx()); else if(a=="--timeout") timeout=std::stod(nx()); else if(a=="--tbudget") tb=std::stod(nx()); else if(a=="--repo") repo=nx(); else if(file.empty()) file=a; else out=a; }
  { const char*av[]={"vga","-phi-node-folding-threshold=0","-two-entry-phi-node-folding-threshold=0","-speculate-one-expensive-inst=false","-simplifycfg-hoist-common=false"}; cl::ParseCommandLineOptions(4,av); }
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(file,E,C); if(!M){ E.print("vga",errs()); g_rc=3; return nullptr; }
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM); ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,"function(sroa,instsimplify,simplifycfg,loop-simplify,lcssa)")){ errs()<<toString(std::move(e)); g_rc=3; return nullptr; } MPM.run(*M,MAM); }
  std::ofstream o(out); o<<"{\"scenarios\":[\n"; bool firstS=true;
  std::vector<Function*> scs; for(Function&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("scen_")) scs.push_back(&F);
  for(Function*F:scs){ str name=F->getName().str(); if(!only.empty()&&name.find(only)==str::npos) continue;
    Graph *gr=new Graph; Gp=gr; Interp in(*M); in.repo=repo; in.seed=seed; in.rng.seed(seed); in.deadline=Interp::now()+timeout; in.tbudget=tb; double t0=Interp::now(); str uns; Bd endg=0; 
    try{ State S; S.g=1; in.istack.clear(); Ret r=in.call(F,{},S); if(r.norm) endg=r.ns.g; if(r.exc&&r.es.g&&!in.mayThrow){ str ty; std::vector<Interp::Leaf> L; in.leaves(r.eptr,1,L); for(auto&l:L) if(in.excType.count(l.obj)&&gr->band(r.es.g,l.c)) ty+=(ty.empty()?"":",")+demangle(in.excType[l.obj]->getName().str()); in.obl.push_back({0,1,r.es.g,"no exception escapes the scenario ("+ty+")","?",""}); } }
    catch(Unsupported&e){ uns=e.what(); }
    catch(std::exception&e){ uns=str("internal: ")+e.what(); }
    int np=0,nr=0,nu=0,nv=0,nchk=0; str items; str ures; 
    auto item=[&](const str&st,const str&msg,const str&wh,const str&path,const str&wit,int kind,const str&pv){ if(st=="refuted"||st=="undetermined"||st=="vacuous"){ items+=(items.empty()?"":",")+str("\n    {\"status\":\"")+st+"\",\"kind\":"+std::to_string(kind)+",\"msg\":\""+jesc(msg)+"\",\"where\":\""+jesc(wh)+"\",\"path\":\""+jesc(path)+"\",\"witness\":\""+jesc(wit)+"\",\"sources\":\""+jesc(pv)+"\"}"; } };
    long T= in.trialsReq>0? in.trialsReq:trials; double tdec=Interp::now(); 
    for(auto&ob:in.obl){ Interp::Decision d; if(Interp::now()-tdec>timeout) d={"undetermined","decision budget exhausted"}; else try{ d=in.decide(ob,T); }catch(Unsupported&e){ d={"undetermined",e.what()}; } if(ob.kind==0) ++nchk; if(d.status=="proved") ++np; else if(d.status=="refuted") ++nr; else if(d.status=="vacuous") ++nv; else ++nu; item(d.status,ob.msg,ob.where,ob.path,d.witness,ob.kind,d.prov); }
    for(auto&h:in.hists){ Interp::Decision d; try{ d=in.decideHist(h); }catch(Unsupported&e){ d={"undetermined",e.what()}; } ++nchk; if(d.status=="proved") ++np; else if(d.status=="refuted") ++nr; else if(d.status=="vacuous") ++nv; else ++nu; item(d.status,h.msg,h.where,"",d.witness,0,""); }
    if(uns.empty()&&endg==0&&nr==0) { /* scenario never completes */ uns="no path reaches the end of the scenario"; }
    o<<(firstS?"":",\n")<<" {\"name\":\""<<name<<"\",\"checks\":"<<nchk<<",\"proved\":"<<np<<",\"refuted\":"<<nr<<",\"undetermined\":"<<nu<<",\"vacuous\":"<<nv<<",\"unsupported\":\""<<jesc(uns)<<"\",\"terms\":"<<gr->N.size()<<",\"bdd\":"<<gr->B.size()<<",\"syms\":"<<gr->syms.size()<<",\"uninit\":"<<in.undefReads<<",\"calls\":"<<in.callsN<<",\"steps\":"<<in.steps<<",\"secs\":"<<(Interp::now()-t0)<<",\"bounded\":["; firstS=false; bool f=true; for(auto&b:in.boundedLoops){ o<<(f?"":",")<<"\""<<jesc(b.first)<<"\""; f=false; } o<<"],\"functions\":["; f=true; for(auto&s:in.fnsSeen){ o<<(f?"":",")<<"\""<<jesc(s)<<"\""; f=false; } o<<"],\"items\":["<<items<<"]}"; o.flush();
    delete gr; }
  o<<"\n]}\n"; g_rc=0; return nullptr; }
int main(int argc,char**argv){ g_argc=argc; g_argv=argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,(size_t)2<<30); pthread_t th; if(pthread_create(&th,&at,mainThread,nullptr)) return 3; pthread_join(th,nullptr); fflush(stdout); _exit(g_rc); }
