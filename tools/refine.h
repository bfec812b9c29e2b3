// Guard-refined interval analysis: decides that a condition (a BDD over comparison atoms) has no feasible path.
// Each path of the BDD fixes the outcome of some comparisons; the outcomes narrow interval facts about the compared
// values (forward and backward through the arithmetic), and a path on which some value is left without any possible
// value is infeasible.  Sound: every narrowing step keeps all values that can occur.
#pragma once
#include "terms.h"
#include <cmath>
#include <ctime>
#include <array>
struct Refine {
  Graph&G; typedef long double LD;
  struct FI { LD l=-INFINITY,h=INFINITY; bool nan=true; bool bot()const{ return l>h&&!nan; } };
  struct II { u128 ul=0,uh=0; s128 sl=0,sh=0; bool bot()const{ return ul>uh||sl>sh; } };
  typedef std::unordered_map<Tm,FI> FM; typedef std::unordered_map<Tm,II> IM;
  struct Env { FM f; IM i; bool bottom=false; };
  Env E; std::unordered_map<uint32_t,int> asg; FM fm; IM im; std::unordered_map<Bd,int> bm;
  long steps=0, limit; double deadline; bool out=false;
  static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
  Refine(Graph&g,long lim,double secs):G(g),limit(lim){ deadline=now()+secs; }
  bool tick(){ if(out) return false; if(++steps>limit||((steps&1023)==0&&now()>deadline)) out=true; return !out; }
  static LD rd(LD v,int kind){ return bitsToLD(ldToBits(v,kind),kind); }
  static LD nxt(LD v,int kind,LD to){ if(kind==KF) return nextafterf((float)v,(float)to); if(kind==KD) return nextafter((double)v,(double)to); return nextafterl(v,to); }
  static LD fmaxv(int kind){ return kind==KF?(LD)3.40282346638528859812e38f:kind==KD?(LD)1.7976931348623157e308:1.18973149535723176502e4932L; }
  // ---- integer intervals
  static II full(unsigned w){ II r; r.ul=0; r.uh=maskw(w); if(w>=128){ r.sl=(s128)1<<126; r.sl=-r.sl; r.sh=-r.sl; r.sl*=2; r.sh=(r.sh-1)*2+1; return r; } r.sh=(s128)(maskw(w)>>1); r.sl=-r.sh-1; return r; }
  static void sync(II&r,unsigned w){ if(w>=128||r.bot()) return; u128 sb=(u128)1<<(w-1); // unsigned <-> signed
    for(int k=0;k<2;++k){ if(r.uh<sb){ r.sl=std::max(r.sl,(s128)r.ul); r.sh=std::min(r.sh,(s128)r.uh); } else if(r.ul>=sb){ r.sl=std::max(r.sl,sx(r.ul,w)); r.sh=std::min(r.sh,sx(r.uh,w)); }
      if(r.sl>=0){ r.ul=std::max(r.ul,(u128)r.sl); r.uh=std::min(r.uh,(u128)std::max<s128>(r.sh,0)); } else if(r.sh<0){ r.ul=std::max(r.ul,(u128)r.sl&maskw(w)); r.uh=std::min(r.uh,(u128)r.sh&maskw(w)); } } }
  static II meet(II a,const II&b,unsigned w){ a.ul=std::max(a.ul,b.ul); a.uh=std::min(a.uh,b.uh); a.sl=std::max(a.sl,b.sl); a.sh=std::min(a.sh,b.sh); sync(a,w); return a; }
  static II join(II a,const II&b){ if(a.bot()) return b; if(b.bot()) return a; a.ul=std::min(a.ul,b.ul); a.uh=std::max(a.uh,b.uh); a.sl=std::min(a.sl,b.sl); a.sh=std::max(a.sh,b.sh); return a; }
  // exact interval [lo,hi] over the integers taken modulo 2^w
  static II ofInt(s128 lo,s128 hi,unsigned w){ II r=full(w); if(w>=100) return r; s128 m=(s128)1<<w; s128 base=lo>=0? lo/m: -((-lo+m-1)/m); if(hi-base*m<m){ r.ul=(u128)(lo-base*m); r.uh=(u128)(hi-base*m); } s128 hf=m/2; s128 l2=lo+hf; s128 b2=l2>=0? l2/m: -((-l2+m-1)/m); if(hi+hf-b2*m<m){ r.sl=lo-b2*m; r.sh=hi-b2*m; } sync(r,w); return r; }
  int truth(Bd b,int d){ if(b<=1) return (int)b; auto it=bm.find(b); if(it!=bm.end()) return it->second; if(!tick()||d>300) return 2; const Graph::BN n=G.B[b]; int v=2; auto a=asg.find(n.var); if(a!=asg.end()) v=a->second; else v=atomTruth(G.varAtom[n.var],d+1); int r; if(v==1) r=truth(n.hi,d+1); else if(v==0) r=truth(n.lo,d+1); else { int p=truth(n.lo,d+1); r= p==2?2: truth(n.hi,d+1)==p?p:2; } bm[b]=r; return r; }
  // linear base: t = s + c with s interned without constant
  bool split(Tm t,Tm&s,u128&c){ const Node x=G.n(t); if(x.op!=O_LIN||x.c==0) return false; Node y{}; y.op=O_LIN; y.kind=KI; y.w=x.w; y.c=0; y.a=x.a; y.k=x.k; if(x.a.size()==1&&x.k[0]==1) s=x.a[0]; else { y.lo=0; y.hi=maskw(x.w); y.tz=0; G.range(y); s=G.intern(std::move(y)); } c=x.c; return true; }
  II iv(Tm t,int d=0){ auto it=im.find(t); if(it!=im.end()) return it->second; const Node x=G.n(t); unsigned w=x.w; II r=full(w); if(w>127) return r; if(!tick()||d>400){ return con(t,r,w); }
    r.ul=x.lo; r.uh=x.hi; sync(r,w);
    switch(x.op){
      case O_CONST: r=ofInt(w<127?(s128)x.c:(s128)x.c,(s128)x.c,w); r.ul=r.uh=x.c; sync(r,w); break;
      case O_ITE: { int c=truth(x.aux,d+1); II q= c==1? iv(x.a[0],d+1): c==0? iv(x.a[1],d+1): join(iv(x.a[0],d+1),iv(x.a[1],d+1)); r=meet(r,q,w); break; }
      case O_BOOL: { int c=truth(x.aux,d+1); if(c<2){ r.ul=r.uh=c; r.sl=r.sh=c?-1:0; } break; }
      case O_ZEXT: { II q=iv(x.a[0],d+1); II z=full(w); z.ul=q.ul; z.uh=q.uh; sync(z,w); r=meet(r,z,w); break; }
      case O_SEXT: { II q=iv(x.a[0],d+1); II z=full(w); z.sl=q.sl; z.sh=q.sh; sync(z,w); r=meet(r,z,w); break; }
      case O_TRUNC: { II q=iv(x.a[0],d+1); if(G.n(x.a[0]).w<=100){ r=meet(r,ofInt(q.sl,q.sh,w),w); if(q.uh<((u128)1<<99)) r=meet(r,ofInt((s128)q.ul,(s128)q.uh,w),w); } break; }
      case O_LIN: { Tm s; u128 c; if(w>64) break; if(split(t,s,c)){ II q=iv(s,d+1); r=meet(r,ofInt(q.sl+sx(c,w),q.sh+sx(c,w),w),w); r=meet(r,ofInt((s128)q.ul+sx(c,w),(s128)q.uh+sx(c,w),w),w); break; }
        if(x.a.size()==2&&!iord.empty()) for(int s2=0;s2<2;++s2) if(x.k[s2]==1&&x.k[1-s2]==maskw(w)){ II a=iv(x.a[s2],d+1),b=iv(x.a[1-s2],d+1); for(auto&o:iord) if(o[0]==x.a[s2]&&o[1]==x.a[1-s2]&&a.sh-b.sl>=(s128)o[2]) r=meet(r,ofInt(std::max<s128>(o[2],a.sl-b.sh),a.sh-b.sl,w),w); }
        for(int sg=0;sg<2;++sg){ LD fl=0,fh=0; s128 l=0,h=0; bool ok=true; for(size_t i=0;i<x.a.size();++i){ II q=iv(x.a[i],d+1); s128 k=sx(x.k[i],w); s128 a=sg?q.sl:(s128)q.ul,b=sg?q.sh:(s128)q.uh; LD fa=(LD)k*(LD)a,fb=(LD)k*(LD)b; if(fabsl(fa)>1e35L||fabsl(fb)>1e35L){ ok=false; break; } s128 pa=k*a,pb=k*b; if(pa>pb){ std::swap(pa,pb); std::swap(fa,fb); } l+=pa; h+=pb; fl+=fa; fh+=fb; if(fabsl(fl)>1e36L||fabsl(fh)>1e36L){ ok=false; break; } } if(ok) r=meet(r,ofInt(l,h,w),w); } break; }
      case O_MUL: { if(w>64) break; II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); if((LD)p.uh*(LD)q.uh<1e36L) r=meet(r,ofInt((s128)(p.ul*q.ul),(s128)(p.uh*q.uh),w),w); s128 v[4]; int k=0; for(s128 a:{p.sl,p.sh}) for(s128 b:{q.sl,q.sh}){ v[k++]=a*b; } if(w<=62) r=meet(r,ofInt(*std::min_element(v,v+4),*std::max_element(v,v+4),w),w); break; }
      case O_UDIV: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); if(q.ul>0){ II z=full(w); z.ul=p.ul/q.uh; z.uh=p.uh/q.ul; sync(z,w); r=meet(r,z,w); } break; }
      case O_SDIV: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); if(q.sl>0){ s128 v[4]={p.sl/q.sl,p.sl/q.sh,p.sh/q.sl,p.sh/q.sh}; II z=full(w); z.sl=*std::min_element(v,v+4); z.sh=*std::max_element(v,v+4); sync(z,w); r=meet(r,z,w); } break; }
      case O_UREM: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); II z=full(w); if(q.ul>0&&p.uh<q.ul){ r=meet(r,p,w); break; } z.uh= q.uh? std::min(p.uh,q.uh-1): p.uh; sync(z,w); r=meet(r,z,w); break; }
      case O_SREM: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); if(q.sl>0){ II z=full(w); z.sl=p.sl>=0?0:std::max(p.sl,-(q.sh-1)); z.sh=p.sh<=0?0:std::min(p.sh,q.sh-1); sync(z,w); r=meet(r,z,w); } break; }
      case O_AND: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); II z=full(w); z.uh=std::min(p.uh,q.uh); sync(z,w); r=meet(r,z,w); break; }
      case O_LSHR: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); II z=full(w); if(q.uh<w){ z.ul=p.ul>>(unsigned)q.uh; z.uh=p.uh>>(unsigned)q.ul; } else z.uh=p.uh; sync(z,w); r=meet(r,z,w); break; }
      case O_ASHR: { II p=iv(x.a[0],d+1),q=iv(x.a[1],d+1); if(q.ul==q.uh&&q.ul<w){ II z=full(w); z.sl=p.sl>>(unsigned)q.ul; z.sh=p.sh>>(unsigned)q.ul; sync(z,w); r=meet(r,z,w); } break; }
      case O_F2SI: case O_F2UI: { FI f=fv(x.a[0],d+1); LD lim=x.op==O_F2SI?ldexpl(1,w-1):ldexpl(1,w); if(!f.nan&&f.l<=f.h&&w<=64&&std::isfinite(f.l)&&std::isfinite(f.h)){ LD l=truncl(f.l),h=truncl(f.h); if(x.op==O_F2SI? (l>=-lim&&h<lim):(l>=0&&h<lim)) r=meet(r,ofInt((s128)l,(s128)h,w),w); } break; }
      case O_TBL: { const auto&tb=G.tabs[x.aux]; II q=iv(x.a[0],d+1); u128 a=q.ul,b=std::min<u128>(q.uh,tb.size()?tb.size()-1:0); if(tb.empty()||a>b||b-a>4096||q.uh>=tb.size()) break; II z; bool f=true; for(u128 i=a;i<=b;++i){ II e=full(w); e.ul=e.uh=tb[(size_t)i]; e.sl=e.sh=sx(tb[(size_t)i],w); z=f?e:join(z,e); f=false; } r=meet(r,z,w); break; }
      default: break; }
    r=con(t,r,w); im[t]=r; return r; }
  II con(Tm t,II r,unsigned w){ auto c=E.i.find(t); return c==E.i.end()?r:meet(r,c->second,w); }
  FI fcon(Tm t,FI r){ auto c=E.f.find(t); if(c==E.f.end()) return r; r.l=std::max(r.l,c->second.l); r.h=std::min(r.h,c->second.h); r.nan=r.nan&&c->second.nan; return r; }
  FI fv(Tm t,int d=0){ auto it=fm.find(t); if(it!=fm.end()) return it->second; const Node x=G.n(t); FI r; int K=x.kind; if(!tick()||d>400) return fcon(t,r);
    LD l,h; if(G.frange(t,l,h)){ r.l=l; r.h=h; r.nan=false; }
    auto put=[&](LD a,LD b,bool nan){ r.l=std::max(r.l,a); r.h=std::min(r.h,b); r.nan=r.nan&&nan; };
    switch(x.op){
      case O_CONST: { LD v=bitsToLD(x.c,K); if(v==v) put(v,v,false); else { r.l=INFINITY; r.h=-INFINITY; } break; }
      case O_ITE: { int c=truth(x.aux,d+1); if(c<2){ FI q=fv(x.a[c==1?0:1],d+1); put(q.l,q.h,q.nan); } else { FI p=fv(x.a[0],d+1),q=fv(x.a[1],d+1); if(p.l>p.h) put(q.l,q.h,p.nan||q.nan); else if(q.l>q.h) put(p.l,p.h,p.nan||q.nan); else put(std::min(p.l,q.l),std::max(p.h,q.h),p.nan||q.nan); } break; }
      case O_UI2F: { II q=iv(x.a[0],d+1); put(rd((LD)q.ul,K),rd((LD)q.uh,K),false); break; }
      case O_SI2F: { II q=iv(x.a[0],d+1); put(rd((LD)q.sl,K),rd((LD)q.sh,K),false); break; }
      case O_FEXT: { FI q=fv(x.a[0],d+1); put(q.l,q.h,q.nan); break; }
      case O_FTRUNC: { FI q=fv(x.a[0],d+1); put(rd(q.l,K),rd(q.h,K),q.nan); break; }
      case O_FNEG: { FI q=fv(x.a[0],d+1); put(-q.h,-q.l,q.nan); break; }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: { FI p=fv(x.a[0],d+1),q=fv(x.a[1],d+1); arith(x.op,K,p,q,x.a[0]==x.a[1],put); break; }
      case O_CALLF: callf(x,d,put); break;
      case O_TBL: { const auto&tb=G.tabs[x.aux]; II q=iv(x.a[0],d+1); if(tb.empty()||q.ul>q.uh||q.uh>=tb.size()||q.uh-q.ul>4096) break; LD l=INFINITY,h=-INFINITY; bool nan=false; for(u128 i=q.ul;i<=q.uh;++i){ LD v=bitsToLD(tb[(size_t)i],K); if(v!=v) nan=true; else { l=std::min(l,v); h=std::max(h,v); } } put(l,h,nan); break; }
      default: break; }
    r=fcon(t,r); fm[t]=r; return r; }
  template<class P> void arith(int op,int K,FI p,FI q,bool same,P put){
    bool nan=p.nan||q.nan; if(p.l>p.h||q.l>q.h) return; auto ev=[&](LD a,LD b){ return bitsToLD(Graph::fop(op,K,ldToBits(a,K),ldToBits(b,K)),K); };
    if(op==O_FSUB){ std::swap(q.l,q.h); q.l=-q.l; q.h=-q.h; op=O_FADD; if(same&&!nan&&std::isfinite(p.l)&&std::isfinite(p.h)){ put(0,0,false); return; } }
    bool pi=std::isinf(p.l)&&p.l<0, pI=std::isinf(p.h)&&p.h>0, qi=std::isinf(q.l)&&q.l<0, qI=std::isinf(q.h)&&q.h>0;
    if(op==O_FADD){ nan=nan||(pi&&qI)||(pI&&qi); LD l= pi||qi? -INFINITY: ev(p.l,q.l), h= pI||qI? INFINITY: ev(p.h,q.h); put(l,h,nan); return; }
    if(op==O_FMUL){ if(same){ LD m=std::max(fabsl(p.l),fabsl(p.h)), n= p.l<=0&&p.h>=0?0:std::min(fabsl(p.l),fabsl(p.h)); put(ev(n,n),ev(m,m),nan); return; }
      bool pz=p.l<=0&&p.h>=0,qz=q.l<=0&&q.h>=0; nan=nan||((pi||pI)&&qz)||((qi||qI)&&pz); LD l=INFINITY,h=-INFINITY; for(LD a:{p.l,p.h}) for(LD b:{q.l,q.h}){ LD v=(a==0||b==0)?0:ev(a,b); l=std::min(l,v); h=std::max(h,v); } put(l,h,nan); return; }
    // division
    if(q.l<=0&&q.h>=0){ nan=nan||(p.l<=0&&p.h>=0)||((pi||pI)&&(qi||qI)); if(q.l>=0&&p.l>=0){ LD l= std::isinf(q.h)?0:ev(p.l,q.h); put(l,INFINITY,nan); } else put(-INFINITY,INFINITY,nan); return; }
    nan=nan||((pi||pI)&&(qi||qI)); LD l=INFINITY,h=-INFINITY; for(LD a:{p.l,p.h}) for(LD b:{q.l,q.h}){ LD v; if(std::isinf(b)) v=0; else v=ev(a,b); if(std::isinf(a)&&std::isinf(b)) { l=-INFINITY; h=INFINITY; } l=std::min(l,v); h=std::max(h,v); } put(l,h,nan); }
  template<class P> void callf(const Node&x,int d,P put){ const std::string nm=G.fnames[x.aux]; int K=x.kind; if(G.n(x.a[0]).kind!=K) return; FI p=fv(x.a[0],d+1); if(p.l>p.h) return; LD ep=K==KF?1e-6L:1e-14L;
    auto up=[&](LD v){ LD r=rd(v+fabsl(v)*ep,K); return r; }; auto dn=[&](LD v){ return rd(v-fabsl(v)*ep,K); };
    if(nm=="sin"||nm=="cos"){ put(-1,1,p.nan||std::isinf(p.l)||std::isinf(p.h)); }
    else if(nm=="tan"){ if(std::isfinite(p.l)&&std::isfinite(p.h)) put(-1e25L,1e25L,p.nan); }
    else if(nm=="fabs"){ put(p.l<=0&&p.h>=0?0:std::min(fabsl(p.l),fabsl(p.h)),std::max(fabsl(p.l),fabsl(p.h)),p.nan); }
    else if(nm=="sqrt"){ put(0,p.h<0?0:rd(sqrtl(p.h),K),p.nan||p.l<0); if(p.l>=0) put(rd(sqrtl(p.l),K),INFINITY,p.nan); }
    else if(nm=="floor"||nm=="ceil"||nm=="trunc"||nm=="round"){ auto f=[&](LD v){ return nm=="floor"?floorl(v):nm=="ceil"?ceill(v):nm=="trunc"?truncl(v):roundl(v); }; put(f(p.l),f(p.h),p.nan); }
    else if(nm=="log"){ LD l= p.l<=0?-INFINITY: p.l>=1? std::max(0.0L,dn(logl(p.l))): dn(logl(p.l)); LD h= p.h<=0?-INFINITY: p.h<=1? std::min(0.0L,up(logl(p.h))): up(logl(p.h)); put(l,h,p.nan||p.l<0); }
    else if(nm=="log1p"){ LD l= p.l<=-1?-INFINITY: p.l>=0?0: dn(log1pl(p.l)); LD h= p.h<=-1?-INFINITY: p.h<=0?0: up(log1pl(p.h)); put(l,h,p.nan||p.l<-1); }
    else if(nm=="exp"){ LD a=expl(p.l),b=expl(p.h); LD l=p.l>=0?std::max(1.0L,a>fmaxv(K)?fmaxv(K):dn(a)):std::max(0.0L,dn(a)); LD h=p.h<=0?std::min(1.0L,up(b)+ldexpl(1,-1074)):up(b); put(l,h,p.nan); }
    else if(nm=="pow"&&x.a.size()==2&&G.n(x.a[1]).kind==K){ FI q=fv(x.a[1],d+1); if(q.l>q.h||p.l<0) return; bool nan=p.nan||q.nan; // non-negative base: the result is a non-negative number or +inf
      LD l=0,h=INFINITY; if(p.h<=1&&q.l>=0) h=1; if(p.l>=1&&q.h<=0) h=1; if(p.l>=1&&q.l>=0) l=1; put(l,h,nan); } }
  // ---- outcome of a comparison under the current facts: 0, 1 or 2 (either)
  Tm resolve(Tm t){ for(int k=0;k<200;++k){ const Node&x=G.n(t); if(x.op!=O_ITE) return t; int c=truth(x.aux,0); if(c==2) return t; t=G.n(t).a[c==1?0:1]; } return t; }
  int atomTruth(Tm t,int d){ int r=atomTruth1(t,d); if(r<2||d>250) return r; const Node x=G.n(t); if(x.a.size()<2) return 2; Tm a=resolve(x.a[0]),b=resolve(x.a[1]); if(a==x.a[0]&&b==x.a[1]) return 2; if(G.n(a).kind==KP||G.n(a).kind==KA) return 2; Bd q; switch(x.op){ case O_EQ: q=G.eq(a,b); break; case O_ULT: q=G.ult(a,b); break; case O_SLT: q=G.slt(a,b); break; case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: q=G.fcmp(x.op,a,b); break; default: return 2; } if(q<=1) return (int)q; return truth(q,d+1); }
  // s + c1 < s + c2 where neither sum leaves the representable range
  int sameBase(Tm a,Tm b,bool sg,int d){ unsigned w=G.n(a).w; if(w>64||w<2||d>250) return 2; if(G.n(a).op!=O_LIN&&G.n(b).op!=O_LIN) return 2; Tm D=G.sub(b,a); if(G.isTree(D)) return 2; II q=iv(D,d+1),p=iv(a,d+1); s128 lo=sg?p.sl:(s128)p.ul,hi=sg?p.sh:(s128)p.uh; s128 mn=sg?-((s128)1<<(w-1)):0,mx=sg?((s128)1<<(w-1))-1:(s128)maskw(w); if(lo+q.sl<mn||hi+q.sh>mx) return 2; if(q.sl>0) return 1; if(q.sh<=0) return 0; return 2; }
  int atomTruth1(Tm t,int d){ const Node x=G.n(t); Tm a=x.a.size()>0?x.a[0]:0,b=x.a.size()>1?x.a[1]:0; switch(x.op){
      case O_EQ: { if(G.n(a).kind!=KI||G.n(b).kind!=KI) return 2; II p=iv(a,d),q=iv(b,d); if(p.uh<q.ul||q.uh<p.ul||p.sh<q.sl||q.sh<p.sl) return 0; if(p.ul==p.uh&&q.ul==q.uh&&p.ul==q.ul) return 1; Tm s1,s2; u128 c1,c2; if(split(a,s1,c1)&&split(b,s2,c2)&&s1==s2) return c1==c2; return 2; }
      case O_ULT: { II p=iv(a,d),q=iv(b,d); if(p.uh<q.ul) return 1; if(p.ul>=q.uh) return 0; return sameBase(a,b,false,d); }
      case O_SLT: { II p=iv(a,d),q=iv(b,d); if(p.sh<q.sl) return 1; if(p.sl>=q.sh) return 0; return sameBase(a,b,true,d); }
      case O_FEQ: { FI p=fv(a,d),q=fv(b,d); if(p.h<q.l||q.h<p.l||p.l>p.h||q.l>q.h) return 0; if(!p.nan&&!q.nan&&((p.l==p.h&&q.l==q.h&&p.l==q.l)||a==b)) return 1; return 2; }
      case O_FLT: { FI p=fv(a,d),q=fv(b,d); if(p.l>=q.h||p.l>p.h||q.l>q.h) return 0; if(!p.nan&&!q.nan&&p.h<q.l) return 1; if(ge(a,b,0)) return 0; return 2; }
      case O_FLE: { FI p=fv(a,d),q=fv(b,d); if(p.l>q.h||p.l>p.h||q.l>q.h) return 0; if(!p.nan&&!q.nan&&(p.h<=q.l||ge(b,a,0))) return 1; return 2; }
      case O_FUNO: { FI p=fv(a,d),q=fv(b,d); if(!p.nan&&!q.nan) return 0; return 2; }
      default: return 2; } }
  // a >= b whenever both are numbers: by monotonicity of rounded arithmetic and the comparisons on the path
  bool ge(Tm a,Tm b,int d){ if(a==b) return true; if(d>6||!tick()) return false; FI p=fv(a),q=fv(b); if(p.l>=q.h) return true; const Node x=G.n(a),y=G.n(b); if(x.kind!=y.kind) return false;
    if(x.op==O_ITE){ int c=truth(x.aux,0); if(c<2) return ge(x.a[c==1?0:1],b,d+1); return ge(x.a[0],b,d+1)&&ge(x.a[1],b,d+1); }
    if(y.op==O_ITE){ int c=truth(y.aux,0); if(c<2) return ge(a,y.a[c==1?0:1],d+1); return ge(a,y.a[0],d+1)&&ge(a,y.a[1],d+1); }
    if(x.op==O_FADD) for(int s=0;s<2;++s) if(fv(x.a[s]).l>=0&&ge(x.a[1-s],b,d+1)) return true;
    if(x.op==O_FSUB&&fv(x.a[1]).h<=0&&ge(x.a[0],b,d+1)) return true;
    if(y.op==O_FSUB&&fv(y.a[1]).l>=0&&ge(a,y.a[0],d+1)) return true;
    if(y.op==O_FADD) for(int s=0;s<2;++s) if(fv(y.a[s]).h<=0&&ge(a,y.a[1-s],d+1)) return true;
    if(x.op==O_FADD&&y.op==O_FADD) for(int i=0;i<2;++i) for(int j=0;j<2;++j) if(x.a[i]==y.a[j]&&ge(x.a[1-i],y.a[1-j],d+1)) return true;
    if(x.op==O_FSUB&&y.op==O_FSUB&&x.a[0]==y.a[0]&&ge(y.a[1],x.a[1],d+1)) return true;
    if(y.op==O_FMUL) for(int s=0;s<2;++s){ FI m=fv(y.a[s]); if(m.l>=0&&m.h<=1&&fv(y.a[1-s]).l>=0&&ge(a,y.a[1-s],d+1)) return true; }
    if(x.op==O_FMUL) for(int s=0;s<2;++s){ FI m=fv(x.a[s]); if(m.l>=1&&fv(x.a[1-s]).l>=0&&ge(x.a[1-s],b,d+1)) return true; }
    if(x.op==O_FMUL&&y.op==O_FMUL) for(int i=0;i<2;++i) for(int j=0;j<2;++j) if(x.a[i]==y.a[j]&&fv(x.a[i]).l>=0&&ge(x.a[1-i],y.a[1-j],d+1)) return true;
    if(y.op==O_FDIV&&p.l>=1){ FI m=fv(y.a[0]); if(m.l>=0&&ge(y.a[1],y.a[0],d+1)) return true; }
    if(x.op==O_FNEG&&y.op==O_FNEG) return ge(y.a[0],x.a[0],d+1);
    for(auto&p2:order){ if(p2.first==a&&p2.second!=a&&d<4&&ge(p2.second,b,d+3)) return true; }
    return false; }
  std::vector<std::array<uint32_t,3>> iord; // first - second >= third (signed), as decided on the path
  std::vector<std::pair<Tm,Tm>> order; // first >= second, as decided on the path
  // ---- narrowing
  bool chg=false;
  void ni(Tm t,II r,int d=0){ const Node x=G.n(t); unsigned w=x.w; if(w>100||d>60||E.bottom||!tick()) return; II old=iv(t); II q=meet(old,r,w); if(q.bot()){ E.bottom=true; return; } if(q.ul==old.ul&&q.uh==old.uh&&q.sl==old.sl&&q.sh==old.sh) return; E.i[t]=q; im[t]=q; chg=true;
    switch(x.op){
      case O_ZEXT: { II z=full(G.n(x.a[0]).w); z.ul=std::min(q.ul,z.uh+1); if(q.ul>z.uh){ E.bottom=true; return; } z.uh=std::min(z.uh,q.uh); ni(x.a[0],z,d+1); break; }
      case O_SEXT: { II z=full(G.n(x.a[0]).w); z.sl=std::max(z.sl,q.sl); z.sh=std::min(z.sh,q.sh); if(z.bot()){ E.bottom=true; return; } ni(x.a[0],z,d+1); break; }
      case O_TRUNC: { II o=iv(x.a[0]); if(o.uh<=maskw(w)){ II z=full(G.n(x.a[0]).w); z.ul=q.ul; z.uh=q.uh; ni(x.a[0],z,d+1); } else if(G.n(x.a[0]).w<=64&&o.sl>=-((s128)1<<(w-1))&&o.sh<((s128)1<<(w-1))){ II z=full(G.n(x.a[0]).w); z.sl=q.sl; z.sh=q.sh; ni(x.a[0],z,d+1); } break; }
      case O_LIN: { if(w>64) break; Tm s; u128 c; if(split(t,s,c)){ s128 k=sx(c,w); II z=ofInt((s128)q.ul-k,(s128)q.uh-k,w); z=meet(z,ofInt(q.sl-k,q.sh-k,w),w); if(z.bot()){ E.bottom=true; return; } ni(s,z,d+1); break; }
        // sum without wrap-around (signed or unsigned view): bound each summand by the others
        for(int sg=0;sg<2&&!E.bottom;++sg){ std::vector<s128> lo,hi; LD F=0,H=0; s128 l=0,h=0; bool ok=x.a.size()<=12; for(size_t i=0;i<x.a.size()&&ok;++i){ II p=iv(x.a[i]); s128 k=sx(x.k[i],w); s128 a=sg?p.sl:(s128)p.ul,b=sg?p.sh:(s128)p.uh; LD fa=(LD)k*a,fb=(LD)k*b; if(fabsl(fa)>1e35L||fabsl(fb)>1e35L){ ok=false; break; } s128 u=k*a,v=k*b; if(u>v) std::swap(u,v); lo.push_back(u); hi.push_back(v); l+=u; h+=v; F=(LD)l; H=(LD)h; if(fabsl(F)>1e36L||fabsl(H)>1e36L) ok=false; }
          if(!ok) continue; s128 tl,th; if(l>=0&&(u128)h<=maskw(w)){ tl=(s128)q.ul; th=(s128)q.uh; } else if(l>=-((s128)1<<(w-1))&&h<((s128)1<<(w-1))){ tl=q.sl; th=q.sh; } else continue;
          for(size_t i=0;i<x.a.size()&&!E.bottom;++i){ s128 k=sx(x.k[i],w); s128 cl=tl-(h-hi[i]), ch=th-(l-lo[i]); if(k<0){ s128 a=-ch,b=-cl; cl=a; ch=b; k=-k; } s128 a= cl>0? (cl+k-1)/k: -((-cl)/k), b= ch>=0? ch/k: -((-ch+k-1)/k); II z=full(G.n(x.a[i]).w); unsigned w2=G.n(x.a[i]).w; (void)w2; if(sg){ z.sl=std::max(z.sl,a); z.sh=std::min(z.sh,b); } else { if(b<0){ E.bottom=true; return; } z.ul=(u128)std::max<s128>(a,0); z.uh=std::min(z.uh,(u128)b); } if(z.bot()){ E.bottom=true; return; } ni(x.a[i],z,d+1); } } break; }
      case O_UDIV: { if(G.isC(x.a[1])&&G.n(x.a[1]).c&&w<=64){ u128 c=G.n(x.a[1]).c; II z=full(w); z.ul=std::min(q.ul*c,z.uh+1); if(q.ul*c>z.uh){ E.bottom=true; return; } z.uh=std::min(z.uh,q.uh*c+c-1); ni(x.a[0],z,d+1); } break; }
      case O_F2SI: case O_F2UI: { FI f; f.nan=true; f=fv(x.a[0]); FI z; z.nan=f.nan; LD l=(LD)q.sl,h=(LD)q.sh; LD lim=x.op==O_F2SI?ldexpl(1,w-1):ldexpl(1,w); if(x.op==O_F2UI){ l=(LD)q.ul; h=(LD)q.uh; } if(!f.nan&&f.l>-lim&&f.h<lim){ z.l= l>0? l: l-1; z.h= h<0? h: h+1; nf(x.a[0],z,d+1); } break; }
      case O_ITE: { int c=truth(x.aux,0); if(c<2){ ni(x.a[c==1?0:1],q,d+1); break; } for(int s=0;s<2;++s){ II o=meet(iv(x.a[s]),q,w); if(o.bot()){ lit(x.aux,s==1,d); if(!E.bottom) ni(x.a[1-s],q,d+1); break; } } break; }
      default: break; } }
  void nf(Tm t,FI r,int d=0){ const Node x=G.n(t); int K=x.kind; if(d>60||E.bottom||!tick()) return; FI old=fv(t); FI q=old; q.l=std::max(q.l,r.l); q.h=std::min(q.h,r.h); q.nan=q.nan&&r.nan; if(q.bot()){ E.bottom=true; return; } if(q.l==old.l&&q.h==old.h&&q.nan==old.nan) return; E.f[t]=q; fm[t]=q; chg=true;
    LD ep=K==KF?ldexpl(1,-22):K==KD?ldexpl(1,-51):ldexpl(1,-62), tiny=ldexpl(1,K==KF?-148:-1073); auto inf=[&](LD v){ return std::isinf(v); };
    switch(x.op){
      case O_FNEG: { FI z; z.l=-q.h; z.h=-q.l; z.nan=q.nan; nf(x.a[0],z,d+1); break; }
      case O_FEXT: nf(x.a[0],q,d+1); break;
      case O_FTRUNC: { FI z; z.nan=q.nan; z.l=inf(q.l)?q.l:q.l-fabsl(q.l)*ep-tiny; z.h=inf(q.h)?q.h:q.h+fabsl(q.h)*ep+tiny; nf(x.a[0],z,d+1); break; }
      case O_FADD: case O_FSUB: if(K!=KX&&q.l<=q.h) for(int s=0;s<2&&!E.bottom;++s){ FI o=fv(x.a[1-s]); FI z; if(q.nan) z.nan=true; else { z.nan=false; } if(o.l>o.h||inf(o.l)||inf(o.h)||q.nan) { if(!q.nan){ z.l=-INFINITY; z.h=INFINITY; nf(x.a[s],z,d+1); } continue; }
          LD ol=o.l,oh=o.h; LD l,h; if(x.op==O_FADD){ l=q.l-oh; h=q.h-ol; } else if(s==0){ l=q.l+ol; h=q.h+oh; } else { l=ol-q.h; h=oh-q.l; } auto wd=[&](LD v,LD qq,LD oo,int sg){ if(inf(v)) return v; LD m=std::max(fabsl(qq),fabsl(oo)); return v+sg*(m*ep+tiny); }; z.l=wd(l,x.op==O_FSUB&&s==1?q.h:q.l,std::max(fabsl(ol),fabsl(oh)),-1); z.h=wd(h,x.op==O_FSUB&&s==1?q.l:q.h,std::max(fabsl(ol),fabsl(oh)),1);
          if(z.l<=-fmaxv(K)||std::isnan(z.l)) z.l=-INFINITY; if(z.h>=fmaxv(K)||std::isnan(z.h)) z.h=INFINITY; nf(x.a[s],z,d+1); } break;
      case O_FMUL: if(K!=KX&&q.l<=q.h&&!q.nan) for(int s=0;s<2&&!E.bottom;++s){ FI o=fv(x.a[1-s]); FI z; z.nan=false; if(o.l>0&&std::isfinite(o.h)&&o.l<=o.h&&o.l>tiny*1e10L){ z.l= inf(q.l)?q.l: (q.l>=0? q.l/o.h: q.l/o.l); z.h= inf(q.h)?q.h:(q.h>=0? q.h/o.l: q.h/o.h); auto wd=[&](LD v,int sg){ return inf(v)?v: v+sg*(fabsl(v)*ep+tiny/o.l); }; z.l=wd(z.l,-1); z.h=wd(z.h,1); if(z.l<=-fmaxv(K)) z.l=-INFINITY; if(z.h>=fmaxv(K)) z.h=INFINITY; } nf(x.a[s],z,d+1); } break;
      case O_CALLF: { const std::string nm=G.fnames[x.aux]; if(q.nan||G.n(x.a[0]).kind!=K||q.l>q.h) break; FI z; z.nan=false; if(nm=="fabs"&&q.h>=0){ z.l=-q.h; z.h=q.h; nf(x.a[0],z,d+1); } else if(nm=="floor"){ z.l=q.l; z.h=inf(q.h)?q.h:floorl(q.h)+1; nf(x.a[0],z,d+1); } else if(nm=="sqrt"){ z.l=0; nf(x.a[0],z,d+1); } break; }
      case O_UI2F: case O_SI2F: { if(q.l>q.h) break; unsigned w=G.n(x.a[0]).w; II z=full(w); if(w>64) break; LD lo=q.l,hi=q.h; if(inf(lo)||fabsl(lo)>1e30L||inf(hi)||fabsl(hi)>1e30L) break; lo=ceill(lo-fabsl(lo)*ep); hi=floorl(hi+fabsl(hi)*ep); LD mn=x.op==O_UI2F?0:(LD)z.sl,mx=x.op==O_UI2F?(LD)z.uh:(LD)z.sh; if(lo>mx||hi<mn){ E.bottom=true; return; } lo=std::max(lo,mn); hi=std::min(hi,mx); if(x.op==O_UI2F){ z.ul=(u128)lo; z.uh=(u128)hi; } else { z.sl=(s128)lo; z.sh=(s128)hi; } if(z.bot()){ E.bottom=true; return; } ni(x.a[0],z,d+1); break; }
      case O_ITE: { int c=truth(x.aux,0); if(c<2){ nf(x.a[c==1?0:1],q,d+1); break; } for(int s=0;s<2;++s){ FI o=fv(x.a[s]); o.l=std::max(o.l,q.l); o.h=std::min(o.h,q.h); o.nan=o.nan&&q.nan; if(o.bot()){ lit(x.aux,s==1,d); if(!E.bottom) nf(x.a[1-s],q,d+1); break; } } break; }
      default: break; } }
  // a condition consisting of one comparison gets its outcome
  void lit(Bd b,bool val,int d){ if(b<=1) return; const Graph::BN n=G.B[b]; if(n.lo>1||n.hi>1) return; bool v=(n.hi==1)==val; auto it=asg.find(n.var); if(it!=asg.end()){ if(it->second!=(int)v) E.bottom=true; return; } asg[n.var]=v; added.push_back(n.var); chg=true; if(d<40) applyAtom(G.varAtom[n.var],v); }
  std::vector<uint32_t> added;
  void applyAtom(Tm t,bool v){ if(E.bottom||!tick()) return; int cur=atomTruth(t,0); if(cur<2&&cur!=(int)v){ E.bottom=true; return; } const Node x=G.n(t); if(x.a.size()<2) return; Tm a=x.a[0],b=x.a[1]; unsigned w=G.n(a).w;
    switch(x.op){
      case O_EQ: { if(G.n(a).kind!=KI||G.n(b).kind!=KI||w>100) break; II p=iv(a),q=iv(b); if(v){ II m=meet(p,q,w); if(m.bot()){ E.bottom=true; break; } ni(a,m); ni(b,m); } else for(int s=0;s<2&&!E.bottom;++s){ Tm y=s?b:a; II o=s?p:q, m=iv(y); if(o.ul==o.uh){ II z=full(w); z.ul=m.ul; z.uh=m.uh; z.sl=m.sl; z.sh=m.sh; if(m.ul==o.ul) z.ul=m.ul+1; if(m.uh==o.ul&&m.uh) z.uh=m.uh-1; s128 sv=sx(o.ul,w); if(m.sl==sv) z.sl=m.sl+1; if(m.sh==sv) z.sh=m.sh-1; if(z.bot()){ E.bottom=true; break; } ni(y,z); } } break; }
      case O_ULT: { II p=iv(a),q=iv(b); II z=full(w),y=full(w); if(v){ if(q.uh==0){ E.bottom=true; break; } z.uh=q.uh-1; y.ul=p.ul+1; if(p.ul==maskw(w)){ E.bottom=true; break; } } else { z.ul=q.ul; y.uh=p.uh; } ni(a,z); if(!E.bottom) ni(b,y); break; }
      case O_SLT: { if(w>100) break; II p=iv(a),q=iv(b); II z=full(w),y=full(w); if(v){ z.sh=q.sh-1; y.sl=p.sl+1; if(z.bot()||y.bot()){ E.bottom=true; break; } } else { z.sl=q.sl; y.sh=p.sh; } iord.push_back(v? std::array<uint32_t,3>{b,a,1}: std::array<uint32_t,3>{a,b,0}); ni(a,z); if(!E.bottom) ni(b,y); break; }
      case O_FEQ: if(v){ FI p=fv(a),q=fv(b); FI z; z.nan=false; z.l=std::max(p.l,q.l); z.h=std::min(p.h,q.h); nf(a,z); if(!E.bottom) nf(b,z); } break;
      case O_FUNO: { FI z; z.nan=false; if(!v){ nf(a,z); if(!E.bottom&&a!=b) nf(b,z); } break; }
      case O_FLT: case O_FLE: { int K=G.n(a).kind; FI p=fv(a),q=fv(b); bool strict=(x.op==O_FLT)==v; FI z,y; if(v){ z.nan=y.nan=false; z.h=strict&&!std::isinf(q.h)?nxt(q.h,K,-INFINITY):q.h; y.l=strict&&!std::isinf(p.l)?nxt(p.l,K,INFINITY):p.l; if(strict&&q.h==INFINITY) z.h=fmaxv(K); if(strict&&p.l==-INFINITY) y.l=-fmaxv(K); order.push_back({b,a}); order.push_back({resolve(b),resolve(a)}); order.push_back({b,resolve(a)}); order.push_back({resolve(b),a}); }
          else { if(p.nan||q.nan) break; z.nan=y.nan=false; z.l=strict&&!std::isinf(q.l)?nxt(q.l,K,INFINITY):q.l; y.h=strict&&!std::isinf(p.h)?nxt(p.h,K,-INFINITY):p.h; order.push_back({a,b}); order.push_back({resolve(a),resolve(b)}); order.push_back({a,resolve(b)}); order.push_back({resolve(a),b}); }
          nf(a,z); if(!E.bottom) nf(b,y); break; }
      default: break; } }
  // facts about free inputs hold without any comparison; the search walks the BDD depth first
  void fresh(){ fm.clear(); im.clear(); bm.clear(); }
  bool propagate(){ order.clear(); iord.clear(); for(int round=0;round<6;++round){ chg=false; fresh(); std::vector<std::pair<uint32_t,int>> as(asg.begin(),asg.end()); std::sort(as.begin(),as.end()); for(auto&p:as){ applyAtom(G.varAtom[p.first],p.second); if(E.bottom) return false; if(out) return true; } if(!chg) break; } return true; }
  // an undecided condition of a value choice inside the compared values: the path is split on it
  int pickVar(){ if(parts>=partMax) return -1; std::vector<std::pair<uint32_t,int>> as(asg.begin(),asg.end()); std::sort(as.begin(),as.end()); std::unordered_map<Tm,char> seen; int budget=3000; for(auto&p:as){ std::vector<Tm> st(G.N[G.varAtom[p.first]].a.begin(),G.N[G.varAtom[p.first]].a.end()); while(!st.empty()&&budget-->0){ Tm t=st.back(); st.pop_back(); if(seen.count(t)) continue; seen[t]=1; const Node&x=G.n(t); if(x.op==O_ITE){ int c=truth(x.aux,0); if(c<2){ st.push_back(G.n(t).a[c==1?0:1]); continue; } int v=undecided(G.n(t).aux); if(v>=0) return v; } for(Tm q:G.n(t).a) st.push_back(q); } } return -1; }
  int undecided(Bd b){ while(b>1){ const Graph::BN n=G.B[b]; auto a=asg.find(n.var); int v= a!=asg.end()? a->second: atomTruth(G.varAtom[n.var],0); if(v==2) return n.var; b= v? n.hi: n.lo; } return -1; }
  int parts=0, partMax=10;
  bool feasible(Bd b){ if(b==0) return false; if(out) return true; if(b==1){ int v=pickVar(); if(v<0) return true; ++parts; Bd at=G.atom(G.varAtom[v]); bool f=feasible(at)||feasible(G.bnot(at)); --parts; return f; } const Graph::BN n=G.B[b];
    auto it=asg.find(n.var); if(it!=asg.end()) return feasible(it->second?n.hi:n.lo);
    for(int v=0;v<2;++v){ Bd nx=v?n.hi:n.lo; if(nx==0) continue; Env sE=E; auto sA=asg; auto sO=order; auto sI=iord; asg[n.var]=v; E.bottom=false; bool ok=propagate(); bool f= ok&&feasible(nx); if(out) return true; E=std::move(sE); asg=std::move(sA); order=std::move(sO); iord=std::move(sI); fresh(); if(f) return true; }
    return false; }
  // true: no path of b is feasible
  bool refuted(Bd b){ { std::vector<char> sb; std::vector<Tm> at; G.collectB(b,sb,at); std::sort(at.begin(),at.end()); at.erase(std::unique(at.begin(),at.end()),at.end()); if(at.size()<3000) for(Tm t:at){ int v=atomTruth(t,0); if(out) break; if(v<2){ Bd a=G.atom(t); b=G.brestrict(b,v?a:G.bnot(a)); if(b==0) return true; } } fresh(); if(out){ out=false; steps=0; } }
    bool f=feasible(b); return !f&&!out; }
};
