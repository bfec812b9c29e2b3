// Value graph: hash-consed terms, BDD conditions, random interpretation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <stdexcept>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint32_t Tm;            // term id
typedef uint32_t Bd;            // bdd id: 0=false 1=true
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Kind : uint8_t { KI, KF, KD, KX, KP, KA };   // int, float, double, x87, pointer, aggregate
enum Op : uint8_t {
  O_NONE, O_CONST, O_SYM, O_LIN, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ZEXT, O_SEXT, O_TRUNC, O_ITE, O_BOOL, O_F2UI, O_F2SI, O_BITI, O_CTPOP, O_CTLZ, O_CTTZ, O_CTLS, O_P2I,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_UI2F, O_SI2F, O_FEXT, O_FTRUNC, O_BITF, O_CALLF,
  O_PTR, O_I2P, O_AGG,
  O_TBL, O_SYMAT, O_MODLIN,
  O_EQ, O_ULT, O_SLT, O_FEQ, O_FLT, O_FLE, O_FUNO   // atoms (w = 1)
};
struct Node {
  uint8_t op, kind; uint16_t w; uint32_t aux; u128 c;
  std::vector<Tm> a; std::vector<u128> k;
  u128 lo, hi; uint8_t tz;
  const void *loc;
};
struct SymInfo { int stream; uint64_t idx; int kind; int w; u128 lo, hi; long double flo, fhi; bool undef; std::string name; };

static inline u128 maskw(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline s128 sx(u128 v, unsigned w){ if(w>=128) return (s128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (s128)((v^m)-m); }
static inline unsigned ctz128(u128 v){ if(!v) return 128; uint64_t l=(uint64_t)v; if(l) return __builtin_ctzll(l); return 64+__builtin_ctzll((uint64_t)(v>>64)); }
static inline unsigned bl128(u128 v){ if(!v) return 0; uint64_t h=(uint64_t)(v>>64); if(h) return 128-__builtin_clzll(h); return 64-__builtin_clzll((uint64_t)v); }

static inline std::string u128s(u128 v){ if(!v) return "0"; std::string s; while(v){ s.insert(s.begin(), char('0'+(int)(v%10))); v/=10; } return s; }

// ---- host floating point helpers -------------------------------------------------
static inline long double bitsToLD(u128 b, int kind){
  if(kind==KF){ float f; uint32_t x=(uint32_t)b; memcpy(&f,&x,4); return f; }
  if(kind==KD){ double f; uint64_t x=(uint64_t)b; memcpy(&f,&x,8); return f; }
  long double f=0; memcpy(&f,&b,10); return f; }
static inline u128 floatBits(float f){ uint32_t x; memcpy(&x,&f,4); return x; }
static inline u128 doubleBits(double f){ uint64_t x; memcpy(&x,&f,8); return x; }
static inline u128 ldBits(long double f){ u128 b=0; memcpy(&b,&f,10); return b; }
static inline u128 ldToBits(long double v, int kind){ if(kind==KF) return floatBits((float)v); if(kind==KD) return doubleBits((double)v); return ldBits(v); }
static inline int fpw(int kind){ return kind==KF?32:kind==KD?64:80; }

struct Graph {
  std::deque<Node> N;
  std::unordered_multimap<uint64_t, Tm> H;
  std::vector<SymInfo> syms;
  std::map<std::pair<int,uint64_t>, Tm> symmap;
  std::vector<std::string> fnames; std::map<std::string,uint32_t> fnameix;
  const void *curloc=nullptr;
  // ---- BDD
  struct BN { uint32_t var; Bd lo, hi; };
  std::vector<BN> B; std::unordered_map<uint64_t, std::vector<Bd>> BU;
  std::vector<Tm> varAtom; std::unordered_map<Tm,uint32_t> atomVar;
  struct K3 { Bd a,b,c; bool operator==(const K3&o)const{return a==o.a&&b==o.b&&c==o.c;} };
  struct K3H { size_t operator()(const K3&k)const{ return k.a*1000003ull ^ k.b*7919ull*65537 ^ k.c*104729ull*257; } };
  std::unordered_map<K3,Bd,K3H> ITEC, RESC;
  size_t bddLimit=6000000, termLimit=30000000;

  Graph(){ N.push_back(Node{O_NONE,0,0,0,0,{}, {},0,0,0,nullptr}); B.push_back({~0u,0,0}); B.push_back({~0u,1,1}); }
  const Node& n(Tm t) const { return N[t]; }

  // ---------- BDD core
  Bd mkB(uint32_t v, Bd lo, Bd hi){ if(lo==hi) return lo; uint64_t h=v*0x9E3779B97F4A7C15ull ^ lo*0xC2B2AE3D27D4EB4Full ^ (uint64_t)hi*0x165667B19E3779F9ull; auto &vec=BU[h];
    for(Bd b:vec) if(B[b].var==v&&B[b].lo==lo&&B[b].hi==hi) return b;
    if(B.size()>bddLimit) throw Unsupported("bdd limit");
    B.push_back({v,lo,hi}); vec.push_back(B.size()-1); return B.size()-1; }
  Bd bite(Bd f, Bd g, Bd h){
    if(f==1) return g; if(f==0) return h; if(g==h) return g; if(g==1&&h==0) return f;
    if(g==f) g=1; if(h==f) h=0; if(g==1&&h==0) return f; if(g==h) return g;
    K3 k{f,g,h}; auto it=ITEC.find(k); if(it!=ITEC.end()) return it->second;
    // explicit recursion; depth bounded by number of vars
    uint32_t v=B[f].var; if(g>1) v=std::min(v,B[g].var); if(h>1) v=std::min(v,B[h].var);
    auto lo=[&](Bd x){ return x>1&&B[x].var==v? B[x].lo:x; }; auto hi=[&](Bd x){ return x>1&&B[x].var==v? B[x].hi:x; };
    Bd l=bite(lo(f),lo(g),lo(h)), r=bite(hi(f),hi(g),hi(h)); Bd res=mkB(v,l,r); ITEC[k]=res; return res; }
  Bd bnot(Bd f){ return bite(f,0,1); } Bd band(Bd f,Bd g){ return bite(f,g,0); } Bd bor(Bd f,Bd g){ return bite(f,1,g); } Bd bxor(Bd f,Bd g){ return bite(f,bnot(g),g); }
  // generalized cofactor (restrict) of f by care set c
  Bd brestrict(Bd f, Bd c){
    if(c==0) return 0; if(c==1||f<=1) return f; if(f==c) return 1;
    K3 k{f,c,0}; auto it=RESC.find(k); if(it!=RESC.end()) return it->second; Bd r;
    uint32_t vf=B[f].var, vc=B[c].var;
    if(vc<vf){ r=brestrict(f,bor(B[c].lo,B[c].hi)); }
    else { Bd fl=B[f].lo, fh=B[f].hi, cl= vc==vf?B[c].lo:c, ch= vc==vf?B[c].hi:c;
      if(cl==0) r=brestrict(fh,ch); else if(ch==0) r=brestrict(fl,cl); else r=mkB(vf,brestrict(fl,cl),brestrict(fh,ch)); }
    RESC[k]=r; return r; }
  Bd atom(Tm a){ auto it=atomVar.find(a); uint32_t v; if(it==atomVar.end()){ v=varAtom.size(); varAtom.push_back(a); atomVar[a]=v; } else v=it->second; return mkB(v,0,1); }

  // ---------- hash consing
  Tm intern(Node &&x){
    uint64_t h=x.op*1315423911ull ^ (uint64_t)x.kind<<7 ^ (uint64_t)x.w<<13 ^ (uint64_t)x.aux*0x9E3779B97F4A7C15ull ^ (uint64_t)x.c*0xC2B2AE3D27D4EB4Full ^ (uint64_t)(x.c>>64)*0x27D4EB2F165667C5ull;
    for(Tm t:x.a) h=h*0x100000001b3ull ^ (t+0x9E37u);
    for(u128 t:x.k) h=h*0x100000001b3ull ^ (uint64_t)t ^ (uint64_t)(t>>64)*31;
    auto r=H.equal_range(h);
    for(auto it=r.first; it!=r.second; ++it){ const Node&y=N[it->second]; if(y.op==x.op&&y.kind==x.kind&&y.w==x.w&&y.aux==x.aux&&y.c==x.c&&y.a==x.a&&y.k==x.k) return it->second; }
    if(N.size()>termLimit) throw Unsupported("term limit");
    x.loc=curloc; N.push_back(std::move(x)); Tm id=N.size()-1; H.emplace(h,id); return id; }
  Tm mk(uint8_t op, uint8_t kind, unsigned w, std::vector<Tm> a, uint32_t aux=0, u128 c=0){
    Node x{}; x.op=op; x.kind=kind; x.w=w; x.aux=aux; x.c=c; x.a=std::move(a); x.lo=0; x.hi=maskw(w); x.tz=0; range(x); return intern(std::move(x)); }
  void range(Node &x){
    if(x.kind!=KI) return; unsigned w=x.w; u128 m=maskw(w);
    auto A=[&](int i)->const Node&{ return N[x.a[i]]; };
    switch(x.op){
    case O_CONST: x.lo=x.hi=x.c; x.tz= x.c? ctz128(x.c):w; break;
    case O_LIN: {
      // try plain unsigned sum, then signed coefficients
      bool ok = w<=100; if(ok){ long double flo=(long double)x.c, fhi=(long double)x.c; u128 lo=x.c,hi=x.c; 
        for(size_t i=0;i<x.a.size();++i){ flo+=(long double)x.k[i]*(long double)A(i).lo; fhi+=(long double)x.k[i]*(long double)A(i).hi; lo+=x.k[i]*A(i).lo; hi+=x.k[i]*A(i).hi; }
        if(fhi < (long double)m*1.0000001L && fhi<1e37L && hi<=m){ x.lo=lo; x.hi=hi; }
        else { long double l=(long double)sx(x.c,w), h=l; s128 sl=sx(x.c,w), sh=sl; 
          for(size_t i=0;i<x.a.size();++i){ s128 k=sx(x.k[i],w); s128 p=k*(s128)A(i).lo, q=k*(s128)A(i).hi; long double fp=(long double)k*(long double)A(i).lo, fq=(long double)k*(long double)A(i).hi;
            if(k<0){ std::swap(p,q); std::swap(fp,fq);} sl+=p; sh+=q; l+=fp; h+=fq; }
          if(l>=-0.5L && h<1e37L && l<1e37L && sl>=0 && (u128)sh<=m && h<=(long double)m*1.0000001L){ x.lo=sl; x.hi=sh; } } }
      unsigned z = x.c? ctz128(x.c):128; for(size_t i=0;i<x.a.size();++i) z=std::min<unsigned>(z, ctz128(x.k[i])+A(i).tz); x.tz=std::min<unsigned>(z,w); break; }
    case O_MUL: { long double h=(long double)A(0).hi*(long double)A(1).hi; if(h<(long double)m && h<1e37L){ x.lo=A(0).lo*A(1).lo; x.hi=A(0).hi*A(1).hi; } x.tz=std::min<unsigned>(w,A(0).tz+A(1).tz); break; }
    case O_UDIV: if(A(1).lo>0){ x.lo=A(0).lo/A(1).hi; x.hi=A(0).hi/A(1).lo; } else x.hi=m; break;
    case O_UREM: if(A(1).hi>0) x.hi=std::min(A(0).hi, A(1).hi-1); break;
    case O_AND: x.hi=std::min(A(0).hi,A(1).hi); x.tz=std::max(A(0).tz,A(1).tz); break;
    case O_OR: { x.lo=std::max(A(0).lo,A(1).lo); unsigned b=std::max(bl128(A(0).hi),bl128(A(1).hi)); x.hi=maskw(b); x.tz=std::min(A(0).tz,A(1).tz); break; }
    case O_XOR: { unsigned b=bl128(x.c), z= x.c?ctz128(x.c):128; for(Tm t:x.a){ b=std::max(b,bl128(N[t].hi)); z=std::min<unsigned>(z,N[t].tz);} x.hi=maskw(b); x.tz=std::min<unsigned>(z,w); break; }
    case O_LSHR: if(A(1).lo==A(1).hi){ if(A(1).lo<w){ x.lo=A(0).lo>>(unsigned)A(1).lo; x.hi=A(0).hi>>(unsigned)A(1).lo; } } else x.hi=A(0).hi; break;
    case O_ASHR: if(A(0).hi<=(m>>1)){ x.hi=A(0).hi; if(A(1).lo==A(1).hi&&A(1).lo<w){ x.lo=A(0).lo>>(unsigned)A(1).lo; x.hi=A(0).hi>>(unsigned)A(1).lo; } } break;
    case O_MODLIN: x.lo=0; x.hi=x.k.back()-1; break;
    case O_ZEXT: x.lo=A(0).lo; x.hi=A(0).hi; x.tz= A(0).hi==0? w: A(0).tz; break;
    case O_TRUNC: if(A(0).hi<=m){ x.lo=A(0).lo; x.hi=A(0).hi; } x.tz=std::min<unsigned>(w,A(0).tz); break;
    case O_ITE: x.lo=std::min(A(0).lo,A(1).lo); x.hi=std::max(A(0).hi,A(1).hi); x.tz=std::min(A(0).tz,A(1).tz); break;
    case O_CTPOP: case O_CTLZ: case O_CTTZ: x.hi=std::min<u128>(m,w); break;
    case O_BOOL: x.hi=1; break;
    default: break; }
    if(x.tz&&x.tz<w&&x.hi>0){ u128 tm=maskw(x.tz); u128 h2=x.hi&~tm, l2=(x.lo+tm)&~tm; if(l2<=h2&&l2>=x.lo){ x.hi=h2; x.lo=l2; } }
    if(x.lo>x.hi){ x.lo=0; x.hi=m; }
  }
  // ---------- constructors
  Tm cst(unsigned w, u128 v){ v&=maskw(w); Node x{}; x.op=O_CONST; x.kind=KI; x.w=w; x.c=v; range(x); return intern(std::move(x)); }
  Tm fcst(int kind, u128 bits){ Node x{}; x.op=O_CONST; x.kind=kind; x.w=fpw(kind); x.c=bits; return intern(std::move(x)); }
  Tm fval(int kind, long double v){ return fcst(kind, ldToBits(v,kind)); }
  bool isC(Tm t) const { return N[t].op==O_CONST; }
  Tm sym(int stream, uint64_t idx, int kind, int w, u128 lo, u128 hi, long double flo, long double fhi, bool undef=false){
    auto key=std::make_pair(stream,idx); if(!undef){ auto it=symmap.find(key); if(it!=symmap.end()) return it->second; }
    SymInfo s{stream,idx,kind,w,lo,hi,flo,fhi,undef,""}; syms.push_back(s);
    Node x{}; x.op=O_SYM; x.kind=kind; x.w=w; x.aux=syms.size()-1; x.lo=lo; x.hi=hi; x.tz=0; if(kind!=KI){x.lo=0;x.hi=maskw(w);} Tm t=intern(std::move(x)); if(!undef) symmap[key]=t; return t; }
  Tm boolT(Bd b){ if(b<=1) return cst(1,b); return mk(O_BOOL,KI,1,{},b); }
  Bd asB(Tm t){ const Node&x=N[t]; if(x.op==O_CONST) return x.c&1; if(x.op==O_BOOL) return x.aux;
    if(x.op==O_ITE){ Bd c=x.aux; Tm a=x.a[0], b=x.a[1]; return bite(c,asB(a),asB(b)); }
    return eq(zext(t,8), cst(8,1)); }
  // const tree helpers
  std::unordered_map<Tm,int> TC; // distinct nodes below a tree of constants (-1: not one)
  int treeN(Tm t){ const Node&x=N[t]; if(x.op==O_CONST||x.op==O_PTR) return 1; if(x.op!=O_ITE) return -1; auto it=TC.find(t); if(it!=TC.end()) return it->second; Tm p=x.a[0],q=x.a[1]; int r=-1; if(treeN(p)>=0&&treeN(q)>=0){ std::set<Tm> seen; std::vector<Tm> st{t}; while(!st.empty()&&seen.size()<1300){ Tm u=st.back(); st.pop_back(); if(!seen.insert(u).second) continue; const Node&y=N[u]; if(y.op==O_ITE){ st.push_back(y.a[0]); st.push_back(y.a[1]); } } r=(int)seen.size(); } TC[t]=r; return r; }
  bool isTree(Tm t){ if(N[t].op!=O_ITE) return false; int r=treeN(t); return r>=0&&r<1200; }
  Tm mapTree(Tm t, const std::function<Tm(Tm)>&f){ std::map<Tm,Tm> memo; std::function<Tm(Tm)> go=[&](Tm x)->Tm{ auto it=memo.find(x); if(it!=memo.end()) return it->second; Tm r; if(N[x].op==O_ITE){ Bd c=N[x].aux; Tm a=N[x].a[0], b=N[x].a[1]; Tm p=go(a), q=go(b); r=ite(c,p,q);} else r=f(x); memo[x]=r; return r; }; return go(t); }
  Bd mapTreeB(Tm t, const std::function<Bd(Tm)>&f){ std::map<Tm,Bd> memo; std::function<Bd(Tm)> go=[&](Tm x)->Bd{ auto it=memo.find(x); if(it!=memo.end()) return it->second; Bd r; if(N[x].op==O_ITE){ Bd c=N[x].aux; Tm a=N[x].a[0], b=N[x].a[1]; Bd p=go(a), q=go(b); r=bite(c,p,q);} else r=f(x); memo[x]=r; return r; }; return go(t); }
  Tm ite(Bd c, Tm t, Tm f){
    if(t==f) return t; if(c==1) return t; if(c==0) return f;
    const Node &x=N[t], &y=N[f];
    if(x.kind!=y.kind || x.w!=y.w){ if(x.kind==KA||y.kind==KA) throw Unsupported("ite agg mismatch"); // reinterpret to int
      return ite(c, toInt(t), toInt(f)); }
    if(x.kind==KA){ if(x.a.size()!=y.a.size()) throw Unsupported("agg size"); std::vector<Tm> v,xa=x.a,ya=y.a; for(size_t i=0;i<xa.size();++i) v.push_back(ite(c,xa[i],ya[i])); return agg(v); }
    if(x.kind==KI&&x.w==1) return boolT(bite(c,asB(t),asB(f)));
    if(x.op==O_ITE && x.aux==c) return ite(c,x.a[0],f);
    if(y.op==O_ITE && y.aux==c) return ite(c,t,y.a[1]);
    if(y.op==O_ITE && y.a[0]==t){ Tm f2=y.a[1]; return ite(bor(c,y.aux),t,f2); }
    if(y.op==O_ITE && y.a[1]==t){ Tm f2=y.a[0]; Bd c2=bor(c,bnot(y.aux)); return ite(c2,t,f2); }
    if(x.op==O_ITE && x.a[1]==f){ Tm t2=x.a[0]; return ite(band(c,x.aux),t2,f); }
    if(x.op==O_ITE && x.a[0]==f){ Tm t2=x.a[1]; Bd c2=band(c,bnot(x.aux)); return ite(c2,t2,f); }
    if(x.kind==KI&&c>1&&B[c].lo<=1&&B[c].hi<=1){ Tm o; if(modIte(c,t,f,o)) return o; }
    Bd nc=bnot(c); if(nc<c){ std::swap(t,f); c=nc; }
    Tm r=mk(O_ITE,N[t].kind,N[t].w,{t,f},c);
    if(N[r].kind==KI&&B[c].lo<=1&&B[c].hi<=1){ bool pos=B[c].hi==1; const Node&at=N[varAtom[B[c].var]]; bool c0=at.op==O_EQ&&isC(at.a[0]); if((at.op==O_EQ||at.op==O_ULT)&&(c0||isC(at.a[1]))){ u128 K=N[at.a[c0?0:1]].c; Tm y=at.a[c0?1:0]; u128 tl=N[t].lo,th=N[t].hi,fl=N[f].lo,fh=N[f].hi; 
        auto refine=[&](Tm v,bool holds,u128&l,u128&h){ Tm b=v; if(N[b].op==O_ZEXT) b=N[b].a[0]; Tm yy=y; if(N[yy].op==O_ZEXT) yy=N[yy].a[0]; if(b!=yy) return; if(at.op==O_EQ){ if(holds){ l=h=K; } else { if(l==K) ++l; else if(h==K) --h; } } else { if(holds){ if(K&&h>K-1) h=K-1; } else if(l<K) l=K; } };
        refine(t,pos,tl,th); refine(f,!pos,fl,fh); u128 lo=std::min(tl,fl),hi=std::max(th,fh); if(lo<=hi&&lo>=N[r].lo&&hi<=N[r].hi){ N[r].lo=lo; N[r].hi=hi; } }
      else if(at.op==O_ULT){ // relational: the guard orders p and q, the leaf is +-(q-p)+c
        Tm p=at.a[0],q=at.a[1]; auto strip=[&](Tm v){ return v; }; (void)strip; u128 tl=N[t].lo,th=N[t].hi,fl=N[f].lo,fh=N[f].hi; bool any=false;
        auto rel=[&](Tm v,bool holds,u128&l,u128&h){ const Node&L=N[v]; if(L.op!=O_LIN||L.a.size()!=2||L.w>64) return; u128 m=maskw(L.w); Tm u0=L.a[0],u1=L.a[1]; u128 k0=L.k[0],k1=L.k[1]; if(u0==q&&u1==p){ std::swap(u0,u1); std::swap(k0,k1); } if(u0!=p||u1!=q) return; int s; if(k1==1&&k0==m) s=1; else if(k1==m&&k0==1) s=-1; else return;
          __int128 dl,dh; if(holds){ dl=1; dh=(__int128)N[q].hi-(__int128)N[p].lo; } else { dl=(__int128)N[q].lo-(__int128)N[p].hi; dh=0; } if(dl>dh) return; if(s<0){ __int128 x=-dl; dl=-dh; dh=x; }
          __int128 mod=(__int128)m+1, c0=(__int128)L.c; for(int j=0;j<2;++j){ __int128 a=dl+c0-j*mod, b=dh+c0-j*mod; if(a>=0&&b<=(__int128)m){ l=std::max(l,(u128)a); h=std::min(h,(u128)b); any=true; return; } } };
        rel(t,pos,tl,th); rel(f,!pos,fl,fh); if(any){ u128 lo=std::min(tl,fl),hi=std::max(th,fh); if(lo<=hi&&lo>=N[r].lo&&hi<=N[r].hi){ N[r].lo=lo; N[r].hi=hi; } } } }
    return r; }
  Tm toInt(Tm t){ const Node&x=N[t]; if(x.kind==KI) return t; if(x.kind==KP) return p2i(t); if(x.op==O_CONST) return cst(x.w,x.c); if(x.op==O_BITF) return x.a[0]; return mk(O_BITI,KI,x.w,{t}); }
  Tm toFP(Tm t,int kind){ const Node&x=N[t]; if(x.kind==kind) return t; if(x.kind!=KI||x.w!=fpw(kind)) throw Unsupported("toFP"); if(x.op==O_CONST) return fcst(kind,x.c); if(x.op==O_BITI&&N[x.a[0]].kind==kind) return x.a[0]; return mk(O_BITF,kind,x.w,{t}); }
  Tm agg(const std::vector<Tm>&v){ return mk(O_AGG,KA,0,v); }
  // linear forms
  typedef std::vector<std::pair<Tm,u128>> LV;
  void toLin(Tm t, u128 k, LV&v, u128&c){ const Node&x=N[t]; unsigned w=x.w; if(x.op==O_CONST){ c=(c+x.c*k)&maskw(w); return; } if(x.op==O_LIN){ c=(c+x.c*k)&maskw(w); for(size_t i=0;i<x.a.size();++i) v.push_back({x.a[i],(x.k[i]*k)&maskw(w)}); return; } v.push_back({t,k&maskw(w)}); }
  Tm fromLin(unsigned w, LV v, u128 c){ u128 m=maskw(w); std::sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); LV o; for(auto&p:v){ if(!o.empty()&&o.back().first==p.first) o.back().second=(o.back().second+p.second)&m; else o.push_back(p); } LV q; for(auto&p:o) if(p.second&m) q.push_back({p.first,p.second&m}); c&=m;
    if(q.empty()) return cst(w,c); if(q.size()==1&&q[0].second==1&&c==0) return q[0].first;
    Node x{}; x.op=O_LIN; x.kind=KI; x.w=w; x.c=c; for(auto&p:q){ x.a.push_back(p.first); x.k.push_back(p.second);} x.lo=0; x.hi=m; range(x); Tm T=intern(std::move(x)); { // folding of a number at bit k: (y mod 2^k) + (y >> k)
      bool cand=false; { const Node&L=N[T]; if(L.w<=64&&L.a.size()>=2&&L.a.size()<=12) for(size_t i=0;i<L.a.size();++i) if(L.k[i]==1&&N[L.a[i]].op==O_LSHR&&isC(N[L.a[i]].a[1])) cand=true; }
      if(cand&&!foldSeen.count(T)){ foldSeen.insert(T); std::vector<Tm> la=N[T].a; std::vector<u128> lk=N[T].k; std::vector<char> used(la.size(),0); u128 tot=N[T].c; bool ok=true,any=false;
        for(size_t i=0;i<la.size();++i){ Tm sh=la[i]; if(lk[i]!=1||N[sh].op!=O_LSHR||!isC(N[sh].a[1])) continue; unsigned k=(unsigned)N[N[sh].a[1]].c; Tm y=N[sh].a[0]; if(k==0||k>=N[y].w) continue; Tm lw; try{ lw=modLin(y,(u128)1<<k); }catch(Unsupported&){ continue; } for(size_t j=0;j<la.size();++j) if(j!=i&&la[j]==lw&&lk[j]==1&&!used[j]&&!used[i]){ used[i]=used[j]=1; u128 hi=N[y].hi,q=hi>>k,rr=hi&maskw(k); tot+=q==0?rr:std::max(rr+q,maskw(k)+q-1); any=true; break; } }
        if(any){ for(size_t i=0;i<la.size();++i) if(!used[i]){ if(lk[i]>((u128)1<<40)||N[la[i]].hi>maskw(64)) { ok=false; break; } tot+=lk[i]*N[la[i]].hi; } u128 mx=N[T].c; bool fits=true; for(size_t i=0;i<la.size()&&fits;++i){ if(lk[i]>((u128)1<<40)) fits=false; else mx+=lk[i]*N[la[i]].hi; } if(ok&&fits&&mx<=m&&tot<N[T].hi&&tot>=N[T].lo) N[T].hi=tot; } } }
    return T; }
  std::set<Tm> foldSeen;
  template<class F> bool tree2(Tm a, Tm b, Tm &out, F f){
    bool ta=isTree(a), tb=isTree(b); if(!ta&&!tb) return false;
    if(ta&&isC(b)) { out=mapTree(a,[&](Tm x){return f(x,b);}); return true; }
    if(tb&&isC(a)) { out=mapTree(b,[&](Tm x){return f(a,x);}); return true; }
    if(ta&&tb){ if(treeN(a)<=64){ if(treeN(b)<=64){ out=mapTree(a,[&](Tm x){ return mapTree(b,[&](Tm y){return f(x,y);}); }); return true; } } }
    return false; }
  Tm add(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return add(x,y);})) return r; LV v; u128 c=0; unsigned w=N[a].w; if(w==1) return boolT(bxor(asB(a),asB(b))); toLin(a,1,v,c); toLin(b,1,v,c); return fromLin(w,v,c); }
  Tm sub(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return sub(x,y);})) return r; LV v; u128 c=0; unsigned w=N[a].w; if(w==1) return boolT(bxor(asB(a),asB(b))); toLin(a,1,v,c); toLin(b,maskw(w),v,c); return fromLin(w,v,c); }
  Tm mulc(Tm a, u128 k){ LV v; u128 c=0; unsigned w=N[a].w; toLin(a,k,v,c); return fromLin(w,v,c); }
  Tm mul(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return mul(x,y);})) return r; unsigned w=N[a].w; if(w==1) return boolT(band(asB(a),asB(b))); if(isC(a)) return mulc(b,N[a].c); if(isC(b)) return mulc(a,N[b].c);
    // boolean-valued factor
    for(int s=0;s<2;++s){ Tm p=s?b:a,q=s?a:b; const Node&x=N[p]; if(x.op==O_ZEXT&&N[x.a[0]].w==1){ return ite(asB(x.a[0]),q,cst(w,0)); } }
    if(a>b) std::swap(a,b); return mk(O_MUL,KI,w,{a,b}); }
  Tm neg(Tm a){ return mulc(a,maskw(N[a].w)); }
  // ---- sums modulo a constant:  (sum k_i a_i + c) mod m, k.back()==m, width polymorphic
  bool linNoWrap(const Node&x){ unsigned w=x.w; u128 m=maskw(w); if(w>100) return false; s128 sl=sx(x.c,w),sh=sl; long double l=(long double)sl,h=l; { u128 lo=x.c,hi=x.c; long double fh=(long double)x.c; for(size_t i=0;i<x.a.size();++i){ fh+=(long double)x.k[i]*(long double)N[x.a[i]].hi; hi+=x.k[i]*N[x.a[i]].hi; } if(fh<(long double)m*1.0000001L&&hi<=m) return true; (void)lo; }
    for(size_t i=0;i<x.a.size();++i){ s128 k=sx(x.k[i],w); long double fp=(long double)k*(long double)N[x.a[i]].lo,fq=(long double)k*(long double)N[x.a[i]].hi; s128 p=k*(s128)N[x.a[i]].lo,q=k*(s128)N[x.a[i]].hi; if(k<0){ std::swap(p,q); std::swap(fp,fq);} sl+=p; sh+=q; l+=fp; h+=fq; }
    return l>=-0.5L&&h<1e37L&&sl>=0&&(u128)sh<=m&&h<=(long double)m*1.0000001L; }
  static u128 mulm(u128 a,u128 b,u128 m){ if(!(m&(m-1))) return (a*b)&(m-1); a%=m; b%=m; if(m<=((u128)1<<64)) { if(a<((u128)1<<63)||b<((u128)1<<63)) return a*b%m; u128 r=0; while(b){ if(b&1) r=(r+a)%m; a=(a+a)%m; b>>=1; } return r; } throw Unsupported("modulus"); }
  typedef std::map<Tm,u128> MV;
  void toMod(Tm t, u128 k, u128 m, MV&v, u128&c, int d=0){ k=(m&(m-1))?k%m:k&(m-1); if(!k) return; const Node&x=N[t]; bool p2=!(m&(m-1)); auto put=[&](Tm b,u128 kk){ auto&q=v[b]; q=p2?(q+kk)&(m-1):(q+kk)%m; };
    if(d>60){ put(t,k); return; }
    if(x.op==O_CONST){ c=p2?(c+x.c*k)&(m-1):(c+mulm(x.c,k,m))%m; return; }
    if(x.op==O_ZEXT){ toMod(x.a[0],k,m,v,c,d+1); return; }
    if(x.op==O_MODLIN){ u128 m2=x.k.back(); if(m2==m||(p2&&!(m2&(m2-1))&&m2>m)){ std::vector<Tm> xa=x.a; std::vector<u128> xk=x.k; u128 xc=x.c; for(size_t i=0;i<xa.size();++i){ toMod(xa[i],mulm(xk[i],k,m),m,v,c,d+1); } c=p2?(c+xc*k)&(m-1):(c+mulm(xc,k,m))%m; return; } }
    if(x.op==O_LIN&&((p2&&m<=((u128)1<<x.w))||linNoWrap(x))){ std::vector<Tm> xa=x.a; std::vector<u128> xk=x.k; unsigned w=x.w; u128 xc=x.c; bool nw=!(p2&&m<=((u128)1<<w)); auto red=[&](u128 q)->u128{ if(!nw) return q&(m-1); s128 sq=sx(q,w); if(sq>=0) return (u128)sq%m; u128 r=((u128)(-sq))%m; return r? m-r:0; };
      // positive interpretation if plain unsigned sum does not wrap
      bool uns=false; { u128 mm=maskw(w); long double fh=(long double)xc; u128 hi=xc; for(size_t i=0;i<xa.size();++i){ fh+=(long double)xk[i]*(long double)N[xa[i]].hi; hi+=xk[i]*N[xa[i]].hi; } uns=w<=100&&fh<(long double)mm*1.0000001L&&hi<=mm; }
      for(size_t i=0;i<xa.size();++i) toMod(xa[i],mulm(uns?(p2?xk[i]&(m-1):xk[i]%m):red(xk[i]),k,m),m,v,c,d+1); u128 rc=uns?(p2?xc&(m-1):xc%m):red(xc); c=p2?(c+rc*k)&(m-1):(c+mulm(rc,k,m))%m; return; }
    if(p2&&x.op==O_AND&&isC(x.a[1])&&((N[x.a[1]].c&(m-1))==m-1)){ toMod(x.a[0],k,m,v,c,d+1); return; }
    if(!p2&&x.op==O_UREM&&isC(x.a[1])&&N[x.a[1]].c<m&&N[x.a[1]].c){ // v % q = v - q*(v/q)
      Tm vv=x.a[0]; u128 q=N[x.a[1]].c; Tm dv=udiv(vv,x.a[1]); toMod(vv,k,m,v,c,d+1); toMod(dv,m-mulm(q,k,m),m,v,c,d+1); return; }
    if(!p2&&x.op==O_MODLIN&&x.k.back()<m){ // same identity for a canonicalised inner remainder of a single value
      if(x.a.size()==1&&x.k[0]==1&&x.c==0){ Tm vv=x.a[0]; u128 q=x.k.back(); unsigned w=N[vv].w; Tm dv=udiv(vv,cst(w,q)); toMod(vv,k,m,v,c,d+1); toMod(dv,m-mulm(q,k,m),m,v,c,d+1); return; } }
    put(t,k); }
  Tm fromMod(unsigned w, const MV&v, u128 c, u128 m){ MV q; for(auto&p:v) if(p.second) q.insert(p); if(q.empty()) return cst(w,c);
    if(q.size()==1&&q.begin()->second==1&&c==0&&N[q.begin()->first].hi<m){ Tm b=q.begin()->first; unsigned bw=N[b].w; return bw==w?b: bw<w? zext(b,w):trunc(b,w); }
    Node x{}; x.op=O_MODLIN; x.kind=KI; x.w=w; x.c=c; for(auto&p:q){ x.a.push_back(p.first); x.k.push_back(p.second);} x.k.push_back(m); x.lo=0; x.hi=m-1;
    if(q.size()==1&&c==0){ u128 a=q.begin()->second,b=m; while(b){ u128 t=a%b; a=b; b=t; } const Node&y=N[q.begin()->first]; if(a==1&&y.lo>=1&&y.hi<m) x.lo=1; }
    return intern(std::move(x)); }
  Tm modLin(Tm a, u128 m){ unsigned w=N[a].w; MV v; u128 c=0; toMod(a,1,m,v,c); return fromMod(w,v,c,m); }
  // ite(P<Q, P-Q+m, P-Q) with P,Q < m   ==  (P-Q) mod m
  bool inModIte=false;
  bool modIte(Bd c, Tm t, Tm f, Tm&out){ if(inModIte) return false; struct G1{ bool&f; G1(bool&x):f(x){f=true;} ~G1(){f=false;} } g1(inModIte); const BN b=B[c]; bool pos; if(b.lo==0&&b.hi==1) pos=true; else if(b.lo==1&&b.hi==0) pos=false; else return false; const Node at=N[varAtom[b.var]]; if(at.op!=O_ULT) return false; if(N[t].kind!=KI) return false; unsigned w=N[t].w; Tm P=at.a[0],Q=at.a[1]; 
    auto tryPQ=[&](Tm P,Tm Q,Tm X,Tm Y)->bool{ Tm d=sub(X,Y); if(!isC(d)) return false; u128 m=N[d].c; if(m<2||m>((u128)1<<63)) return false; if(N[P].hi>=m||N[Q].hi>m) return false; Tm p2=N[P].w==w?P:N[P].w<w?zext(P,w):0, q2=N[Q].w==w?Q:N[Q].w<w?zext(Q,w):0; if(!p2||!q2) return false; if(sub(p2,q2)!=Y) return false; MV v; u128 cc=0; toMod(P,1,m,v,cc); toMod(Q,m-1,m,v,cc); out=fromMod(w,v,cc,m); return true; };
    Tm X=pos?t:f, Y=pos?f:t; if(tryPQ(P,Q,X,Y)) return true; 
    if(isC(Q)&&N[Q].c>0){ // not(P<c) == c-1<P
      Tm c1=cst(N[Q].w,N[Q].c-1); if(tryPQ(c1,P,Y,X)) return true; }
    return false; }
  Tm bnotT(Tm a){ unsigned w=N[a].w; if(w==1) return boolT(bnot(asB(a))); return xr(a,cst(w,maskw(w))); }
  Tm udiv(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return udiv(x,y);})) return r; unsigned w=N[a].w; if(isC(b)){ u128 d=N[b].c; if(d==1) return a; if(isC(a)&&d) return cst(w,N[a].c/d); if(d&&N[a].hi<d) return cst(w,0); if(d && !(d&(d-1))) return lshr(a,cst(w,ctz128(d))); } return mk(O_UDIV,KI,w,{a,b}); }
  Tm urem(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return urem(x,y);})) return r; unsigned w=N[a].w; if(isC(b)){ u128 d=N[b].c; if(d==1) return cst(w,0); if(isC(a)&&d) return cst(w,N[a].c%d); if(d&&N[a].hi<d) return a; if(d && !(d&(d-1))) return and_(a,cst(w,d-1)); if(d&&w<=64) return modLin(a,d); } return mk(O_UREM,KI,w,{a,b}); }
  bool nonneg(Tm a){ return N[a].hi<=(maskw(N[a].w)>>1); }
  Tm sdiv(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return sdiv(x,y);})) return r; unsigned w=N[a].w; if(nonneg(a)&&nonneg(b)) return udiv(a,b); if(isC(a)&&isC(b)&&N[b].c){ s128 y=sx(N[b].c,w), x=sx(N[a].c,w); if(y==-1) return neg(a); return cst(w,(u128)(x/y)); } return mk(O_SDIV,KI,w,{a,b}); }
  Tm srem(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return srem(x,y);})) return r; unsigned w=N[a].w; if(nonneg(a)&&nonneg(b)) return urem(a,b); if(isC(a)&&isC(b)&&N[b].c){ s128 y=sx(N[b].c,w), x=sx(N[a].c,w); if(y==-1) return cst(w,0); return cst(w,(u128)(x%y)); } return mk(O_SREM,KI,w,{a,b}); }
  Tm and_(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return and_(x,y);})) return r; unsigned w=N[a].w; if(w==1) return boolT(band(asB(a),asB(b))); if(a==b) return a; if(isC(a)) std::swap(a,b);
    if(isC(b)){ u128 c=N[b].c; if(isC(a)) return cst(w,N[a].c&c); if(c==0) return b; if(c==maskw(w)) return a;
      if(!((c+1)&c) && N[a].hi<=c) return a; u128 reach=maskw(bl128(N[a].hi)); if((c&reach)==reach) return a;
      if(!((c+1)&c)&&w<=64&&((N[a].op==O_LIN&&!isGI(a))||(N[a].op==O_MODLIN&&!(N[a].k.back()&(N[a].k.back()-1))))) return modLin(a,c+1);
      if(N[a].op!=O_XOR){ GI g=giOf(a); if(g.x!=a||1){ g.m&=c; return giTm(g); } }
      c&=reach; if(!c) return cst(w,0);
      if(N[a].op==O_XOR){ std::vector<Tm> xs=N[a].a; u128 xc=N[a].c; Tm acc=cst(w,xc&c); Tm cc=cst(w,c); for(Tm t:xs) acc=xr(acc,and_(t,cc)); return acc; }
      return mk(O_AND,KI,w,{a,cst(w,c)}); }
    if(a>b) std::swap(a,b); return mk(O_AND,KI,w,{a,b}); }
  Tm or_(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return or_(x,y);})) return r; unsigned w=N[a].w; if(w==1) return boolT(bor(asB(a),asB(b))); if(a==b) return a; if(isC(a)) std::swap(a,b);
    if(isC(b)){ u128 c=N[b].c; if(isC(a)) return cst(w,N[a].c|c); if(c==0) return a; if(c==maskw(w)) return b; }
    if(disjoint(a,b)) return xr(a,b);
    if(a>b) std::swap(a,b); return mk(O_OR,KI,w,{a,b}); }
  u128 mayBits(Tm t){ const Node&x=N[t]; u128 m=maskw(bl128(x.hi)); if(x.tz<128) m&=~maskw(x.tz); else m=0; if(x.op==O_AND&&isC(x.a[1])) m&=N[x.a[1]].c; return m; }
  bool disjoint(Tm a, Tm b){ return !(mayBits(a)&mayBits(b)); }
  // ---- GF(2)-linear items:  shift(x,s) & m
  struct GI { Tm x; int s; u128 m; };
  GI giOf(Tm t){ const Node&x=N[t]; unsigned w=x.w; u128 full=maskw(w);
    if(x.op==O_AND&&isC(x.a[1])){ GI g=giOf(x.a[0]); g.m&=N[x.a[1]].c; return g; }
    if(x.op==O_LSHR&&isC(x.a[1])){ unsigned k=(unsigned)N[x.a[1]].c; return {x.a[0],-(int)k,(full>>k)&mayB(x.a[0],-(int)k)}; }
    if(x.op==O_LIN&&x.a.size()==1&&x.c==0&&!(x.k[0]&(x.k[0]-1))){ unsigned k=ctz128(x.k[0]); return {x.a[0],(int)k,(full<<k)&full&mayB(x.a[0],(int)k)}; }
    return {t,0,mayBits(t)}; }
  u128 mayB(Tm x,int s){ u128 m=mayBits(x); unsigned w=N[x].w; return s>=0? (m<<s)&maskw(w): m>>(-s); }
  Tm giTm(GI g){ unsigned w=N[g.x].w; u128 full=maskw(w); u128 nat=mayB(g.x,g.s); g.m&=nat; if(!g.m) return cst(w,0); Tm y=g.x; if(g.s>0){ Node n{}; n.op=O_LIN; n.kind=KI; n.w=w; n.c=0; n.a={g.x}; n.k={((u128)1<<g.s)&full}; n.lo=0; n.hi=full; range(n); y=intern(std::move(n)); } else if(g.s<0) y=mk(O_LSHR,KI,w,{g.x,cst(w,-g.s)}); 
    if(g.m!=nat) y=mk(O_AND,KI,w,{y,cst(w,g.m)}); return y; }
  bool isGI(Tm t){ const Node&x=N[t]; return (x.op==O_AND&&isC(x.a[1]))||(x.op==O_LSHR&&isC(x.a[1]))||(x.op==O_LIN&&x.a.size()==1&&x.c==0&&!(x.k[0]&(x.k[0]-1))); }
  GI giShift(GI g,int d){ unsigned w=N[g.x].w; u128 full=maskw(w); if(d>=0) g.m=(g.m<<d)&full; else g.m>>=-d; g.s+=d; if(g.s>=(int)w||g.s<=-(int)w){ g.s=0; g.m=0; } return g; }
  Tm xr(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return xr(x,y);})) return r; unsigned w=N[a].w; if(w==1) return boolT(bxor(asB(a),asB(b)));
    std::vector<Tm> v; u128 c=0; auto put=[&](Tm t){ const Node&x=N[t]; if(x.op==O_CONST) c^=x.c; else if(x.op==O_XOR){ c^=x.c; for(Tm u:x.a) v.push_back(u);} else v.push_back(t); };
    put(a); put(b); std::sort(v.begin(),v.end()); std::vector<Tm> o; for(Tm t:v){ if(!o.empty()&&o.back()==t) o.pop_back(); else o.push_back(t); }
    if(o.size()>1){ if(o.size()>6000) throw Unsupported("xor too large"); std::map<std::pair<Tm,int>,u128> gm; bool dup=false; for(Tm t:o){ GI g=giOf(t); auto k=std::make_pair(g.x,g.s); auto it=gm.find(k); if(it==gm.end()) gm[k]=g.m; else { it->second^=g.m; dup=true; } }
      if(dup){ o.clear(); for(auto&p:gm) if(p.second){ Tm y=giTm({p.first.first,p.first.second,p.second}); if(N[y].op==O_CONST) c^=N[y].c; else o.push_back(y);} std::sort(o.begin(),o.end()); } }
    if(o.empty()) return cst(w,c); if(o.size()==1&&!c) return o[0];
    // bitwise complement as arithmetic for linear forms
    if(o.size()==1&&c==maskw(w)&&N[o[0]].op==O_LIN){ return sub(cst(w,maskw(w)),o[0]); }
    Node x{}; x.op=O_XOR; x.kind=KI; x.w=w; x.c=c; x.a=o; x.lo=0; x.hi=maskw(w); range(x); return intern(std::move(x)); }
  Tm shl(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return shl(x,y);})) return r; unsigned w=N[a].w; if(isC(b)){ u128 k=N[b].c; if(k>=w) return cst(w,0); if(k==0) return a; 
      if(isGI(a)&&N[a].op!=O_LIN){ return giTm(giShift(giOf(a),(int)k)); }
      if(N[a].op==O_XOR||N[a].op==O_AND){ // push through bitwise
        if(N[a].op==O_XOR){ std::vector<Tm> xs=N[a].a; u128 xc=N[a].c; Tm acc=cst(w,xc<<(unsigned)k); for(Tm t:xs) acc=xr(acc,shl(t,b)); return acc; } }
      return mulc(a,(u128)1<<(unsigned)k); } if(isC(a)&&N[a].c==0) return a; return mk(O_SHL,KI,w,{a,b}); }
  Tm lshr(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return lshr(x,y);})) return r; unsigned w=N[a].w; if(isC(b)){ u128 k=N[b].c; if(k>=w) return cst(w,0); if(k==0) return a; if(isC(a)) return cst(w,N[a].c>>(unsigned)k); if(N[a].hi<((u128)1<<(unsigned)k)) return cst(w,0);
      if(isGI(a)) return giTm(giShift(giOf(a),-(int)k));
      if(N[a].op==O_XOR){ std::vector<Tm> xs=N[a].a; u128 xc=N[a].c; Tm acc=cst(w,xc>>(unsigned)k); for(Tm t:xs) acc=xr(acc,lshr(t,b)); return acc; }
      if(N[a].op==O_LIN&&N[a].c==0&&N[a].a.size()<=4){ // sum of parts with disjoint bits
        const Node x=N[a]; bool ok=true; u128 all=0; for(size_t i=0;i<x.a.size()&&ok;++i){ u128 m=mayBits(x.a[i]); if(x.k[i]!=1||(all&m)) ok=false; all|=m; } if(ok&&x.a.size()>1){ Tm acc=cst(w,0); for(Tm t:x.a) acc=xr(acc,lshr(t,b)); return acc; } }
      if(N[a].op==O_LIN){ // exact if no wrap and everything divisible / separable
        const Node x=N[a]; bool nowrap = w<=100 && (x.hi!=maskw(w)||x.lo!=0); // computed interval means no wrap
        if(nowrap){ LV v; u128 c=0; Tm low=0; bool ok=true; u128 lowhi=0; u128 K=(u128)1<<(unsigned)k; 
          for(size_t i=0;i<x.a.size()&&ok;++i){ if(sx(x.k[i],w)<0) ok=false; else if(!(x.k[i]&(K-1))) v.push_back({x.a[i],x.k[i]>>(unsigned)k}); else if(x.k[i]==1&&N[x.a[i]].tz>=k&&0) {} else { lowhi+=x.k[i]*N[x.a[i]].hi; (void)low; } }
          if(ok && (x.c&(K-1))+lowhi<K){ c=x.c>>(unsigned)k; return fromLin(w,v,c);} } } }
    return mk(O_LSHR,KI,w,{a,b}); }
  Tm ashr(Tm a, Tm b){ Tm r; if(tree2(a,b,r,[&](Tm x,Tm y){return ashr(x,y);})) return r; unsigned w=N[a].w; if(nonneg(a)) return lshr(a,b); if(isC(a)&&isC(b)&&N[b].c<w) return cst(w,(u128)(sx(N[a].c,w)>>(unsigned)N[b].c)); if(isC(b)&&N[b].c==0) return a; return mk(O_ASHR,KI,w,{a,b}); }
  Tm zext(Tm a, unsigned w){ const Node&x=N[a]; if(x.w==w) return a; if(x.op==O_CONST) return cst(w,x.c); if(x.w==1){ if(x.op==O_BOOL){ return ite(x.aux,cst(w,1),cst(w,0)); } }
    if(isTree(a)) return mapTree(a,[&](Tm t){return zext(t,w);});
    if(x.op==O_ZEXT) return zext(x.a[0],w);
    if(x.op==O_MODLIN){ Node y=x; y.w=w; return intern(std::move(y)); }
    if(x.op==O_TRUNC&&N[x.a[0]].w==w) { Tm y=x.a[0]; unsigned xw=x.w; return and_(y,cst(w,maskw(xw))); }
    if(x.op==O_LIN && x.w<=64 && !(x.lo==0&&x.hi==maskw(x.w))){ bool ok=true; for(u128 k:x.k) if(sx(k,x.w)<0) ok=false; if(ok){ // verify no wrap in unsigned sense
        long double s=(long double)x.c; for(size_t i=0;i<x.a.size();++i) s+=(long double)x.k[i]*(long double)N[x.a[i]].hi; if(s<=(long double)maskw(x.w)){ LV v; std::vector<Tm> xa=x.a; std::vector<u128> xk=x.k; u128 c=x.c; for(size_t i=0;i<xa.size();++i) { Tm z=zext(xa[i],w); LV vv; u128 cc=0; toLin(z,xk[i],vv,cc); for(auto&p:vv) v.push_back(p); c+=cc; } return fromLin(w,v,c);} } }
    if(x.op==O_XOR){ std::vector<Tm> xs=x.a; Tm acc=cst(w,x.c); for(Tm t:xs) acc=xr(acc,zext(t,w)); return acc; }
    if(isGI(a)&&(x.op!=O_LIN||x.w<=64)){ GI g=giOf(a); Tm z=zext(g.x,w); if(g.s>=0){ return and_(shl(z,cst(w,g.s)),cst(w,g.m)); } return and_(lshr(z,cst(w,-g.s)),cst(w,g.m)); }
    return mk(O_ZEXT,KI,w,{a}); }
  Tm sext(Tm a, unsigned w){ const Node&x=N[a]; if(x.w==w) return a; if(x.op==O_CONST) return cst(w,(u128)sx(x.c,x.w)); if(x.w==1) return ite(asB(a),cst(w,maskw(w)),cst(w,0)); if(isTree(a)) return mapTree(a,[&](Tm t){return sext(t,w);}); if(nonneg(a)) return zext(a,w); if(x.op==O_SEXT) return sext(x.a[0],w); if(x.op==O_TRUNC){ Tm y=x.a[0]; unsigned yw=N[y].w,xw=x.w; __int128 l,h; if(yw<=64&&srange(y,l,h)&&l>=-((__int128)1<<(xw-1))&&h<((__int128)1<<(xw-1))) return yw==w?y:yw>w?trunc(y,w):sext(y,w); } return mk(O_SEXT,KI,w,{a}); }
  Tm trunc(Tm a, unsigned w){ const Node&x=N[a]; if(x.w==w) return a; if(x.op==O_CONST) return cst(w,x.c); if(isTree(a)) return mapTree(a,[&](Tm t){return trunc(t,w);});
    if(w==1){ Tm z=and_(a,cst(x.w,1)); return boolT(bnot(eq(z,cst(N[z].w,0)))); }
    if(x.op==O_ZEXT||x.op==O_SEXT){ Tm y=x.a[0]; unsigned yw=N[y].w; if(yw==w) return y; if(yw>w) return trunc(y,w); return x.op==O_ZEXT? zext(y,w):sext(y,w); }
    if(x.op==O_TRUNC) return trunc(x.a[0],w);
    if(x.op==O_MODLIN){ if(x.hi<=maskw(w)){ Node y=x; y.w=w; return intern(std::move(y)); } u128 m=x.k.back(); if(!(m&(m-1))){ LV v; std::vector<Tm> xa=x.a; std::vector<u128> xk=x.k; u128 cc=x.c&maskw(w); for(size_t i=0;i<xa.size();++i){ unsigned bw=N[xa[i]].w; Tm t=bw==w?xa[i]:bw<w?zext(xa[i],w):trunc(xa[i],w); toLin(t,xk[i]&maskw(w),v,cc);} return fromLin(w,v,cc); } }
    if(x.op==O_LIN){ std::vector<Tm> xa=x.a; std::vector<u128> xk=x.k; u128 c=x.c; LV v; u128 cc=c&maskw(w); for(size_t i=0;i<xa.size();++i){ if(!(xk[i]&maskw(w))) continue; Tm t=trunc(xa[i],w); toLin(t,xk[i]&maskw(w),v,cc);} return fromLin(w,v,cc); }
    if(x.op==O_MUL){ Tm p=x.a[0],q=x.a[1]; return mul(trunc(p,w),trunc(q,w)); }
    if(x.op==O_XOR){ std::vector<Tm> xs=x.a; Tm acc=cst(w,x.c); for(Tm t:xs) acc=xr(acc,trunc(t,w)); return acc; }
    if(x.op==O_AND){ Tm p=x.a[0],q=x.a[1]; return and_(trunc(p,w),trunc(q,w)); }
    if(x.op==O_OR){ Tm p=x.a[0],q=x.a[1]; return or_(trunc(p,w),trunc(q,w)); }
    if(x.op==O_ITE){ Bd c=x.aux; Tm p=x.a[0],q=x.a[1]; return ite(c,trunc(p,w),trunc(q,w)); }
    if(isGI(a)){ GI g=giOf(a); if(g.s>=0||!(mayBits(g.x)&~maskw(w))){ Tm z=trunc(g.x,w); unsigned k=g.s>=0?g.s:-g.s; return and_(k>=w?cst(w,0): g.s>=0?shl(z,cst(w,k)):lshr(z,cst(w,k)),cst(w,g.m)); } }
    return mk(O_TRUNC,KI,w,{a}); }
  Tm extract(Tm a, unsigned lo, unsigned w){ a=toInt(a); unsigned W=N[a].w; return trunc(lshr(a,cst(W,lo)),w); }
  Tm concat(Tm lo, Tm hi){ lo=toInt(lo); hi=toInt(hi); unsigned w=N[lo].w+N[hi].w; return add(zext(lo,w), shl(zext(hi,w),cst(w,N[lo].w))); }
  Tm i1op(uint8_t op, Tm a, u128 v){ if(isC(a)) return cst(N[a].w,v); return mk(op,KI,N[a].w,{a}); }
  // comparisons -> BDD
  Bd eq(Tm a, Tm b){ if(a==b) return 1; const Node&x=N[a],&y=N[b];
    if(x.kind==KP||y.kind==KP) return peq(a,b);
    if(x.w==1) return bnot(bxor(asB(a),asB(b)));
    if(x.op==O_CONST&&y.op==O_CONST) return x.c==y.c;
    if(x.hi<y.lo||y.hi<x.lo) return 0;
    if(x.op==O_CONST) return eq(b,a);
    if(y.op==O_CONST){
      if(x.op==O_ITE){ return mapTreeB(a,[&](Tm t){return N[t].op==O_ITE?0:eq(t,b);}); }
      if(x.op==O_ZEXT||x.op==O_SEXT){ Tm z=x.a[0]; u128 c=y.c; unsigned zw=N[z].w; u128 back= x.op==O_ZEXT? (c&maskw(zw)) : ((u128)sx(c,zw)&maskw(x.w)); if(back!=c) return 0; return eq(z,cst(zw,c)); }
      if(x.op==O_LIN&&x.a.size()==1&&(x.k[0]&1)){ // invertible coefficient
        u128 k=x.k[0], inv=1; for(int i=0;i<7;++i) inv*=2-k*inv; u128 c=((y.c-x.c)*inv)&maskw(x.w); Tm z=x.a[0]; return eq(z,cst(x.w,c)); }
      if(x.op==O_XOR&&x.c){ Tm z=xr(a,cst(x.w,x.c)); u128 c=y.c^x.c; unsigned w=x.w; return eq(z,cst(w,c)); } }
    else { unsigned w=x.w; Tm d=sub(a,b); if(isC(d)) return N[d].c==0; 
      if(x.op==O_ZEXT&&y.op==O_ZEXT&&N[x.a[0]].w==N[y.a[0]].w){ return eq(x.a[0],y.a[0]); }
      if(x.op==O_ITE&&isTree(a)) return mapTreeB(a,[&](Tm t){return eq(t,b);});
      if(y.op==O_ITE&&isTree(b)) return mapTreeB(b,[&](Tm t){return eq(a,t);});
      (void)w;
      { const Node L=N[d]; if(L.op==O_LIN&&splitOn&&L.a.size()<=5&&!inSplit){ int ites=0; for(Tm t:L.a) ites+=N[t].op==O_ITE; if(ites>=2){ int budget=160; bool ok=true; inSplit=true; Bd r=splitEq(L.w,L.a,L.k,L.c,1,budget,ok); inSplit=false; if(ok) return r; } } } }
    if(a>b) std::swap(a,b); return atom(mk(O_EQ,KI,1,{a,b})); }
  // sum of selections equals zero: split on the conditions of the selections together, dropping combinations that cannot occur
  bool inSplit=false, splitOn=false;
  Bd splitEq(unsigned w, std::vector<Tm> a, std::vector<u128> k, u128 c, Bd ctx, int&budget, bool&ok){ if(ctx==0||!ok) return 0; if(--budget<0){ ok=false; return 0; }
    for(size_t i=0;i<a.size();++i){ const Node x=N[a[i]]; if(x.op!=O_ITE) continue; Bd cc=x.aux, t=band(ctx,cc), f=band(ctx,bnot(cc)); std::vector<Tm> a1=a,a0=a; a1[i]=x.a[0]; a0[i]=x.a[1]; if(f==0) return splitEq(w,a1,k,c,ctx,budget,ok); if(t==0) return splitEq(w,a0,k,c,ctx,budget,ok); Bd p=splitEq(w,a1,k,c,t,budget,ok), q=splitEq(w,a0,k,c,f,budget,ok); return ok?bite(cc,p,q):0; }
    LV v; u128 cc=c; for(size_t i=0;i<a.size();++i) toLin(a[i],k[i],v,cc); Tm d=fromLin(w,v,cc); const Node D=N[d]; if(D.op==O_LIN) for(Tm t:D.a) if(N[t].op==O_ITE) return splitEq(w,D.a,D.k,D.c,ctx,budget,ok); if(D.op==O_ITE) return splitEq(w,{d},{1},0,ctx,budget,ok); return eq(d,cst(w,0)); }
  Bd ult(Tm a, Tm b){ if(a==b) return 0; const Node&x=N[a],&y=N[b]; 
    if(x.kind==KP||y.kind==KP) return plt(a,b);
    if(x.w==1) return band(bnot(asB(a)),asB(b));
    if(x.hi<y.lo) return 1; if(x.lo>=y.hi) return 0;
    if(y.op==O_CONST&&x.op==O_ITE) return mapTreeB(a,[&](Tm t){return ult(t,b);});
    if(x.op==O_CONST&&y.op==O_ITE) return mapTreeB(b,[&](Tm t){return ult(a,t);});
    if(y.op==O_CONST&&x.op==O_ZEXT){ Tm z=x.a[0]; u128 c=y.c; if(c>maskw(N[z].w)) return 1; return ult(z,cst(N[z].w,c)); }
    if(x.op==O_CONST&&y.op==O_ZEXT){ Tm z=y.a[0]; u128 c=x.c; if(c>=maskw(N[z].w)) return 0; return ult(cst(N[z].w,c),z); }
    if(x.op==O_ZEXT&&y.op==O_ZEXT&&N[x.a[0]].w==N[y.a[0]].w) return ult(x.a[0],y.a[0]);
    if(y.op==O_CONST&&x.op==O_SEXT){ unsigned v=N[x.a[0]].w; u128 hb=(u128)1<<(v-1); if(y.c>=hb&&y.c<=maskw(x.w)-hb+1) return bnot(slt(x.a[0],cst(v,0))); }
    if(y.op==O_CONST&&y.c==1) return eq(a,cst(x.w,0));
    if(x.op==O_CONST&&x.c==0) return bnot(eq(b,cst(y.w,0)));
    if(x.op==O_CONST&&x.c<maskw(x.w)) return bnot(ult(b,cst(x.w,x.c+1)));   // c < b  ==  !(b < c+1)
    return atom(mk(O_ULT,KI,1,{a,b})); }
  bool srange(Tm t,__int128&l,__int128&h,int d=0){ const Node&x=N[t]; if(x.w>64||d>12) return false; if(x.hi<=(maskw(x.w)>>1)){ l=(__int128)x.lo; h=(__int128)x.hi; return true; }
    switch(x.op){ case O_CONST: l=h=sx(x.c,x.w); return true; case O_SEXT: if(srange(x.a[0],l,h,d+1)) return true; break;
      case O_ITE: { __int128 a,b,c,e; Tm p=x.a[0],q=x.a[1]; if(srange(p,a,b,d+1)&&srange(q,c,e,d+1)){ l=std::min(a,c); h=std::max(b,e); return true; } break; }
      case O_LIN: { l=h=sx(x.c,x.w); bool ok=x.a.size()<40; for(size_t i=0;i<x.a.size()&&ok;++i){ __int128 a,b,k=sx(x.k[i],x.w); if(!srange(x.a[i],a,b,d+1)||k>((__int128)1<<40)||k<-((__int128)1<<40)){ if(k!=1&&k!=-1) { ok=false; break; } if(!srange(x.a[i],a,b,d+1)){ ok=false; break; } } a*=k; b*=k; if(a>b) std::swap(a,b); l+=a; h+=b; } __int128 lim=(__int128)1<<(x.w-1); if(ok&&l>=-lim&&h<lim) return true; break; }
      default: break; }
    l=-((__int128)1<<(x.w-1)); h=((__int128)1<<(x.w-1))-1; return true; }
  Bd slt(Tm a, Tm b){ if(a==b) return 0; const Node&x=N[a],&y=N[b]; unsigned w=x.w; if(w<=64&&w>1){ __int128 l1,h1,l2,h2; if(srange(a,l1,h1)&&srange(b,l2,h2)){ if(h1<l2) return 1; if(l1>=h2) return 0; } } if(w==1) return band(asB(a),bnot(asB(b)));
    if(nonneg(a)&&nonneg(b)) return ult(a,b); u128 sb=(u128)1<<(w-1); if(x.lo>=sb&&y.lo>=sb) return ult(a,b); if(x.lo>=sb&&nonneg(b)) return 1; if(nonneg(a)&&y.lo>=sb) return 0;
    if(x.op==O_CONST&&y.op==O_CONST) return sx(x.c,w)<sx(y.c,w);
    if(y.op==O_CONST&&x.op==O_ITE) return mapTreeB(a,[&](Tm t){return slt(t,b);});
    if(x.op==O_CONST&&y.op==O_ITE) return mapTreeB(b,[&](Tm t){return slt(a,t);});
    if(x.op==O_SEXT&&y.op==O_SEXT&&N[x.a[0]].w==N[y.a[0]].w) return slt(x.a[0],y.a[0]);
    if(x.op==O_SEXT&&y.op==O_CONST){ unsigned v=N[x.a[0]].w; __int128 c=sx(y.c,w),hb=(__int128)1<<(v-1); if(c>=-hb&&c<hb) return slt(x.a[0],cst(v,(u128)c&maskw(v))); }
    if(x.op==O_CONST&&x.c!=(maskw(w)>>1)) return bnot(slt(b,cst(w,x.c+1)));
    return atom(mk(O_SLT,KI,1,{a,b})); }
  Bd fcmp(uint8_t op, Tm a, Tm b){ const Node&x=N[a],&y=N[b];
    if(x.op==O_CONST&&y.op==O_CONST){ long double p=bitsToLD(x.c,x.kind),q=bitsToLD(y.c,y.kind); switch(op){case O_FEQ:return p==q;case O_FLT:return p<q;case O_FLE:return p<=q;default:return p!=p||q!=q;} }
    if(op==O_FUNO){ if(a==b&&0) return 0; bool an=neverNaN(a), bn=neverNaN(b); if(an&&bn) return 0; if(an){ return atom(mk(O_FUNO,KI,1,{b,b})); } if(bn) return atom(mk(O_FUNO,KI,1,{a,a})); }
    if(a==b&&neverNaN(a)) return op==O_FEQ||op==O_FLE;
    if(op==O_FLT&&((x.op==O_CONST&&bitsToLD(x.c,x.kind)==INFINITY)||(y.op==O_CONST&&bitsToLD(y.c,y.kind)==-INFINITY))) return 0;
    if(op==O_FLE&&((x.op==O_CONST&&bitsToLD(x.c,x.kind)==-INFINITY)||(y.op==O_CONST&&bitsToLD(y.c,y.kind)==INFINITY))) return bnot(fcmp(O_FUNO,a,b));
    if(x.op==O_ITE&&y.op==O_CONST) return mapTreeB(a,[&](Tm t){return N[t].op==O_ITE?0:fcmp(op,t,b);});
    if(y.op==O_ITE&&x.op==O_CONST) return mapTreeB(b,[&](Tm t){return N[t].op==O_ITE?0:fcmp(op,a,t);});
    if(x.op==O_ITE&&y.op==O_ITE&&x.aux==y.aux){ Bd c=x.aux; Tm p0=x.a[0],p1=x.a[1],q0=y.a[0],q1=y.a[1]; return bite(c,fcmp(op,p0,q0),fcmp(op,p1,q1)); }
    if(op!=O_FUNO&&x.kind==y.kind){ Tm pa=0,pb=0,c1=0; for(int i=0;i<2;++i) for(int j=0;j<2;++j) if(x.op==O_FMUL&&y.op==O_FMUL&&x.a[i]==y.a[j]&&isC(x.a[i])){ c1=x.a[i]; pa=x.a[1-i]; pb=y.a[1-j]; } int e; if(c1&&isPow2(bitsToLD(N[c1].c,x.kind),e)&&bitsToLD(N[c1].c,x.kind)>0&&((fgrid(pa)>-50&&fgrid(pb)>-50&&e>-100&&e<100)||(e>-20&&e<20&&normalMag(pa)&&normalMag(pb)))&&neverNaN(pa)&&neverNaN(pb)) return fcmp(op,pa,pb);
      unsigned mant=x.kind==KF?24:x.kind==KD?53:64; if(x.op==O_UI2F&&y.op==O_UI2F&&N[x.a[0]].w==N[y.a[0]].w&&bl128(N[x.a[0]].hi)<=mant&&bl128(N[y.a[0]].hi)<=mant){ Tm p=x.a[0],q=y.a[0]; return op==O_FEQ?eq(p,q):op==O_FLT?ult(p,q):bnot(ult(q,p)); } }
    if(op==O_FLE&&x.kind==y.kind&&neverNaN(a)&&neverNaN(b)) return bnot(fcmp(O_FLT,b,a));
    if(op!=O_FUNO&&x.kind==y.kind&&(isC(a)!=isC(b))){ bool cl=isC(a); Tm u=cl?b:a; Tm cc=cl?a:b; Node z=N[u]; long double K=bitsToLD(N[cc].c,x.kind); // exact (on-grid) additive and power-of-two scalings are moved to the constant side
      if((z.op==O_FADD||z.op==O_FSUB)&&std::isfinite(K)&&neverNaN(u)&&fexactAt(z,K,op==O_FLT&&(cl?K<0:K>0))){ for(int s=0;s<2;++s) if(isC(z.a[s])&&!isC(z.a[1-s])){ if(z.op==O_FSUB&&s==0) break; long double C=bitsToLD(N[z.a[s]].c,z.kind), K2=z.op==O_FADD?K-C:K+C; if((z.op==O_FADD?K2+C:K2-C)==K&&bitsToLD(ldToBits(K2,x.kind),x.kind)==K2&&fabsl(K)<1e6L&&fabsl(C)<1e6L){ Tm kc=fcst(x.kind,ldToBits(K2,x.kind)); return cl?fcmp(op,kc,z.a[1-s]):fcmp(op,z.a[1-s],kc); } } } }
    if(op==O_FEQ){ long double l1,h1,l2,h2; bool r1=frange(a,l1,h1),r2=frange(b,l2,h2); if(r1&&r2&&(h1<l2||h2<l1)) return 0; if(r1&&y.op==O_CONST&&!std::isfinite(bitsToLD(y.c,y.kind))) return 0; if(r2&&x.op==O_CONST&&!std::isfinite(bitsToLD(x.c,x.kind))) return 0; }
    if(op==O_FEQ||op==O_FUNO){ if(a>b) std::swap(a,b); }
    else { long double l1,h1,l2,h2; if(frange(a,l1,h1)&&frange(b,l2,h2)){ if(op==O_FLT){ if(h1<l2) return 1; if(l1>=h2) return 0; } else { if(h1<=l2) return 1; if(l1>h2) return 0; } } }
    return atom(mk(op,KI,1,{a,b})); }
  // cheap FP range (closed interval, no NaN) -- only through monotone exact-rounding-safe operations
  std::unordered_map<Tm,std::pair<long double,long double>> frm; 
  bool frange(Tm t, long double&l, long double&h, int d=0){ const Node&x=N[t]; auto it=frm.find(t); if(it!=frm.end()){ l=it->second.first; h=it->second.second; return l<=h; }
    bool ok=false; if(d>40) return false;
    switch(x.op){ case O_CONST: { long double v=bitsToLD(x.c,x.kind); if(v==v){ l=h=v; ok=true; } break; }
      case O_SYM: { const SymInfo&s=syms[x.aux]; if(!s.undef&&s.flo<=s.fhi){ l=s.flo; h=s.fhi; ok=true; } break; }
      case O_UI2F: { const Node&y=N[x.a[0]]; l=bitsToLD(ldToBits((long double)y.lo,x.kind),x.kind); h=bitsToLD(ldToBits((long double)y.hi,x.kind),x.kind); ok=true; break; }
      case O_SI2F: { const Node&y=N[x.a[0]]; if(y.hi<=(maskw(y.w)>>1)){ l=bitsToLD(ldToBits((long double)y.lo,x.kind),x.kind); h=bitsToLD(ldToBits((long double)y.hi,x.kind),x.kind); ok=true; } break; }
      case O_FEXT: ok=frange(x.a[0],l,h,d+1); break;
      case O_FTRUNC: if(frange(x.a[0],l,h,d+1)){ l=bitsToLD(ldToBits(l,x.kind),x.kind); h=bitsToLD(ldToBits(h,x.kind),x.kind); ok=true; } break;
      case O_ITE: { long double a,b,c,e; Tm p=x.a[0],q=x.a[1]; Bd gd=x.aux; if(frange(p,a,b,d+1)&&frange(q,c,e,d+1)){
          if(B[gd].lo<=1&&B[gd].hi<=1){ bool pos=B[gd].hi==1; Node at=N[varAtom[B[gd].var]]; if(at.op==O_FLT||at.op==O_FLE) for(int side=0;side<2;++side) if(isC(at.a[side])){ long double K=bitsToLD(N[at.a[side]].c,at.kind==KI?N[at.a[side]].kind:N[at.a[side]].kind); Tm y=at.a[1-side]; bool strict=at.op==O_FLT;
            auto ref=[&](Tm v,bool holds,long double&vl,long double&vh){ Tm base=v; bool viaOp=false; if(v!=y){ const Node&z=N[v]; if((z.op==O_FADD&&((z.a[0]==y&&isC(z.a[1]))||(z.a[1]==y&&isC(z.a[0]))))||(z.op==O_FSUB&&z.a[0]==y&&isC(z.a[1]))){ base=y; viaOp=true; } else return; }
              long double yl,yh; if(!frange(y,yl,yh,d+1)) return; int g=fgrid(y,d+1); long double stp=(g>-1000&&g<1000)?ldexpl(1,g):0; bool up=(side==1); /* y REL K : side==1 */ 
              // y<K / y<=K / K<y / K<=y and negations
              bool less= up?holds:!holds; bool str= holds?strict:!strict; if(less){ long double nb=str?K-stp:K; if(g>-1000&&g<1000){ long double q2=nb/ldexpl(1,g); nb=floorl(q2)*ldexpl(1,g); } if(nb<yh) yh=nb; } else { long double nb=str?K+stp:K; if(nb>yl) yl=nb; }
              if(yl>yh) return; if(!viaOp){ vl=std::max(vl,yl); vh=std::min(vh,yh); } else { Node z=N[v]; auto ev=[&](long double u){ uint64_t dummy=0; (void)dummy; Tm c0=z.a[0]==base?z.a[1]:z.a[0]; return bitsToLD(fop(z.op,z.kind,ldToBits(u,z.kind),N[c0].c),z.kind); }; long double e1=ev(yl),e2=ev(yh); vl=std::max(vl,std::min(e1,e2)); vh=std::min(vh,std::max(e1,e2)); } };
            ref(p,pos,a,b); ref(q,!pos,c,e); } }
          if(a<=b&&c<=e){ l=std::min(a,c); h=std::max(b,e); ok=true; } } break; }
      case O_FMUL: case O_FADD: case O_FSUB: case O_FDIV: { long double a,b,c,e; Tm p=x.a[0],q=x.a[1]; int op=x.op, kind=x.kind; if(frange(p,a,b,d+1)&&frange(q,c,e,d+1)&&std::isfinite(a)&&std::isfinite(b)&&std::isfinite(c)&&std::isfinite(e)){ 
          auto ev=[&](long double u,long double v){ return bitsToLD(fop(op,kind,ldToBits(u,kind),ldToBits(v,kind)),kind); };
          if(op==O_FADD){ l=ev(a,c); h=ev(b,e); ok=true; } else if(op==O_FSUB){ l=ev(a,e); h=ev(b,c); ok=true; }
          else if(op==O_FMUL||(op==O_FDIV&&(c>0||e<0))){ long double v[4]={ev(a,c),ev(a,e),ev(b,c),ev(b,e)}; l=*std::min_element(v,v+4); h=*std::max_element(v,v+4); ok=true; }
          if(ok&&!(std::isfinite(l)&&std::isfinite(h))) ok=false; } break; }
      case O_FNEG: if(frange(x.a[0],l,h,d+1)){ std::swap(l,h); l=-l; h=-h; ok=true; } break;
      case O_CALLF: { const std::string nm=fnames[x.aux]; Tm p=x.a[0]; int kd=x.kind; auto rd=[&](long double v){ return bitsToLD(ldToBits(v,kd),kd); }; long double ep= kd==KF?1e-6L:1e-14L; long double a,b;
        // library functions: value at the ends widened by more than any libm error; the sign at exact points is kept
        if(nm=="sin"||nm=="cos"){ if(N[p].kind==kd&&frange(p,a,b,d+1)){ l=-1; h=1; ok=true; } }
        else if(N[p].kind!=kd||!frange(p,a,b,d+1)) break;
        else if(nm=="fabs"){ long double m=std::max(fabsl(a),fabsl(b)); l=(a<=0&&b>=0)?0:std::min(fabsl(a),fabsl(b)); h=m; ok=true; }
        else if(nm=="sqrt"){ if(a>=0){ l=rd(sqrtl(a)); h=rd(sqrtl(b)); ok=true; } }
        else if(nm=="floor"||nm=="ceil"||nm=="trunc"||nm=="round"){ auto f=[&](long double v){ return nm=="floor"?floorl(v):nm=="ceil"?ceill(v):nm=="trunc"?truncl(v):roundl(v); }; l=f(a); h=f(b); ok=true; }
        else if(nm=="log"){ if(a>0){ l=logl(a); h=logl(b); l= l==0?0: rd(l-fabsl(l)*ep); h= b<=1? (h==0?0: std::min(0.0L,rd(h+fabsl(h)*ep))): rd(h+fabsl(h)*ep); if(a>=1&&l<0) l=0; ok=true; } }
        else if(nm=="exp"){ if(b<700&&!(kd==KF&&b>80)){ l=std::max(0.0L,rd(expl(a)*(1-ep))); h=rd(expl(b)*(1+ep)); if(a>=0&&l<1) l=1; if(b<=0&&h>1) h=1; ok=true; } }
        else if(nm=="pow"&&x.a.size()==2){ long double c,e; Tm q=x.a[1]; if(N[q].kind==kd&&frange(q,c,e,d+1)&&a>=0){ if(b<=1&&c>=0){ l=0; h=1; ok=true; } else if(a>0||c>=0){ long double hi=0; for(long double u: {a,b}) for(long double w2: {c,e}) hi=std::max(hi,powl(u,w2)); if(std::isfinite(hi)&&hi<(kd==KF?1e30L:1e290L)){ l=0; h=rd(hi*(1+ep)); ok=true; } } } }
        break; }
      default: break; }
    if(ok&&l<=h) frm[t]={l,h}; else { frm[t]={1,0}; ok=false; } return ok; }
  // grid: t is an exact integer multiple of 2^e (returns e), or -100000 if unknown
  std::unordered_map<Tm,int> grm;
  static bool isPow2(long double v,int&e){ if(!(v!=0)||!std::isfinite(v)) return false; int k; long double m=frexpl(fabsl(v),&k); e=k-1; return m==0.5L; }
  int fgrid(Tm t,int d=0){ auto it=grm.find(t); if(it!=grm.end()) return it->second; if(d>60) return -100000; const Node x=N[t]; int r=-100000, mant= x.kind==KF?24:x.kind==KD?53:64; long double l,h;
    switch(x.op){
      case O_CONST: { long double v=bitsToLD(x.c,x.kind); if(v==0){ r=10000; break; } if(!std::isfinite(v)) break; int k; long double m=frexpl(v,&k); int n=0; while(m!=truncl(m)&&n<70){ m*=2; ++n; } r=k-n; break; }
      case O_UI2F: { const Node&y=N[x.a[0]]; if(bl128(y.hi)<=(unsigned)mant) r=(int)std::min<unsigned>(y.tz,64); else r=(int)bl128(y.hi)-mant; break; }
      case O_SI2F: { const Node&y=N[x.a[0]]; if(nonneg(x.a[0])&&bl128(y.hi)<=(unsigned)mant) r=0; else if((int)y.w<=mant) r=0; break; }
      case O_FNEG: case O_FEXT: r=fgrid(x.a[0],d+1); break;
      case O_ITE: { int a=fgrid(x.a[0],d+1),b=fgrid(x.a[1],d+1); r=std::min(a,b); break; }
      case O_FMUL: for(int s=0;s<2;++s){ int e; if(isC(x.a[s])&&isPow2(bitsToLD(N[x.a[s]].c,x.kind),e)){ int g=fgrid(x.a[1-s],d+1); if(g>-100000&&g+e>-120&&frange(t,l,h)) r=g==10000?g:g+e; } } break;
      case O_FADD: case O_FSUB: { int a=fgrid(x.a[0],d+1),b=fgrid(x.a[1],d+1); int g=std::min(a,b); if(g>-120) r=g; break; } // rounding keeps multiples of 2^g
      default: break; }
    grm[t]=r; return r; }
  // comparing RN(x op y) with K equals comparing x op y with K: every multiple of the common grid below 2^(mant+g) is representable and rounding is monotone
  bool fexactAt(const Node&z,long double K,bool edge){ int mant=z.kind==KF?24:z.kind==KD?53:64; int g=std::min(fgrid(z.a[0]),fgrid(z.a[1])); return g>-100&&g<1000&&(fabsl(K)<ldexpl(1,mant+g)||(edge&&fabsl(K)==ldexpl(1,mant+g))); }
  bool normalMag(Tm t){ long double l,h; if(!frange(t,l,h)) return false; return (l>1e-25L||h<-1e-25L)&&fabsl(l)<1e25L&&fabsl(h)<1e25L; }
  bool neverNaN(Tm t){ long double l,h; return frange(t,l,h); }
  // pointers: O_PTR aux=object id, a[0]=offset (i64)
  Tm ptr(uint32_t obj, Tm off){ Node x{}; x.op=O_PTR; x.kind=KP; x.w=64; x.aux=obj; x.a={off}; x.hi=maskw(64); return intern(std::move(x)); }
  Tm nullp(){ return ptr(0,cst(64,0)); }
  Tm padd(Tm p, Tm off){ if(isC(off)&&N[off].c==0) return p; const Node&x=N[p]; if(x.op==O_PTR){ uint32_t o=x.aux; Tm q=x.a[0]; if(isTree(off)) return mapTree(off,[&](Tm t){return padd(p,t);}); return ptr(o,add(q,off)); } if(x.op==O_ITE) return mapTree(p,[&](Tm t){return padd(t,off);}); throw Unsupported("padd on opaque pointer"); }
  Tm p2i(Tm p){ const Node&x=N[p]; if(x.op==O_PTR&&x.aux==0) return x.a[0]; if(x.op==O_I2P) return x.a[0]; if(x.op==O_ITE) return mapTree(p,[&](Tm t){return p2i(t);}); if(x.op==O_PTR&&!(isC(x.a[0])&&N[x.a[0]].c==0)){ Tm off=x.a[0]; return add(p2i(ptr(x.aux,cst(64,0))),off); } Tm t=mk(O_P2I,KI,64,{p}); N[t].lo=(u128)1<<32; N[t].hi=(u128)1<<46; N[t].tz=4; return t; }
  Tm i2p(Tm i){ const Node&x=N[i]; if(x.op==O_CONST) return ptr(0,i); if(x.op==O_P2I) return x.a[0]; if(x.op==O_ITE) return mapTree(i,[&](Tm t){return i2p(t);}); 
    if(x.op==O_LIN){ // base + const
      for(size_t j=0;j<x.a.size();++j) if(N[x.a[j]].op==O_P2I&&x.k[j]==1){ Tm base=N[x.a[j]].a[0]; Tm rest=sub(i,x.a[j]); return padd(base,rest);} }
    return mk(O_I2P,KP,64,{i}); }
  Bd peq(Tm a, Tm b){ if(a==b) return 1; const Node&x=N[a],&y=N[b]; if(x.op==O_ITE) return mapTreeB(a,[&](Tm t){return peq(t,b);}); if(y.op==O_ITE) return mapTreeB(b,[&](Tm t){return peq(a,t);}); if(x.op==O_PTR&&y.op==O_PTR){ if(x.aux!=y.aux) return 0; return eq(x.a[0],y.a[0]); } throw Unsupported("pointer compare"); }
  Bd plt(Tm a, Tm b){ if(a==b) return 0; const Node&x=N[a],&y=N[b]; if(x.op==O_ITE) return mapTreeB(a,[&](Tm t){return plt(t,b);}); if(y.op==O_ITE) return mapTreeB(b,[&](Tm t){return plt(a,t);}); if(x.op==O_PTR&&y.op==O_PTR){ if(x.aux!=y.aux) return x.aux<y.aux; return slt(x.a[0],y.a[0]); } throw Unsupported("pointer compare"); }
  // FP
  static u128 fop(int op,int kind,u128 a,u128 b){
    if(kind==KF){ float x,y; uint32_t p=(uint32_t)a,q=(uint32_t)b; memcpy(&x,&p,4); memcpy(&y,&q,4); float r; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:r=fmodf(x,y);} return floatBits(r); }
    if(kind==KD){ double x,y; uint64_t p=(uint64_t)a,q=(uint64_t)b; memcpy(&x,&p,8); memcpy(&y,&q,8); double r; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:r=fmod(x,y);} return doubleBits(r); }
    long double x=bitsToLD(a,kind),y=bitsToLD(b,kind),r; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:r=fmodl(x,y);} return ldBits(r); }
  Tm fbin(uint8_t op, Tm a, Tm b){ const Node&x=N[a],&y=N[b]; int kind=x.kind; if(x.op==O_CONST&&y.op==O_CONST) return fcst(kind,fop(op,kind,x.c,y.c));
    if(isTree(a)&&isC(b)) return mapTree(a,[&](Tm t){return fbin(op,t,b);}); if(isTree(b)&&isC(a)) return mapTree(b,[&](Tm t){return fbin(op,a,t);});
    Tm one=fval(kind,1);
    if(op==O_FMUL){ if(a==one) return b; if(b==one) return a; for(int s=0;s<2;++s){ Tm p=s?b:a,q=s?a:b; if(isC(p)&&N[q].op==O_FDIV&&N[q].a[1]==p){ int e; long double v=bitsToLD(N[p].c,kind); if(frexpl(v,&e)==0.5L) return N[q].a[0]; } } }
    if(op==O_FDIV&&b==one) return a;
    if(op==O_FDIV&&isC(b)){ int e; long double v=bitsToLD(N[b].c,kind); if(frexpl(v,&e)==0.5L&&e>-100&&e<100&&v!=2) return fbin(O_FMUL,a,fval(kind,1/v)); }
    if(op==O_FMUL) for(int s=0;s<2;++s){ Tm p=s?b:a,q=s?a:b; int e,e2; if(isC(p)&&isPow2(bitsToLD(N[p].c,kind),e)&&N[q].op==O_FMUL){ for(int j=0;j<2;++j){ Tm c2=N[q].a[j],z=N[q].a[1-j]; long double l,h; if(isC(c2)&&isPow2(bitsToLD(N[c2].c,kind),e2)&&!isC(z)&&frange(z,l,h)){ int g=fgrid(z); bool up=e2>=0; long double mx=std::max(fabsl(l),fabsl(h)); bool ok= up? mx<1e30L&&e2<60 : (g>-100000&&g+e2>-120); if(ok) return fbin(O_FMUL,z,fval(kind,bitsToLD(N[p].c,kind)*bitsToLD(N[c2].c,kind))); } } } }
    if((op==O_FADD||op==O_FMUL)&&a>b) std::swap(a,b);
    return mk(op,kind,fpw(kind),{a,b}); }
  Tm fneg(Tm a){ const Node&x=N[a]; if(x.op==O_CONST) return fval(x.kind,-bitsToLD(x.c,x.kind)); if(x.op==O_FNEG) return x.a[0]; return mk(O_FNEG,x.kind,x.w,{a}); }
  Tm i2f(Tm a, int kind, bool sgn){ const Node&x=N[a]; if(x.op==O_CONST) return cvtI(x.c,x.w,kind,sgn); if(isTree(a)) return mapTree(a,[&](Tm t){return i2f(t,kind,sgn);}); if(x.w==1) { Bd c=asB(a); return ite(c, fval(kind, sgn?-1.0L:1.0L), fval(kind,0)); } if(sgn&&nonneg(a)) sgn=false;
    if(x.op==O_ZEXT&&!sgn) return i2f(x.a[0],kind,false); if(x.op==O_SEXT&&sgn) return i2f(x.a[0],kind,true);
    return mk(sgn?O_SI2F:O_UI2F,kind,fpw(kind),{a}); }
  Tm cvtI(u128 c, unsigned w, int kind, bool sgn){ return fcst(kind, i2fbits(c,w,kind,sgn)); }
  static u128 i2fbits(u128 c, unsigned w, int kind, bool sgn){ if(sgn){ s128 v=sx(c,w); if(kind==KF) return floatBits((float)v); if(kind==KD) return doubleBits((double)v); return ldBits((long double)v);} c&=maskw(w); if(kind==KF) return floatBits((float)c); if(kind==KD) return doubleBits((double)c); return ldBits((long double)c); }
  static u128 f2ibits(u128 c,int kind,unsigned w,bool sgn){ long double v=bitsToLD(c,kind); if(v!=v) return 0; v=truncl(v); if(sgn){ long double lim=ldexpl(1,w-1); if(v>=lim||v<-lim) return ((u128)1<<(w-1)); return ((u128)(s128)v)&maskw(w);} if(v<0||v>=ldexpl(1,w)) return w>=128?~(u128)0:maskw(w); return (u128)v; }
  Tm f2i(Tm a, unsigned w, bool sgn){ const Node&x=N[a]; if(x.op==O_CONST) return cst(w,f2ibits(x.c,x.kind,w,sgn)); if(isTree(a)) return mapTree(a,[&](Tm t){return f2i(t,w,sgn);}); 
    Tm t=mk(sgn?O_F2SI:O_F2UI,KI,w,{a}); long double l,h; if(frange(a,l,h)&&l>-1&&h<9e18L){ u128 lo=(u128)(l<0?0:l), hi=(u128)h; if(hi<=maskw(w)&&N[t].lo==0&&N[t].hi==maskw(w)){ N[t].lo=lo; N[t].hi=hi; } } return t; }
  Tm fext(Tm a,int kind){ const Node&x=N[a]; if(x.kind==kind) return a; if(x.op==O_CONST) return fval(kind,bitsToLD(x.c,x.kind)); if(isTree(a)) return mapTree(a,[&](Tm t){return fext(t,kind);}); return mk(O_FEXT,kind,fpw(kind),{a}); }
  Tm ftrunc(Tm a,int kind){ const Node&x=N[a]; if(x.kind==kind) return a; if(x.op==O_CONST) return fval(kind,bitsToLD(x.c,x.kind)); if(x.op==O_FEXT&&N[x.a[0]].kind==kind) return x.a[0]; return mk(O_FTRUNC,kind,fpw(kind),{a}); }
  uint32_t fname(const std::string&s){ auto it=fnameix.find(s); if(it!=fnameix.end()) return it->second; fnames.push_back(s); return fnameix[s]=fnames.size()-1; }
  static bool fcall(const std::string&n,int kind,const std::vector<u128>&a,u128&out){
    #define F1(NM) if(n==#NM){ if(kind==KF){ out=floatBits(::NM##f((float)bitsToLD(a[0],KF))); return true;} if(kind==KD){ out=doubleBits(::NM((double)bitsToLD(a[0],KD))); return true;} out=ldBits(::NM##l(bitsToLD(a[0],KX))); return true; }
    #define F2(NM) if(n==#NM){ if(kind==KF){ out=floatBits(::NM##f((float)bitsToLD(a[0],KF),(float)bitsToLD(a[1],KF))); return true;} if(kind==KD){ out=doubleBits(::NM((double)bitsToLD(a[0],KD),(double)bitsToLD(a[1],KD))); return true;} out=ldBits(::NM##l(bitsToLD(a[0],KX),bitsToLD(a[1],KX))); return true; }
    F1(sqrt) F1(log) F1(exp) F1(tan) F1(sin) F1(cos) F1(floor) F1(ceil) F1(fabs) F1(log2) F1(log10) F1(log1p) F1(expm1) F1(trunc) F1(round) F1(atan) F1(tgamma) F1(lgamma) F1(rint) F1(nearbyint) F1(exp2)
    F2(pow) F2(fmod) F2(fmax) F2(fmin) F2(copysign) F2(atan2)
    if(n=="ldexp"){ int e=(int)(int32_t)(uint32_t)a[1]; out=ldToBits(ldexpl(bitsToLD(a[0],kind),e),kind); return true; }
    return false; }
  Tm callf(const std::string&nm, int kind, std::vector<Tm> a){ bool all=true; std::vector<u128> v; for(Tm t:a){ all&=isC(t); v.push_back(N[t].c);} u128 o; if(all&&fcall(nm,kind,v,o)) return fcst(kind,o);
    if(a.size()==1&&isTree(a[0])) return mapTree(a[0],[&](Tm t){return callf(nm,kind,{t});});
    if(a.size()==1&&(nm=="floor"||nm=="ceil"||nm=="trunc"||nm=="round"||nm=="rint"||nm=="nearbyint")&&fgrid(a[0])>=0) return a[0];
    return mk(O_CALLF,kind,fpw(kind),a,fname(nm)); }

  std::vector<std::vector<u128>> tabs; std::map<std::vector<u128>,uint32_t> tabix;
  Tm table(Tm idx, const std::vector<u128>&v, int kind, unsigned w){ if(isTree(idx)) return mapTree(idx,[&](Tm t){ size_t i=(size_t)N[t].c; if(i>=v.size()) i=0; return kind==KI?cst(w,v[i]):fcst(kind,v[i]); });
    auto it=tabix.find(v); uint32_t id; if(it==tabix.end()){ id=tabs.size(); tabs.push_back(v); tabix[v]=id; } else id=it->second;
    Tm t=mk(O_TBL,kind,kind==KI?w:fpw(kind),{idx},id); size_t a=(size_t)N[idx].lo,b=(size_t)std::min<u128>(N[idx].hi,v.size()-1); if(kind==KI){ u128 lo=~(u128)0,hi=0; for(size_t i=a;i<=b;++i){ lo=std::min(lo,v[i]); hi=std::max(hi,v[i]); } N[t].lo=lo; N[t].hi=hi; }
    else { long double lo=INFINITY,hi=-INFINITY; for(size_t i=a;i<=b;++i){ long double f=bitsToLD(v[i],kind); lo=std::min(lo,f); hi=std::max(hi,f);} frm[t]={lo,hi}; } return t; }
  // draw at an index that is itself an undetermined value: opaque, but the same function of (stream, index) everywhere
  struct SymAt { int stream, kind, w; u128 lo, hi; long double flo, fhi; bool operator<(const SymAt&o)const{ return std::tie(stream,kind,w,lo,hi,flo,fhi)<std::tie(o.stream,o.kind,o.w,o.lo,o.hi,o.flo,o.fhi); } };
  std::vector<SymAt> symats; std::map<SymAt,uint32_t> symatix; u128 salt=0; std::map<std::pair<int,uint64_t>,u128> drawn;
  Tm symAt(Tm idx, const SymAt&d){ if(isC(idx)) return sym(d.stream,(uint64_t)N[idx].c,d.kind,d.w,d.lo,d.hi,d.flo,d.fhi); auto it=symatix.find(d); uint32_t id; if(it==symatix.end()){ id=symats.size(); symats.push_back(d); symatix[d]=id; } else id=it->second; Tm t=mk(O_SYMAT,d.kind,d.kind==KI?d.w:fpw(d.kind),{idx},id); if(d.kind==KI){ N[t].lo=d.lo; N[t].hi=d.hi; } else frm[t]={d.flo,d.fhi}; return t; }
  static uint64_t mix(uint64_t z){ z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  u128 drawAt(const SymAt&d, uint64_t i, const std::vector<u128>&symv){ auto it=symmap.find({d.stream,i}); if(it!=symmap.end()&&N[it->second].aux<symv.size()) return symv[N[it->second].aux]; uint64_t h=mix(mix((uint64_t)salt^(uint64_t)d.stream*77777)^i*0x9E3779B97F4A7C15ull); if(d.kind==KI){ u128 span=d.hi-d.lo; return span==~(u128)0? h: d.lo+(u128)(((u128)h<<64|mix(h))%(span+1)); } long double x=d.flo+(d.fhi-d.flo)*((long double)(h>>1)/ldexpl(1,63)); u128 v=ldToBits(x,d.kind); if(bitsToLD(v,d.kind)>d.fhi) v=ldToBits(d.fhi,d.kind); return v; }
  // ---------- random interpretation -------------------------------------------------
  struct Plan { std::vector<Tm> order; std::vector<uint32_t> symIds; };
  void collectB(Bd b, std::vector<char>&seenB, std::vector<Tm>&st){ std::vector<Bd> s{b}; while(!s.empty()){ Bd x=s.back(); s.pop_back(); if(x<=1) continue; if(seenB.size()<=x) seenB.resize(B.size(),0); if(seenB[x]) continue; seenB[x]=1; st.push_back(varAtom[B[x].var]); s.push_back(B[x].lo); s.push_back(B[x].hi);} }
  void addStreams(Plan&P,const std::set<int>&at){ if(at.empty()) return; std::set<uint32_t> have(P.symIds.begin(),P.symIds.end()); for(auto&p:symmap) if(at.count(p.first.first)){ uint32_t id=N[p.second].aux; if(have.insert(id).second) P.symIds.push_back(id); } }
  Plan plan(const std::vector<Bd>&bs){ std::set<int> at; Plan P; std::vector<char> seen(N.size(),0), seenB(B.size(),0); std::vector<Tm> st; for(Bd b:bs) collectB(b,seenB,st);
    while(!st.empty()){ Tm t=st.back(); st.pop_back(); if(seen[t]) continue; seen[t]=1; P.order.push_back(t); const Node&x=N[t]; for(Tm a:x.a) if(!seen[a]) st.push_back(a); if(x.op==O_ITE||x.op==O_BOOL) collectB(x.aux,seenB,st); if(x.op==O_SYM) P.symIds.push_back(x.aux); if(x.op==O_SYMAT) at.insert(symats[x.aux].stream); }
    addStreams(P,at); std::sort(P.order.begin(),P.order.end()); std::sort(P.symIds.begin(),P.symIds.end()); return P; }
  std::vector<u128> V;
  bool evalB(Bd b){ while(b>1){ b= (V[varAtom[B[b].var]]&1)? B[b].hi:B[b].lo; } return b; }
  // atoms must be evaluated before the ITE terms using them: an atom's id may be larger than its user's?  No: the BDD existed first.
  void evalAll(const Plan&P, const std::vector<u128>&symv){ if(V.size()<N.size()) V.resize(N.size());
    for(Tm t:P.order){ const Node&x=N[t]; u128 m= x.kind==KI? maskw(x.w):~(u128)0; auto A=[&](int i){return V[x.a[i]];}; unsigned w=x.w; u128 r=0;
      switch(x.op){
      case O_CONST: r=x.c; break; case O_SYM: r=symv[x.aux]; break;
      case O_LIN: { r=x.c; for(size_t i=0;i<x.a.size();++i) r+=x.k[i]*A(i); break; }
      case O_MUL: r=A(0)*A(1); break;
      case O_UDIV: r=A(1)?A(0)/A(1):0; break; case O_UREM: r=A(1)?A(0)%A(1):0; break;
      case O_SDIV: { s128 p=sx(A(0),w),q=sx(A(1),w); r=q==0?0:q==-1?(u128)-p:(u128)(p/q); break; }
      case O_SREM: { s128 p=sx(A(0),w),q=sx(A(1),w); r=(q==0||q==-1)?0:(u128)(p%q); break; }
      case O_AND: r=A(0)&A(1); break; case O_OR: r=A(0)|A(1); break; case O_XOR: { r=x.c; for(size_t i=0;i<x.a.size();++i) r^=A(i); break; }
      case O_SHL: r=A(1)>=w?0:A(0)<<(unsigned)A(1); break; case O_LSHR: r=A(1)>=w?0:A(0)>>(unsigned)A(1); break; case O_ASHR: r=A(1)>=w?0:(u128)(sx(A(0),w)>>(unsigned)A(1)); break;
      case O_ZEXT: r=A(0); break; case O_SEXT: r=(u128)sx(A(0),N[x.a[0]].w); break; case O_TRUNC: r=A(0); break;
      case O_ITE: r=evalB(x.aux)?A(0):A(1); break; case O_BOOL: r=evalB(x.aux); break;
      case O_F2UI: r=f2ibits(A(0),N[x.a[0]].kind,w,false); break; case O_F2SI: r=f2ibits(A(0),N[x.a[0]].kind,w,true); break;
      case O_BITI: case O_BITF: r=A(0); break;
      case O_CTPOP: { u128 v=A(0); r=__builtin_popcountll((uint64_t)v)+__builtin_popcountll((uint64_t)(v>>64)); break; }
      case O_CTLZ: r=w-bl128(A(0)); break; case O_CTTZ: r=A(0)?ctz128(A(0)):w; break;
      case O_P2I: r=((u128)N[x.a[0]].aux<<32)+ (N[x.a[0]].a.empty()?0:V[N[x.a[0]].a[0]]); break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r=fop(x.op,x.kind,A(0),A(1)); break;
      case O_FNEG: r=ldToBits(-bitsToLD(A(0),x.kind),x.kind); break;
      case O_UI2F: r=i2fbits(A(0),N[x.a[0]].w,x.kind,false); break; case O_SI2F: r=i2fbits(A(0),N[x.a[0]].w,x.kind,true); break;
      case O_FEXT: case O_FTRUNC: r=ldToBits(bitsToLD(A(0),N[x.a[0]].kind),x.kind); break;
      case O_CALLF: { std::vector<u128> v; for(size_t i=0;i<x.a.size();++i) v.push_back(A(i)); if(!fcall(fnames[x.aux],x.kind,v,r)) throw Unsupported("eval "+fnames[x.aux]); break; }
      case O_EQ: r=A(0)==A(1); break; case O_ULT: r=A(0)<A(1); break; case O_SLT: { unsigned ww=N[x.a[0]].w; r=sx(A(0),ww)<sx(A(1),ww); break; }
      case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: { int k=N[x.a[0]].kind; long double p=bitsToLD(A(0),k),q=bitsToLD(A(1),k); r= x.op==O_FEQ?p==q: x.op==O_FLT?p<q: x.op==O_FLE?p<=q: (p!=p||q!=q); break; }
      case O_MODLIN: { u128 md=x.k.back(); bool p2=!(md&(md-1)); r=x.c; for(size_t i=0;i<x.a.size();++i){ if(p2) r+=x.k[i]*A(i); else r=(r+mulm(x.k[i],A(i),md))%md; } r= p2? r&(md-1): r%md; break; }
      case O_SYMAT: r=drawAt(symats[x.aux],(uint64_t)A(0),symv); break;
      case O_TBL: { const auto&tb=tabs[x.aux]; r= A(0)<tb.size()? tb[(size_t)A(0)]:0; break; }
      case O_PTR: case O_I2P: case O_AGG: r=0; break;
      default: throw Unsupported("eval op"); }
      V[t]=r&m; } }
  std::string show(Tm t, int d=4){ const Node&x=N[t]; static const char*nm[]={"?","const","sym","lin","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","trunc","ite","bool","f2ui","f2si","bits","ctpop","ctlz","cttz","ctls","p2i","fadd","fsub","fmul","fdiv","frem","fneg","ui2f","si2f","fext","ftrunc","bitf","call","ptr","i2p","agg","tbl","draw","modlin","eq","ult","slt","feq","flt","fle","funo"};
    if(x.op==O_CONST){ if(x.kind==KI) return u128s(x.c); char b[64]; snprintf(b,64,"%.12Lg",bitsToLD(x.c,x.kind)); return b; }
    if(x.op==O_SYM){ const SymInfo&s=syms[x.aux]; return (s.undef?"UNINIT":"s"+std::to_string(s.stream))+"["+std::to_string(s.idx)+"]"; }
    if(d==0) return "..."; std::string r=nm[x.op]; if(x.op==O_CALLF) r=fnames[x.aux]; if(x.op==O_ITE||x.op==O_BOOL) r+="{"+showB(x.aux,2)+"}"; r+="("; if(x.op==O_LIN||x.op==O_XOR) r+=u128s(x.c)+";"; if(x.op==O_PTR) r+="obj"+std::to_string(x.aux)+"+"; for(size_t i=0;i<x.a.size();++i){ if(i) r+=","; if(i>5){ r+=".."; break; } if(x.op==O_LIN&&x.k[i]!=1) { s128 k=sx(x.k[i],x.w); r+= (k<0?"-"+u128s((u128)-k):u128s(k))+"*"; } r+=show(x.a[i],d-1);} return r+")"; }
  std::string showB(Bd b,int d=3){ if(b<=1) return b?"T":"F"; if(d==0) return ".."; std::string a=show(varAtom[B[b].var],2); if(B[b].hi==1&&B[b].lo==0) return a; if(B[b].hi==0&&B[b].lo==1) return "!"+a; return "("+a+"?"+showB(B[b].hi,d-1)+":"+showB(B[b].lo,d-1)+")"; }
};
