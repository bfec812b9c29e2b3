// irq: classic dataflow passes over LLVM IR (no execution, no solver)
//   irq effects FILE.bc --repo DIR     global/thread-local effects, external calls, address dependence, const operations
//   irq loops   FILE.bc --repo DIR     every loop either draws afresh on each way round or has a ranking variable
//   irq narrow  FILE.bc --repo DIR     a discard count is never cut to a narrower type, nor counted by a narrower counter
//   irq consts  FILE.bc NAMEREGEX      constant tables as JSON
// Output: JSON on stdout {analysed, functions, obligations, discharged, items:[{rule,function,where,detail}]}
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/Regex.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Scalar/JumpThreading.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <functional>
#include <iostream>
#include <sstream>
using namespace llvm; typedef std::string str;
static str repo = "/repo";
static str jesc(const str &s) { str o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
struct Item { str rule, fn, where, detail; }; static std::vector<Item> items; static std::set<str> fns; static long obl = 0, dis = 0;
static str fileOf(const DIScope *s) { if (!s) return ""; str f = s->getFilename().str(), d = s->getDirectory().str(); return f.size() && f[0] == '/' ? f : d + "/" + f; }
static bool inRepo(const Function &F) { auto *sp = F.getSubprogram(); return sp && fileOf(sp).compare(0, repo.size() + 1, repo + "/") == 0; }
static str where(const Instruction *I) { DebugLoc d = I->getDebugLoc(); if (!d) { auto *sp = I->getFunction()->getSubprogram(); return sp ? fileOf(sp) + ":" + std::to_string(sp->getLine()) : ""; } while (d->getInlinedAt() && fileOf(d->getScope()).compare(0, repo.size() + 1, repo + "/")) d = DebugLoc(d->getInlinedAt()); return fileOf(cast<DIScope>(d->getScope())) + ":" + std::to_string(d.getLine()); }
static str nm(const Function *F) { return demangle(F->getName().str()); }
static void add(const char *rule, const Function *F, const Instruction *I, str detail) { items.push_back({rule, nm(F), I ? where(I) : "", detail}); }

// ---------------------------------------------------------------- effects
// objects a pointer may be based on, following phi/select/casts/gep and loads from local slots
static void bases(const Value *V, std::set<const Value *> &out, std::set<const Value *> &seen) {
  V = V->stripPointerCasts(); if (!seen.insert(V).second) return;
  if (auto *g = dyn_cast<GEPOperator>(V)) return bases(g->getPointerOperand(), out, seen);
  if (auto *p = dyn_cast<PHINode>(V)) { for (auto &u : p->incoming_values()) bases(u, out, seen); return; }
  if (auto *s = dyn_cast<SelectInst>(V)) { bases(s->getTrueValue(), out, seen); bases(s->getFalseValue(), out, seen); return; }
  if (auto *a = dyn_cast<GlobalAlias>(V)) return bases(a->getAliasee(), out, seen);
  if (auto *c = dyn_cast<ConstantExpr>(V)) { for (auto &o : c->operands()) if (o->getType()->isPointerTy()) bases(o, out, seen); return; }
  if (auto *c = dyn_cast<IntrinsicInst>(V)) if (c->getIntrinsicID() == Intrinsic::threadlocal_address) return bases(c->getArgOperand(0), out, seen);
  out.insert(V);
}
static std::set<const Value *> basesOf(const Value *V) { std::set<const Value *> o, s; bases(V, o, s); return o; }
static void effects(Module &M) {
  // roots: every function defined in the repository; closure over callees defined in the module
  std::set<const Function *> R; std::vector<const Function *> w;
  for (auto &F : M) if (!F.isDeclaration() && inRepo(F)) { R.insert(&F); w.push_back(&F); }
  auto callees = [&](const Function *F, std::function<void(const Instruction *, const Value *)> cb) { for (auto &I : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&I)) cb(c, c->getCalledOperand()->stripPointerCasts()); };
  while (!w.empty()) { auto *F = w.back(); w.pop_back(); callees(F, [&](const Instruction *, const Value *v) { if (auto *g = dyn_cast<Function>(v)) if (!g->isDeclaration() && R.insert(g).second) w.push_back(g); }); }
    // a function-local static whose guarded initialiser uses neither arguments nor draws is a constant made on first use
  std::set<const BasicBlock *> once; for (auto *F : R) for (auto &I : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction(); g && g->getName() == "__cxa_guard_acquire") for (auto *u : c->users()) if (auto *k = dyn_cast<ICmpInst>(u)) for (auto *u2 : k->users()) if (auto *br = dyn_cast<BranchInst>(u2)) { DominatorTree DT(*const_cast<Function *>(F)); auto *T = br->getSuccessor(0); std::set<const BasicBlock *> reg; for (auto &B : *const_cast<Function *>(F)) if (DT.dominates(T, &B)) { bool past = false; reg.insert(&B); (void)past; }
          bool clean = true; for (auto *B : reg) for (auto &J : *B) { for (auto &o : J.operands()) if (isa<Argument>(o) || (isa<Instruction>(o) && !reg.count(cast<Instruction>(o)->getParent()) && !isa<AllocaInst>(o))) clean = false; if (auto *d = dyn_cast<CallBase>(&J)) if (auto *f = d->getCalledFunction(); f && f->getName().starts_with("va_")) clean = false; } if (clean) { once.insert(reg.begin(), reg.end()); once.insert(c->getParent()); for (auto *P : predecessors(c->getParent())) once.insert(P); } }
    auto lazy = [&](const Instruction &I, const GlobalVariable *g) { return once.count(I.getParent()) && (g->getName().starts_with("_ZZ") || g->getName().starts_with("_ZGV")); };
  // a global is effectively constant when it is `constant`, or nothing in the module can write it (only loads, and address arithmetic feeding loads), apart from its own dynamic initialiser
  std::map<const GlobalVariable *, bool> ec;
  std::function<bool(const Value *, std::set<const Value *> &)> ro = [&](const Value *v, std::set<const Value *> &seen) -> bool {
    if (!seen.insert(v).second) return true;
    for (auto *u : v->users()) {
      if (isa<LoadInst>(u)) continue;
      if (isa<GEPOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<CastInst>(u) || isa<ConstantExpr>(u)) { if (!ro(u, seen)) return false; continue; }
      if (isa<ICmpInst>(u)) continue;
      if (auto *m = dyn_cast<MemTransferInst>(u)) { if (basesOf(m->getDest()).count(v)) return false; continue; }
      if (auto *I = dyn_cast<Instruction>(u)) { if (isa<GlobalVariable>(v) && lazy(*I, cast<GlobalVariable>(v))) continue; if (I->getFunction()->getName().starts_with("__cxx_global_var_init") || I->getFunction()->getName().starts_with("_GLOBAL__")) continue;
        if (auto *c = dyn_cast<CallBase>(I)) { bool ok = true; for (unsigned i = 0; i < c->arg_size(); ++i) if (c->getArgOperand(i) == v) { auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (!cf || i >= cf->arg_size()) { ok = false; break; }
            if (cf->isDeclaration()) { if (!c->onlyReadsMemory(i)) { ok = false; break; } } else if (!ro(cf->getArg(i), seen)) { ok = false; break; } } if (ok) continue; } }
      return false; }
    return true; };
  auto effConst = [&](const GlobalVariable *g) { if (g->isConstant()) return true; if (g->isThreadLocal()) return false; auto it = ec.find(g); if (it != ec.end()) return it->second; std::set<const Value *> s; return ec[g] = ro(g, s); };
  // externs results may not depend on
  static const char *allowed = "^(memcpy|memmove|memset|memcmp|memchr|strlen|strcmp|strncmp|malloc|calloc|realloc|free|abort|__assert_fail|a?(sin|cos|tan)h?|atan2|exp|exp2|expm1|log|log2|log10|log1p|logb|ilogb|pow|sqrt|cbrt|hypot|tgamma|erfc?|floor|ceil|fabs|fmod|fma|fmax|fmin|fdim|modf|remainder|ldexp|scalbl?n|frexp|nextafter|nexttoward|copysign|rint|nearbyint|l?l?round|l?l?rint|trunc|abs|labs|llabs)[fl]?$|^(_Zn[wa]|_Zd[la]|_ZNSt|_ZNKSt|_ZNSi|_ZNSo|_ZNKSo|_ZNKSi|_ZSt|__cxa_(allocate|free|throw|rethrow|begin|end|guard|bad|pure|atexit|init|get_exc)|__gxx_|__clang_call_terminate|_Unwind|__dynamic_cast|va_|_ZN5boost16assertion_failed|_ZN5boost20assertion_failed_msg|_ZN5boost15throw_exception|_ZNS[ta]|_ZNKS[ta]|_ZNSs|_ZNKSs)";
  static const char *banned = "random_device|chrono|clock|_ZNSt6thread|this_thread|getenv|^_ZSt4rand|__cxa_thread_atexit";
  Regex A(allowed), B(banned);
  for (auto *F : R) {
    fns.insert(nm(F)); bool own = inRepo(*F);
    bool init = F->getName().starts_with("__cxx_global_var_init") || F->getName().starts_with("_GLOBAL__"); if (init) continue;
    for (auto &I : instructions(*F)) {
      auto chk = [&](const Value *p, bool wr) { ++obl; bool bad = false; for (auto *b : basesOf(p)) if (auto *g = dyn_cast<GlobalVariable>(b)) {
            if (lazy(I, g)) continue;
            if (g->isThreadLocal()) { add("per-thread mutable state", F, &I, "access to thread_local " + demangle(g->getName().str())); bad = true; }
            else if (wr && !g->isConstant()) { add("library code writes a global or static object", F, &I, demangle(g->getName().str())); bad = true; }
            else if (!wr && !effConst(g) && (own || g->getName().find("boost") != StringRef::npos)) { add("result depends on a mutable global or static object", F, &I, demangle(g->getName().str())); bad = true; } }
        if (!bad) ++dis; };
      if (auto *l = dyn_cast<LoadInst>(&I)) chk(l->getPointerOperand(), false);
      else if (auto *s = dyn_cast<StoreInst>(&I)) chk(s->getPointerOperand(), true);
      else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) chk(x->getPointerOperand(), true);
      else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) chk(x->getPointerOperand(), true);
      else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { chk(m->getRawDest(), true); if (auto *t = dyn_cast<MemTransferInst>(m)) chk(t->getRawSource(), false); }
      else if (auto *p = dyn_cast<PtrToIntInst>(&I)) { if (own) { ++obl; bool ok = true; for (auto *u : p->users()) if (auto *b = dyn_cast<BinaryOperator>(u)) { if (b->getOpcode() != Instruction::Sub) ok = false; } else if (!isa<ICmpInst>(u)) ok = false; if (ok) ++dis; else add("result depends on an object's address", F, &I, "pointer converted to an integer"); } }
      else if (auto *c = dyn_cast<CallBase>(&I)) { if (isa<IntrinsicInst>(c)) { if (cast<IntrinsicInst>(c)->getIntrinsicID() == Intrinsic::readcyclecounter) add("result depends on the environment", F, &I, "cycle counter"); continue; }
        ++obl; if (c->isInlineAsm()) { add("result depends on the environment", F, &I, "inline assembly"); continue; }
        auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        bool bad = false;
        if (cf && cf->isDeclaration()) { str n = cf->getName().str(); if (B.match(n) || !A.match(n)) { bad = true; add("result depends on the environment", F, &I, "call of " + demangle(n)); } }
        // a non-constant global handed to a call that may write it
        for (unsigned i = 0; i < c->arg_size(); ++i) { auto *a = c->getArgOperand(i); if (!a->getType()->isPointerTy()) continue; for (auto *b : basesOf(a)) if (auto *g = dyn_cast<GlobalVariable>(b)) { if (g->isThreadLocal()) { bad = true; add("per-thread mutable state", F, &I, demangle(g->getName().str())); continue; } if (effConst(g) || lazy(I, g)) continue; StringRef n = g->getName(); if (!n.contains("boost") && !n.starts_with("_ZZ")) continue; bad = true; add("result depends on a mutable global or static object", F, &I, demangle(n.str()) + " passed to a call"); } }
        if (!bad) ++dis; } } }
}
// const operations do not write the object: mod summaries over pointer arguments, bottom up
static void constops(Module &M) {
  // objects reachable from `this`: bases are the argument itself or pointers loaded from it
  std::map<const Function *, std::set<unsigned>> mod; bool ch = true;
  auto roots = [&](const Value *p) { std::set<unsigned> r; for (auto *b : basesOf(p)) if (auto *a = dyn_cast<Argument>(b)) r.insert(a->getArgNo()); return r; };
  while (ch) { ch = false; for (auto &F : M) if (!F.isDeclaration()) { auto &S = mod[&F]; auto put = [&](std::set<unsigned> r) { for (auto x : r) if (S.insert(x).second) ch = true; };
      for (auto &I : instructions(F)) { if (auto *s = dyn_cast<StoreInst>(&I)) put(roots(s->getPointerOperand())); else if (auto *m = dyn_cast<MemIntrinsic>(&I)) put(roots(m->getRawDest()));
        else if (auto *c = dyn_cast<CallBase>(&I)) { auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (!cf || cf->isDeclaration()) continue; auto it = mod.find(cf); if (it == mod.end()) continue; auto T = it->second; for (unsigned i : T) if (i < c->arg_size()) put(roots(c->getArgOperand(i))); } } } }
  for (auto &F : M) if (!F.isDeclaration() && inRepo(F)) { auto *sp = F.getSubprogram(); auto *ty = sp->getType(); if (!ty) continue; auto ta = ty->getTypeArray();
      auto constPtr = [&](const DIType *t) { while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) { auto *b = d->getBaseType(); auto *bd = dyn_cast_or_null<DIDerivedType>(b); return bd && bd->getTag() == dwarf::DW_TAG_const_type; } t = d->getBaseType(); } return false; };
      bool sret = F.arg_size() && F.hasStructRetAttr(); if (F.arg_size() != ta.size() - 1 + sret) continue; unsigned k = sret ? 1 : 0;
      for (unsigned i = 1; i < ta.size(); ++i, ++k) { if (k >= F.arg_size()) break; auto *t = ta[i]; if (!F.getArg(k)->getType()->isPointerTy() || !t || !constPtr(t)) continue; ++obl; fns.insert(nm(&F)); if (mod[&F].count(k)) items.push_back({"an operation writes through a const object or argument", nm(&F), fileOf(sp) + ":" + std::to_string(sp->getLine()), "argument " + std::to_string(k)}); else ++dis; } }
}
// ---------------------------------------------------------------- loops
static void loops(Module &M) {
  // a draw: a call of an engine's nullary operator(), of the opaque generator, or of anything that may perform one; reading input counts likewise
  Regex D("^(va_draw|va_drawf|va_ext|va_extd)$"), S("^_ZNSi|^_ZStrs|^_ZSt2ws|^_ZNSt13basic_istream");
  std::map<const Function *, bool> may; bool ch = true;
  for (auto &F : M) { str n = nm(&F); if (D.match(F.getName()) || (inRepo(F) && n.find("::operator()()") != str::npos) || (F.isDeclaration() && S.match(F.getName()))) may[&F] = true; }
  auto draws = [&](const Instruction &I) { if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) { auto it = may.find(f); return it != may.end() && it->second; } return false; };
  while (ch) { ch = false; for (auto &F : M) if (!F.isDeclaration() && !may[&F]) for (auto &I : instructions(F)) if (draws(I)) { may[&F] = ch = true; break; } }
  for (auto &F : M) if (!F.isDeclaration() && inRepo(F)) {
    DominatorTree DT(F); LoopInfo LI(DT); fns.insert(nm(&F));
    for (auto *L : LI.getLoopsInPreorder()) {
      ++obl; auto *H = L->getHeader(); typedef std::set<const BasicBlock *> BS;
      auto cyc = [&](const BS &cut) { if (cut.count(H)) return false; BS seen; std::vector<const BasicBlock *> w{H}; while (!w.empty()) { auto *b = w.back(); w.pop_back(); for (auto *s : successors(b)) { if (s == H) return true; if (!L->contains(s) || cut.count(s) || !seen.insert(s).second) continue; w.push_back(s); } } return false; };
      // blocks that draw; an inner loop that draws counts as a draw where it is entered
      BS draw; for (auto *b : L->blocks()) { for (auto &I : *b) if (draws(I)) draw.insert(b); }
      BS dr2 = draw; for (auto *b : draw) for (auto *l = LI.getLoopFor(b); l && l != L; l = l->getParentLoop()) dr2.insert(l->getHeader()); draw = dr2;
      if (!draw.empty() && !cyc(draw)) { ++dis; continue; }
      auto in = [&](const Value *v) { auto *I = dyn_cast<Instruction>(v); return I && L->contains(I); };
      // what an exit test of integers, pointers or memory depends on: the blocks that change it
      auto writes = [&](const std::set<const Value *> &B, BS &pr) { bool any = false; for (auto *bb : L->blocks()) for (auto &J : *bb) { const Value *d = nullptr; if (auto *s = dyn_cast<StoreInst>(&J)) d = s->getPointerOperand(); else if (auto *m = dyn_cast<MemIntrinsic>(&J)) d = m->getRawDest();
            if (d) { for (auto *x : basesOf(d)) if (B.count(x)) { pr.insert(bb); any = true; } }
            else if (auto *c = dyn_cast<CallBase>(&J)) { if (isa<IntrinsicInst>(c) || c->onlyReadsMemory()) continue; for (auto &a : c->args()) if (a->getType()->isPointerTy()) for (auto *x : basesOf(a)) if (B.count(x)) { pr.insert(bb); any = true; } } } return any; };
      std::function<bool(const Value *, BS &, std::set<const Value *> &)> moved = [&](const Value *v, BS &pr, std::set<const Value *> &seen) -> bool {
        if (!in(v) || !seen.insert(v).second) return false; auto *I = cast<Instruction>(v);
        if (auto *p = dyn_cast<PHINode>(I)) { if (p->getParent() == H) { bool r = false; std::set<const Value *> s2; std::vector<const Value *> w; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) if (L->contains(p->getIncomingBlock(i))) w.push_back(p->getIncomingValue(i));
            while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (x == p || !s2.insert(x).second) continue; if (in(x)) { auto *X = cast<Instruction>(x); if (auto *q = dyn_cast<PHINode>(X); q && q->getParent() != H) { for (auto &u : q->incoming_values()) w.push_back(u); continue; } pr.insert(X->getParent()); r = true; } else { pr.insert(p->getParent()); r = true; } }
            return r; }
          bool r = false; for (auto &u : p->incoming_values()) if (moved(u, pr, seen)) r = true; return r; }
        if (auto *l = dyn_cast<LoadInst>(I)) { bool r = writes(basesOf(l->getPointerOperand()), pr); if (moved(l->getPointerOperand(), pr, seen)) r = true; return r; }
        if (auto *c = dyn_cast<CallBase>(I)) { bool r = false; for (auto &a : c->args()) { if (a->getType()->isPointerTy() && writes(basesOf(a), pr)) r = true; if (moved(a, pr, seen)) r = true; } if (c->getFunctionType()->getNumParams() == 0) r = true; return r; }
        if (I->getType()->isFloatingPointTy()) return false; // judged by the stricter rule below
        bool r = false; for (auto &o : I->operands()) if (moved(o, pr, seen)) r = true; return r; };
      std::function<bool(const Value *, int)> inv = [&](const Value *v, int d) -> bool { if (!in(v)) return true; auto *I = cast<Instruction>(v); if (d > 8 || isa<PHINode>(I)) return false; if (auto *l = dyn_cast<LoadInst>(I)) { BS x; auto B = basesOf(l->getPointerOperand()); bool st = false; for (auto *bb : L->blocks()) for (auto &J : *bb) if (auto *s = dyn_cast<StoreInst>(&J)) for (auto *q : basesOf(s->getPointerOperand())) if (B.count(q) && s->getValueOperand()->getType() == l->getType()) st = true; if (st) return false; }
        for (auto &o : I->operands()) if (!isa<Function>(o) && !inv(o, d + 1)) return false; return true; };
      // a floating-point variable that each way round multiplies, divides or shifts by something fixed (or divides by a moving integer)
      std::function<bool(const Value *, int)> fstep = [&](const Value *v, int d) -> bool { if (d > 10 || !in(v)) return false; auto *I = cast<Instruction>(v);
        if (auto *p = dyn_cast<PHINode>(I)) { if (p->getParent() != H) { for (auto &u : p->incoming_values()) if (u != p && !fstep(u, d + 1)) return false; return true; }
          if (d > 8) return false; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) if (L->contains(p->getIncomingBlock(i))) { auto *x = p->getIncomingValue(i); std::function<bool(const Value *, int)> st = [&](const Value *n, int e) -> bool { if (n == p) return e > 0; if (e > 6 || !in(n)) return false; auto *N = cast<Instruction>(n); if (auto *q = dyn_cast<PHINode>(N)) { if (q->getParent() == H) return false; for (auto &u : q->incoming_values()) if (!st(u, e)) return false; return true; }
              auto fix = [&](const Value *k) { if (inv(k, 0)) return true; auto *c = dyn_cast<CastInst>(k); return c && (isa<SIToFPInst>(c) || isa<UIToFPInst>(c)); };
              switch (N->getOpcode()) { case Instruction::FMul: case Instruction::FAdd: return (st(N->getOperand(0), e + 1) && fix(N->getOperand(1))) || (st(N->getOperand(1), e + 1) && fix(N->getOperand(0))); case Instruction::FDiv: case Instruction::FSub: return st(N->getOperand(0), e + 1) && fix(N->getOperand(1)); default: return false; } }; if (!st(x, 0)) return false; }
          return true; }
        if (auto *l = dyn_cast<LoadInst>(I)) { BS pr; return writes(basesOf(l->getPointerOperand()), pr); }
        auto fix = [&](const Value *k) { if (inv(k, 0)) return true; auto *c = dyn_cast<CastInst>(k); return c && (isa<SIToFPInst>(c) || isa<UIToFPInst>(c)); };
        switch (I->getOpcode()) { case Instruction::SIToFP: case Instruction::UIToFP: { BS pr; std::set<const Value *> sn; return moved(I->getOperand(0), pr, sn) || (in(I->getOperand(0)) && isa<BinaryOperator>(I->getOperand(0))); }
          case Instruction::FMul: case Instruction::FAdd: return (fstep(I->getOperand(0), d + 1) && fix(I->getOperand(1))) || (fstep(I->getOperand(1), d + 1) && fix(I->getOperand(0))); case Instruction::FDiv: case Instruction::FSub: return (fstep(I->getOperand(0), d + 1) && fix(I->getOperand(1))) || (fstep(I->getOperand(1), d + 1) && inv(I->getOperand(0), 0)); case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg: return fstep(I->getOperand(0), d + 1);
          case Instruction::Call: for (auto &a : cast<CallBase>(I)->args()) if (fstep(a, d + 1)) return true; return false; default: return false; } };
      std::function<bool(const Value *, BS &, int)> test = [&](const Value *c, BS &pr, int d) -> bool { if (d > 8) return false;
        if (auto *k = dyn_cast<FCmpInst>(c)) { auto *x = k->getOperand(0), *y = k->getOperand(1); bool r = (fstep(x, 0) && (inv(y, 0) || fstep(y, 0))) || (fstep(y, 0) && inv(x, 0)); if (r) pr.insert(H); return r; }
        if (auto *b = dyn_cast<BinaryOperator>(c); b && b->getType()->isIntegerTy(1)) { bool l = test(b->getOperand(0), pr, d + 1), r = test(b->getOperand(1), pr, d + 1); return l || r; }
        if (auto *s = dyn_cast<SelectInst>(c)) { bool x = test(s->getCondition(), pr, d + 1), y = test(s->getTrueValue(), pr, d + 1), z = test(s->getFalseValue(), pr, d + 1); return x || y || z; }
        if (auto *p = dyn_cast<PHINode>(c); p && p->getType()->isIntegerTy(1) && p->getParent() != H) { bool r = false; for (auto &u : p->incoming_values()) if (test(u, pr, d + 1)) r = true; return r; }
        if (auto *x = dyn_cast<CastInst>(c)) return test(x->getOperand(0), pr, d + 1);
        std::set<const Value *> seen; return moved(c, pr, seen); };
      BS cut = draw, prog = draw; SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex);
      for (auto *b : ex) { Value *cv = nullptr; if (auto *br = dyn_cast<BranchInst>(b->getTerminator())) { if (br->isConditional()) cv = br->getCondition(); } else if (auto *sw = dyn_cast<SwitchInst>(b->getTerminator())) cv = sw->getCondition();
        if (cv) { BS pr; if (test(cv, pr, 0)) { cut.insert(b); prog.insert(pr.begin(), pr.end()); } } }
      // an inner loop's header stands for the progress made in it
      BS p2 = prog; for (auto *b : prog) for (auto *l = LI.getLoopFor(b); l && l != L; l = l->getParentLoop()) p2.insert(l->getHeader());
      BS c2 = cut; for (auto *b : cut) for (auto *l = LI.getLoopFor(b); l && l != L; l = l->getParentLoop()) c2.insert(l->getHeader());
      bool e1 = cyc(c2), e2 = cyc(p2); if (!e1 && !e2) { ++dis; continue; }
      const Instruction *loc = nullptr; for (auto *b : L->blocks()) { for (auto &I : *b) if (I.getDebugLoc() && I.getDebugLoc().getLine()) { loc = &I; break; } if (loc) break; } if (!loc) loc = H->getTerminator();
      add(!draw.empty() ? "a way round the retry loop draws no fresh value" : e1 ? "nothing the loop counts or consumes ends it" : "a way round the loop leaves everything its exits test unchanged", &F, loc, "");
    } }
}
// ---------------------------------------------------------------- constants
static void dump(const Constant *c, std::ostream &o, int d = 0) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { SmallString<32> s; i->getValue().toString(s, 10, false); o << '"' << s.str().str() << '"'; }
  else if (auto *f = dyn_cast<ConstantFP>(c)) { SmallString<32> s; f->getValueAPF().bitcastToAPInt().toString(s, 16, false); o << "\"0x" << s.str().str() << '"'; }
  else if (auto *a = dyn_cast<ConstantDataSequential>(c)) { o << '['; for (unsigned i = 0; i < a->getNumElements(); ++i) { if (i) o << ','; dump(a->getElementAsConstant(i), o, d + 1); } o << ']'; }
  else if (isa<ConstantAggregateZero>(c)) { o << '['; unsigned n = 0; if (auto *t = dyn_cast<ArrayType>(c->getType())) n = t->getNumElements(); else if (auto *s = dyn_cast<StructType>(c->getType())) n = s->getNumElements(); for (unsigned i = 0; i < n; ++i) { if (i) o << ','; dump(cast<ConstantAggregateZero>(c)->getElementValue(i), o, d + 1); } o << ']'; }
  else if (auto *a = dyn_cast<ConstantAggregate>(c)) { o << '['; for (unsigned i = 0; i < a->getNumOperands(); ++i) { if (i) o << ','; dump(a->getOperand(i), o, d + 1); } o << ']'; }
  else if (auto *g = dyn_cast<GlobalVariable>(c->stripPointerCasts())) { if (d < 4 && g->hasInitializer()) dump(g->getInitializer(), o, d + 1); else o << "null"; }
  else o << "null";
}
// ---------------------------------------------------------------- narrow
// The count given to discard(), followed through copies, sums, differences, products, quotients and calls, stays in a type that holds it:
// no truncation of a value whose range (from the comparisons that dominate it) does not fit, unless only masked bits of it are used; and no
// comparison with a counter of a narrower type.
static void narrow(Module &M, FunctionAnalysisManager &FAM) {
  std::set<const Value *> T; std::vector<Value *> w; auto taint = [&](Value *v) { if (T.insert(v).second) w.push_back(v); };
  for (auto &F : M) { auto *sp = F.getSubprogram(); if (!sp || F.isDeclaration() || !inRepo(F) || sp->getName() != "discard") continue; for (auto &A : F.args()) if (A.getType()->isIntegerTy() && A.getType()->getIntegerBitWidth() < 64) { ++obl; fns.insert(nm(&F)); items.push_back({"a discard count is not cut to a narrower type", nm(&F), fileOf(sp) + ":" + std::to_string(sp->getLine()), "taken in a narrower type"}); } else if (A.getType()->isIntegerTy(64)) { taint(&A); fns.insert(nm(&F)); ++obl; ++dis; } }
  std::set<const Instruction *> seen;
  auto bad = [&](Instruction *I, const char *why) { if (!seen.insert(I).second) return; ++obl; add("a discard count is not cut to a narrower type", I->getFunction(), I, why); };
  auto fits = [&](Value *V, Instruction *at, unsigned b) { auto &L = FAM.getResult<LazyValueAnalysis>(*at->getFunction()); ConstantRange R = L.getConstantRange(V, at, false); return R.getUnsignedMax().getActiveBits() <= b; };
  while (w.size()) { Value *V = w.back(); w.pop_back();
    for (User *U : V->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) continue;
      if (auto *t = dyn_cast<TruncInst>(I)) { unsigned b = t->getType()->getIntegerBitWidth(); bool ok = b == 1 || fits(V, I, b);
        if (!ok) { ok = true; for (User *x : t->users()) { auto *y = dyn_cast<BinaryOperator>(x); bool m = y && ((y->getOpcode() == Instruction::And && (isa<ConstantInt>(y->getOperand(1)) || isa<ConstantInt>(y->getOperand(0)))) || (y->getOpcode() == Instruction::URem && isa<ConstantInt>(y->getOperand(1)) && cast<ConstantInt>(y->getOperand(1))->getValue().isPowerOf2())); if (!m) ok = false; } }
        if (!ok) bad(I, "truncated"); else if (seen.insert(I).second) { ++obl; ++dis; } continue; }
      if (auto *c = dyn_cast<ICmpInst>(I)) { Value *o = c->getOperand(0) == V ? c->getOperand(1) : c->getOperand(0); unsigned sw = 0; if (auto *z = dyn_cast<ZExtInst>(o)) sw = z->getSrcTy()->getIntegerBitWidth(); if (auto *z = dyn_cast<SExtInst>(o)) sw = z->getSrcTy()->getIntegerBitWidth();
        if (sw && sw < V->getType()->getIntegerBitWidth()) { Value *q = cast<CastInst>(o)->getOperand(0); bool cyc = false; std::set<Value *> vs; std::vector<Value *> st{q}; while (st.size() && vs.size() < 200) { Value *x = st.back(); st.pop_back(); if (!vs.insert(x).second) continue; if (auto *p = dyn_cast<PHINode>(x)) { for (auto &in : p->incoming_values()) { if (vs.count(in) && isa<Instruction>(in)) cyc = true; st.push_back(in); } } else if (auto *b = dyn_cast<BinaryOperator>(x)) { if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) { if (auto *p = dyn_cast<PHINode>(b->getOperand(0))) if (vs.count(p)) cyc = true; st.push_back(b->getOperand(0)); } } }
          if (cyc && c->isRelational() ) { bad(I, "compared with a counter of a narrower type"); continue; } }
        if (seen.insert(I).second) { ++obl; ++dis; } continue; }
      if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) || isa<ZExtInst>(I)) { if (I->getType()->isIntegerTy() && !(isa<SelectInst>(I) && cast<SelectInst>(I)->getCondition() == V)) taint(I); continue; }
      if (auto *b = dyn_cast<BinaryOperator>(I)) { switch (b->getOpcode()) { case Instruction::Add: case Instruction::Sub: case Instruction::Mul: taint(I); break; case Instruction::UDiv: if (b->getOperand(0) == V) taint(I); break; default: break; } continue; }
      if (auto *cb = dyn_cast<CallBase>(I)) { Function *F = cb->getCalledFunction(); if (!F || F->isDeclaration() || !inRepo(*F)) continue; for (unsigned i = 0; i < cb->arg_size() && i < F->arg_size(); ++i) if (cb->getArgOperand(i) == V) { taint(F->getArg(i)); fns.insert(nm(F)); } continue; } } }
}
int main(int argc, char **argv) {
  str mode = argv[1], file = argv[2]; str re = ".*"; for (int i = 3; i < argc; ++i) { if (str(argv[i]) == "--repo") repo = argv[++i]; else re = argv[i]; }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(file, E, C); if (!M) { E.print("irq", errs()); return 2; }
  if (mode == "consts") { std::cout << "{"; bool f = true; Regex R(re); for (auto &g : M->globals()) if (g.hasInitializer() && R.match(demangle(g.getName().str()))) { if (!f) std::cout << ","; f = false; std::cout << "\"" << jesc(demangle(g.getName().str())) << "\":"; std::ostringstream o; std::cout << "{\"constant\":" << (g.isConstant() ? "true" : "false") << ",\"value\":"; dump(g.getInitializer(), std::cout); std::cout << "}"; } std::cout << "}\n"; return 0; }
  for (auto &F : *M) F.removeFnAttr(Attribute::OptimizeNone);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM; FunctionPassManager FPM;
  if (mode == "loops") for (auto &F : *M) if (!F.isDeclaration() && !inRepo(F)) { F.removeFnAttr(Attribute::NoInline); if (F.getInstructionCount() < 150 && !F.isInterposable() || F.hasLinkOnceLinkage()) if (F.getInstructionCount() < 150) F.addFnAttr(Attribute::AlwaysInline); }
  if (mode == "loops") MPM.addPass(AlwaysInlinerPass(false)); FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); if (mode == "loops") { FPM.addPass(SCCPPass()); FPM.addPass(JumpThreadingPass()); FPM.addPass(SimplifyCFGPass()); FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(SimplifyCFGPass()); } MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM);
  if (mode == "effects") { effects(*M); constops(*M); } else if (mode == "loops") loops(*M); else if (mode == "narrow") narrow(*M, FAM); else return 2;
  std::cout << "{\"obligations\":" << obl << ",\"discharged\":" << dis << ",\"functions\":["; bool f = true; for (auto &x : fns) { if (!f) std::cout << ","; f = false; std::cout << "\"" << jesc(x) << "\""; }
  std::cout << "],\"items\":["; f = true; for (auto &i : items) { if (!f) std::cout << ","; f = false; std::cout << "{\"rule\":\"" << jesc(i.rule) << "\",\"function\":\"" << jesc(i.fn) << "\",\"where\":\"" << jesc(i.where) << "\",\"detail\":\"" << jesc(i.detail) << "\"}"; } std::cout << "]}\n";
}
