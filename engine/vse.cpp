// vse: symbolic executor for LLVM bitcode (single-threaded programs), Z3 back end.
//   vse MODULE.bc --fn NAME [--param k=v]... [--out out.json] [--max-paths N] [--max-insts N] [--time S] ...
#include "solver.h"
#include <atomic>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
using std::string; using std::vector;
namespace L = llvm;
typedef int32_t i32; typedef int64_t i64; typedef uint16_t u16;

struct V { E e = nullptr; u64 lo = 0, hi = 0; };
static inline V cv(u128 x) { V v; v.lo = (u64)x; v.hi = (u64)(x >> 64); return v; }
static inline u128 cu(const V &v) { return ((u128)v.hi << 64) | v.lo; }
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : bvc(cu(v), w); }
static inline V fromE(E e) { V v; if (isC(e)) { v.lo = e->lo; v.hi = e->hi; } else v.e = e; return v; }

struct PathEnd { const char *why; };
struct Retry {};

// ------------------------------------------------------------------ memory
struct SymB { E e; u32 i; };
enum OK : u8 { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FREED };
struct Obj {
  u32 rc = 1, size = 0; OK kind = OK_HEAP; bool ro = false; u8 *data = nullptr; SymB *sym = nullptr; u32 tag = 0;
  ~Obj() { free(data); free(sym); }
  static Obj *make(u32 size, OK k) { Obj *o = new Obj; o->size = size; o->kind = k; o->data = (u8 *)calloc(size ? size : 1, 1); return o; }
  Obj *clone() const { Obj *o = new Obj; o->size = size; o->kind = kind; o->ro = ro; o->tag = tag; o->data = (u8 *)malloc(size ? size : 1); memcpy(o->data, data, size); if (sym) { o->sym = (SymB *)malloc(sizeof(SymB) * (size ? size : 1)); memcpy(o->sym, sym, sizeof(SymB) * size); } return o; }
};
static inline void objDec(Obj *o) { if (o && --o->rc == 0) delete o; }
struct Chunk { u32 rc = 1; Obj *o[256]; Chunk() { memset(o, 0, sizeof o); } };
struct Mem {
  vector<Chunk *> t;
  Mem() {}
  Mem(const Mem &m) : t(m.t) { for (auto *c : t) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : t) if (c && --c->rc == 0) { for (auto *o : c->o) objDec(o); delete c; } }
  Obj *get(u32 id) const { u32 k = id >> 8; if (k >= t.size() || !t[k]) return nullptr; return t[k]->o[id & 255]; }
  Chunk *wchunk(u32 id) {
    u32 k = id >> 8; if (k >= t.size()) t.resize(k + 1, nullptr);
    if (!t[k]) t[k] = new Chunk;
    else if (t[k]->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 256; i++) { n->o[i] = t[k]->o[i]; if (n->o[i]) n->o[i]->rc++; } t[k]->rc--; t[k] = n; }
    return t[k];
  }
  Obj *wget(u32 id) { Chunk *c = wchunk(id); Obj *&o = c->o[id & 255]; if (o && o->rc > 1) { Obj *n = o->clone(); o->rc--; o = n; } return o; }
  void set(u32 id, Obj *n) { Chunk *c = wchunk(id); Obj *&o = c->o[id & 255]; objDec(o); o = n; }
};

// ------------------------------------------------------------------ lowered code
enum Op : u8 { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_F1, O_TRUNC, O_ZEXT, O_SEXT, O_FTOI, O_ITOF, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_ICALL, O_UNREACHABLE, O_MOV, O_RMW, O_CMPXCHG, O_OVF, O_SAT, O_INTR, O_UNSUP, O_HANDLER };
struct Ins { Op op; u8 k = 0; u16 w = 0, w2 = 0; u32 dst = 0; i32 a = 0, b = 0, c = 0; u32 x = 0, n = 0; u64 imm = 0; const L::Instruction *src = nullptr; };
struct Edge { u32 target; const L::BasicBlock *bb; vector<std::pair<u32, i32>> mv; };
struct Fn {
  L::Function *f; u32 idx; bool lowered = false; int handler = -1; u32 nslots = 0, nret = 0; vector<Ins> code; vector<V> consts; vector<Edge> edges; vector<i32> pool; vector<u16> retw; vector<string> msgs;
  string name, pretty; u64 calls = 0;
};

struct Frame { Fn *f; u32 pc, base, retDst; u32 allocaBase; };
struct Input { string name; E e; };
struct State {
  Mem mem; vector<V> regs; vector<Frame> fr; vector<u32> allocas, freeStack; u32 nextHeap = 0;
  vector<E> pc; vector<u128> model; vector<Input> in; vector<std::pair<string, E>> obs; std::unordered_map<E, u128> eq;
  u64 insts = 0; bool panicOk = false; u32 depth = 0; bool dirty = false; vector<u32> covers; u64 brHash = 0; u64 allocBytes = 0;
};

struct Violation { string kind, msg; vector<std::pair<string, u128>> vals; vector<string> stack; string where; };
static const u32 FUNC_ID = 0x70000000u;

struct Engine {
  L::LLVMContext ctx; std::unique_ptr<L::Module> M; const L::DataLayout *DL;
  Solver sol; vector<Fn *> fns; std::unordered_map<const L::Function *, u32> fnIdx; std::unordered_map<const L::GlobalVariable *, u32> gid; vector<L::GlobalVariable *> globals;
  Mem base; u32 nGlobals = 0; u32 nextVar = 0;
  vector<State *> work; State *S = nullptr;
  std::map<string, u64> params;
  u64 maxInsts = 400000000, maxPaths = 2000000, totalInsts = 0; double maxTime = 600; u32 maxDepth = 3000; u64 maxAlloc = (u64)1 << 31;
  int jobs = 1;
  u64 nPaths = 0, nCompleted = 0, nPanicOk = 0, nAssume = 0, nForks = 0, nAsserts = 0, nUnsup = 0, nLimit = 0, nViolPaths = 0, nSymBranches = 0;
  std::map<string, Violation> viols; std::map<string, u64> violN; std::map<u32, u64> covers; std::set<string> unsupMsgs; string incomplete; vector<string> limitMsgs; vector<Violation> limitInputs;
  vector<string> samples; u32 maxSamples = 12; u64 sampleSeen = 0; u64 rng = 0x12345;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  std::map<u32, std::pair<E, i128>> dummy; bool trace = false; bool memDump = false; u32 stopAfter = 40; bool finishing = false;
  std::map<string, u64> forkSites;

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---------- loading
  void load(const string &path) {
    auto mb = L::MemoryBuffer::getFile(path); if (!mb) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
    auto m = L::getOwningLazyBitcodeModule(std::move(*mb), ctx); if (!m) { L::errs() << m.takeError() << "\n"; exit(3); }
    M = std::move(*m); DL = &M->getDataLayout();
    for (auto &f : M->functions()) { Fn *n = new Fn; n->f = &f; n->idx = fns.size(); n->name = f.getName().str(); fnIdx[&f] = n->idx; fns.push_back(n); n->handler = handlerFor(n->name, f.isDeclaration()); }
    u32 id = 1;
    for (auto &g : M->globals()) { gid[&g] = id++; globals.push_back(&g); }
    for (auto *g : globals) {
      u64 sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0;
      Obj *o = Obj::make(sz, OK_GLOBAL); base.set(gid[g], o);
    }
    for (auto *g : globals) if (g->hasInitializer()) { writeConst(base.wget(gid[g]), 0, g->getInitializer()); base.wget(gid[g])->ro = g->isConstant(); }
    nGlobals = id;
  }
  u64 gaddr(const L::GlobalValue *g) {
    if (auto *f = L::dyn_cast<L::Function>(g)) { if (f->hasExternalWeakLinkage()) { int h = fns[fnIdx[f]]->handler; (void)h; return 0; } return ((u64)(FUNC_ID + fnIdx[f])) << 32; }
    if (auto *v = L::dyn_cast<L::GlobalVariable>(g)) { if (v->hasExternalWeakLinkage()) return 0; return (u64)gid[v] << 32; }
    if (auto *a = L::dyn_cast<L::GlobalAlias>(g)) return cu(constVals(a->getAliasee())[0]);
    throw Unsupported("global kind");
  }
  struct Fl { u16 w; u32 off; };
  void flat(L::Type *t, vector<Fl> &o, u32 off = 0) {
    if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 128) throw Unsupported("wide int"); o.push_back({(u16)t->getIntegerBitWidth(), off}); }
    else if (t->isPointerTy()) o.push_back({64, off}); else if (t->isFloatTy()) o.push_back({32, off}); else if (t->isDoubleTy()) o.push_back({64, off});
    else if (auto *s = L::dyn_cast<L::StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), o, off + sl->getElementOffset(i)); }
    else if (auto *a = L::dyn_cast<L::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), o, off + i * es); }
    else if (auto *v = L::dyn_cast<L::FixedVectorType>(t)) { u64 ew = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), o, off + (ew >= 8 ? i * ew / 8 : 0)); }
    else if (t->isVoidTy()) {}
    else { string s; L::raw_string_ostream os(s); t->print(os); throw Unsupported("type " + s); }
  }
  vector<Fl> fl(L::Type *t) { vector<Fl> o; flat(t, o); return o; }
  vector<V> constVals(const L::Constant *c) {
    if (auto *i = L::dyn_cast<L::ConstantInt>(c)) { auto &a = i->getValue(); V v; v.lo = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1]; return {v}; }
    if (auto *f = L::dyn_cast<L::ConstantFP>(c)) { V v; v.lo = f->getValueAPF().bitcastToAPInt().getZExtValue(); return {v}; }
    if (L::isa<L::ConstantPointerNull>(c)) return {V{}};
    if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c)) return vector<V>(fl(c->getType()).size());
    if (auto *g = L::dyn_cast<L::GlobalValue>(c)) return {cv(gaddr(g))};
    if (auto *d = L::dyn_cast<L::ConstantDataSequential>(c)) { vector<V> r; for (unsigned i = 0; i < d->getNumElements(); i++) { auto x = constVals(d->getElementAsConstant(i)); r.insert(r.end(), x.begin(), x.end()); } return r; }
    if (auto *a = L::dyn_cast<L::ConstantAggregate>(c)) { vector<V> r; for (unsigned i = 0; i < a->getNumOperands(); i++) { auto x = constVals(a->getOperand(i)); r.insert(r.end(), x.begin(), x.end()); } return r; }
    if (auto *e = L::dyn_cast<L::ConstantExpr>(c)) {
      switch (e->getOpcode()) {
        case L::Instruction::GetElementPtr: { auto *g = L::cast<L::GEPOperator>(e); L::APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep"); return {cv((u64)(cu(constVals(L::cast<L::Constant>(g->getPointerOperand()))[0]) + off.getZExtValue()))}; }
        case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::AddrSpaceCast: case L::Instruction::Trunc: { V v = constVals(e->getOperand(0))[0]; unsigned w = DL->getTypeSizeInBits(e->getType()); return {cv(cu(v) & maskw(w))}; }
        case L::Instruction::Sub: return {cv((u64)(cu(constVals(e->getOperand(0))[0]) - cu(constVals(e->getOperand(1))[0])))};
        case L::Instruction::Add: return {cv((u64)(cu(constVals(e->getOperand(0))[0]) + cu(constVals(e->getOperand(1))[0])))};
        case L::Instruction::Select: return cu(constVals(e->getOperand(0))[0]) & 1 ? constVals(e->getOperand(1)) : constVals(e->getOperand(2));
        case L::Instruction::ICmp: { unsigned w = fl(e->getOperand(0)->getType())[0].w; return {cv(icmpC(e->getPredicate(), cu(constVals(e->getOperand(0))[0]), cu(constVals(e->getOperand(1))[0]), w))}; }
        case L::Instruction::ZExt: return constVals(e->getOperand(0));
        default: break;
      }
    }
    string s; L::raw_string_ostream os(s); c->print(os); throw Unsupported("constant " + s.substr(0, 200));
  }
  void writeConst(Obj *o, u64 off, const L::Constant *c) {
    L::Type *t = c->getType();
    if (L::isa<L::UndefValue>(c) || L::isa<L::ConstantAggregateZero>(c) || L::isa<L::ConstantPointerNull>(c)) return;
    if (auto *d = L::dyn_cast<L::ConstantDataSequential>(c)) { auto r = d->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto *a = L::dyn_cast<L::ConstantStruct>(c)) { auto *sl = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), a->getOperand(i)); return; }
    if (auto *a = L::dyn_cast<L::ConstantAggregate>(c)) { L::Type *et = a->getOperand(0)->getType(); u64 es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < a->getNumOperands(); i++) writeConst(o, off + i * es, a->getOperand(i)); return; }
    u128 v = cu(constVals(c)[0]); u64 n = DL->getTypeStoreSize(t); memcpy(o->data + off, &v, n);
  }

  // ---------- lowering
  struct Low { Fn *F; std::unordered_map<const L::Value *, vector<i32>> vm; };
  i32 addConst(Fn *F, V v) { F->consts.push_back(v); return ~(i32)(F->consts.size() - 1); }
  vector<i32> ops(Low &W, const L::Value *v) {
    auto it = W.vm.find(v); if (it != W.vm.end()) return it->second;
    if (auto *c = L::dyn_cast<L::Constant>(v)) { vector<i32> r; for (V &x : constVals(c)) r.push_back(addConst(W.F, x)); W.vm[v] = r; return r; }
    if (L::isa<L::MetadataAsValue>(v)) return {};
    throw Unsupported("operand not yet lowered");
  }
  i32 slot(Fn *F) { return F->nslots++; }
  Ins &emit(Fn *F, Op op, const L::Instruction *src) { F->code.push_back(Ins{}); Ins &i = F->code.back(); i.op = op; i.src = src; return i; }
  u32 mkEdge(Low &W, const L::BasicBlock *, const L::BasicBlock *to) { Edge e; e.bb = to; e.target = 0; W.F->edges.push_back(e); return W.F->edges.size() - 1; }
  // split/merge bits for bitcasts
  vector<i32> bitcast(Low &W, const vector<i32> &s, const vector<Fl> &st, const vector<Fl> &dt, const L::Instruction *src) {
    Fn *F = W.F;
    if (st.size() == dt.size()) return s;
    vector<i32> r;
    if (st.size() > dt.size()) { // merge
      unsigned per = st.size() / dt.size(), sw = st[0].w, dw = dt[0].w;
      for (unsigned d = 0; d < dt.size(); d++) { Ins &i = emit(F, O_INTR, src); i.k = 'M'; i.w = dw; i.w2 = sw; i.n = per; i.x = F->pool.size(); i.dst = slot(F); for (unsigned j = 0; j < per; j++) F->pool.push_back(s[d * per + j]); r.push_back(i.dst); }
    } else {
      unsigned per = dt.size() / st.size(), sw = st[0].w, dw = dt[0].w;
      for (unsigned k = 0; k < st.size(); k++) for (unsigned j = 0; j < per; j++) { Ins &i = emit(F, O_INTR, src); i.k = 'X'; i.w = dw; i.w2 = sw; i.imm = j * dw; i.a = s[k]; i.dst = slot(F); r.push_back(i.dst); }
    }
    return r;
  }
  void lower(Fn *F) {
    if (F->lowered) return; F->lowered = true;
    if (auto err = F->f->materialize()) { throw Unsupported("materialize"); }
    Low W; W.F = F; L::Function &f = *F->f;
    if (f.isVarArg()) throw Unsupported("vararg function body");
    for (auto &a : f.args()) { if (a.hasByValAttr()) throw Unsupported("byval"); vector<i32> v; for (size_t i = 0; i < fl(a.getType()).size(); i++) v.push_back(slot(F)); W.vm[&a] = v; }
    for (auto &x : fl(f.getReturnType())) F->retw.push_back(x.w); F->nret = F->retw.size();
    L::ReversePostOrderTraversal<L::Function *> rpo(&f);
    for (auto *bb : rpo) for (auto &phi : bb->phis()) { vector<i32> v; for (size_t i = 0; i < fl(phi.getType()).size(); i++) v.push_back(slot(F)); W.vm[&phi] = v; }
    std::unordered_map<const L::BasicBlock *, u32> start; vector<std::pair<u32, std::pair<const L::BasicBlock *, const L::BasicBlock *>>> fix;
    auto edge = [&](const L::BasicBlock *from, const L::BasicBlock *to) { u32 e = mkEdge(W, from, to); fix.push_back({e, {from, to}}); return e; };
    for (auto *bb : rpo) {
      start[bb] = F->code.size();
      for (auto &I : *bb) { size_t c0 = F->code.size();
        try { lowerIns(W, I, edge); } catch (Unsupported &u) { F->code.resize(c0); Ins &i = emit(F, O_UNSUP, &I); string s; L::raw_string_ostream os(s); I.print(os); F->msgs.push_back(string(u.what()) + " @ " + s); i.imm = F->msgs.size() - 1;
          vector<i32> v; try { for (size_t q = 0; q < fl(I.getType()).size(); q++) v.push_back(slot(F)); } catch (Unsupported &) {} W.vm[&I] = v; if (I.isTerminator()) { } } }
    }
    for (auto &p : fix) { Edge &e = F->edges[p.first]; e.target = start[p.second.second];
      for (auto &phi : p.second.second->phis()) { auto s = ops(W, phi.getIncomingValueForBlock(p.second.first)); auto d = W.vm[&phi]; for (size_t i = 0; i < d.size(); i++) if (d[i] != s[i]) e.mv.push_back({(u32)d[i], s[i]}); } }
  }
  template <class EF> void lowerIns(Low &W, L::Instruction &I, EF edge) {
    Fn *F = W.F; L::Type *T = I.getType();
    auto newv = [&](size_t n) { vector<i32> v; for (size_t i = 0; i < n; i++) v.push_back(slot(F)); return v; };
    if (L::isa<L::PHINode>(I)) return;
    if (auto *b = L::dyn_cast<L::BinaryOperator>(&I)) {
      auto x = ops(W, b->getOperand(0)), y = ops(W, b->getOperand(1)); auto t = fl(T); auto d = newv(t.size());
      for (size_t i = 0; i < d.size(); i++) {
        Kind k; bool fp = false;
        switch (b->getOpcode()) {
          case L::Instruction::Add: k = K_ADD; break; case L::Instruction::Sub: k = K_SUB; break; case L::Instruction::Mul: k = K_MUL; break;
          case L::Instruction::UDiv: k = K_UDIV; break; case L::Instruction::SDiv: k = K_SDIV; break; case L::Instruction::URem: k = K_UREM; break; case L::Instruction::SRem: k = K_SREM; break;
          case L::Instruction::And: k = K_AND; break; case L::Instruction::Or: k = K_OR; break; case L::Instruction::Xor: k = K_XOR; break;
          case L::Instruction::Shl: k = K_SHL; break; case L::Instruction::LShr: k = K_LSHR; break; case L::Instruction::AShr: k = K_ASHR; break;
          case L::Instruction::FAdd: k = K_FADD; fp = true; break; case L::Instruction::FSub: k = K_FSUB; fp = true; break; case L::Instruction::FMul: k = K_FMUL; fp = true; break; case L::Instruction::FDiv: k = K_FDIV; fp = true; break;
          default: throw Unsupported("binop");
        }
        Ins &n = emit(F, fp ? O_FBIN : O_BIN, &I); n.k = k; n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.dst = d[i];
      }
      W.vm[&I] = d; return;
    }
    if (auto *u = L::dyn_cast<L::UnaryOperator>(&I)) { auto x = ops(W, u->getOperand(0)); auto t = fl(T); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_F1, &I); n.k = K_FNEG; n.w = n.w2 = t[i].w; n.a = x[i]; n.dst = d[i]; } W.vm[&I] = d; return; }
    if (auto *c = L::dyn_cast<L::CmpInst>(&I)) {
      auto x = ops(W, c->getOperand(0)), y = ops(W, c->getOperand(1)); auto t = fl(c->getOperand(0)->getType()); auto d = newv(t.size());
      for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, L::isa<L::ICmpInst>(c) ? O_ICMP : O_FCMP, &I); n.k = c->getPredicate(); n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.dst = d[i]; }
      W.vm[&I] = d; return;
    }
    if (auto *c = L::dyn_cast<L::CastInst>(&I)) {
      auto x = ops(W, c->getOperand(0)); auto s = fl(c->getOperand(0)->getType()), t = fl(T);
      switch (c->getOpcode()) {
        case L::Instruction::BitCast: W.vm[&I] = bitcast(W, x, s, t, &I); return;
        case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast: if (s[0].w == t[0].w) { W.vm[&I] = x; return; } break;
        default: break;
      }
      auto d = newv(t.size());
      for (size_t i = 0; i < d.size(); i++) {
        Op op; u8 k = 0;
        switch (c->getOpcode()) {
          case L::Instruction::Trunc: op = O_TRUNC; break; case L::Instruction::ZExt: op = O_ZEXT; break; case L::Instruction::SExt: op = O_SEXT; break;
          case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: op = t[i].w < s[i].w ? O_TRUNC : O_ZEXT; break;
          case L::Instruction::FPExt: op = O_F1; k = K_FPEXT; break; case L::Instruction::FPTrunc: op = O_F1; k = K_FPTRUNC; break;
          case L::Instruction::FPToSI: op = O_FTOI; k = 1; break; case L::Instruction::FPToUI: op = O_FTOI; k = 0; break;
          case L::Instruction::SIToFP: op = O_ITOF; k = 1; break; case L::Instruction::UIToFP: op = O_ITOF; k = 0; break;
          default: throw Unsupported("cast");
        }
        Ins &n = emit(F, op, &I); n.k = k; n.w = t[i].w; n.w2 = s[i].w; n.a = x[i]; n.dst = d[i];
      }
      W.vm[&I] = d; return;
    }
    switch (I.getOpcode()) {
      case L::Instruction::Freeze: W.vm[&I] = ops(W, I.getOperand(0)); return;
      case L::Instruction::Select: {
        auto c = ops(W, I.getOperand(0)), x = ops(W, I.getOperand(1)), y = ops(W, I.getOperand(2)); auto t = fl(T); auto d = newv(t.size());
        for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_SELECT, &I); n.w = t[i].w; n.a = c.size() == d.size() && L::isa<L::VectorType>(I.getOperand(0)->getType()) ? c[i] : c[0]; n.b = x[i]; n.c = y[i]; n.dst = d[i]; }
        W.vm[&I] = d; return; }
      case L::Instruction::ExtractValue: { auto *e = L::cast<L::ExtractValueInst>(&I); auto x = ops(W, e->getAggregateOperand()); auto [o, n] = aggIdx(e->getAggregateOperand()->getType(), e->getIndices()); W.vm[&I] = vector<i32>(x.begin() + o, x.begin() + o + n); return; }
      case L::Instruction::InsertValue: { auto *e = L::cast<L::InsertValueInst>(&I); auto x = ops(W, e->getAggregateOperand()), y = ops(W, e->getInsertedValueOperand()); auto [o, n] = aggIdx(T, e->getIndices()); for (unsigned i = 0; i < n; i++) x[o + i] = y[i]; W.vm[&I] = x; return; }
      case L::Instruction::ExtractElement: { auto x = ops(W, I.getOperand(0)); auto *ci = L::dyn_cast<L::ConstantInt>(I.getOperand(1)); if (!ci) throw Unsupported("extractelement"); W.vm[&I] = {x[ci->getZExtValue()]}; return; }
      case L::Instruction::InsertElement: { auto x = ops(W, I.getOperand(0)); auto y = ops(W, I.getOperand(1)); auto *ci = L::dyn_cast<L::ConstantInt>(I.getOperand(2)); if (!ci) throw Unsupported("insertelement"); x[ci->getZExtValue()] = y[0]; W.vm[&I] = x; return; }
      case L::Instruction::ShuffleVector: { auto *s = L::cast<L::ShuffleVectorInst>(&I); auto x = ops(W, s->getOperand(0)), y = ops(W, s->getOperand(1)); vector<i32> r; for (int m : s->getShuffleMask()) r.push_back(m < 0 ? x[0] : (size_t)m < x.size() ? x[m] : y[m - x.size()]); W.vm[&I] = r; return; }
      case L::Instruction::Alloca: { auto *a = L::cast<L::AllocaInst>(&I); auto *n = L::dyn_cast<L::ConstantInt>(a->getArraySize()); if (!n) throw Unsupported("dynamic alloca"); Ins &i = emit(F, O_ALLOCA, &I); i.imm = DL->getTypeAllocSize(a->getAllocatedType()) * n->getZExtValue(); i.dst = slot(F); W.vm[&I] = {(i32)i.dst}; return; }
      case L::Instruction::Load: { auto p = ops(W, I.getOperand(0)); auto t = fl(T); chkVec(T); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_LOAD, &I); n.w = t[i].w; n.imm = t[i].off; n.a = p[0]; n.dst = d[i]; } W.vm[&I] = d; return; }
      case L::Instruction::Store: { auto v = ops(W, I.getOperand(0)); auto p = ops(W, I.getOperand(1)); auto t = fl(I.getOperand(0)->getType()); chkVec(I.getOperand(0)->getType()); for (size_t i = 0; i < t.size(); i++) { Ins &n = emit(F, O_STORE, &I); n.w = t[i].w; n.imm = t[i].off; n.a = p[0]; n.b = v[i]; } return; }
      case L::Instruction::GetElementPtr: {
        auto *g = L::cast<L::GetElementPtrInst>(&I); if (L::isa<L::VectorType>(T)) throw Unsupported("vector gep");
        L::MapVector<L::Value *, L::APInt> vo; L::APInt co(64, 0); if (!g->collectOffset(*DL, 64, vo, co)) throw Unsupported("gep");
        auto p = ops(W, g->getPointerOperand()); vector<i32> pl; for (auto &kv : vo) { auto o = ops(W, kv.first); unsigned w = DL->getTypeSizeInBits(kv.first->getType()); pl.push_back(o[0]); pl.push_back(w); pl.push_back(addConst(F, cv(kv.second.getZExtValue()))); }
        Ins &n = emit(F, O_GEP, &I); n.a = p[0]; n.imm = co.getZExtValue(); n.x = F->pool.size(); n.n = pl.size() / 3; n.dst = slot(F); F->pool.insert(F->pool.end(), pl.begin(), pl.end()); W.vm[&I] = {(i32)n.dst}; return; }
      case L::Instruction::Br: { auto *b = L::cast<L::BranchInst>(&I); if (b->isUnconditional()) { u32 e = edge(I.getParent(), b->getSuccessor(0)); Ins &n = emit(F, O_BR, &I); n.x = e; } else { auto c = ops(W, b->getCondition()); u32 e1 = edge(I.getParent(), b->getSuccessor(0)), e2 = edge(I.getParent(), b->getSuccessor(1)); Ins &n = emit(F, O_CBR, &I); n.a = c[0]; n.x = e1; n.n = e2; } return; }
      case L::Instruction::Switch: { auto *s = L::cast<L::SwitchInst>(&I); auto c = ops(W, s->getCondition()); vector<i32> pl; for (auto &k : s->cases()) { pl.push_back(addConst(F, constVals(k.getCaseValue())[0])); pl.push_back(edge(I.getParent(), k.getCaseSuccessor())); } u32 de = edge(I.getParent(), s->getDefaultDest()); Ins &n = emit(F, O_SWITCH, &I); n.a = c[0]; n.w = DL->getTypeSizeInBits(s->getCondition()->getType()); n.x = F->pool.size(); n.n = pl.size() / 2; n.imm = de; F->pool.insert(F->pool.end(), pl.begin(), pl.end()); return; }
      case L::Instruction::Ret: { vector<i32> r; if (I.getNumOperands()) r = ops(W, I.getOperand(0)); Ins &n = emit(F, O_RET, &I); n.x = F->pool.size(); n.n = r.size(); F->pool.insert(F->pool.end(), r.begin(), r.end()); return; }
      case L::Instruction::Unreachable: case L::Instruction::Resume: emit(F, O_UNREACHABLE, &I); return;
      case L::Instruction::LandingPad: { W.vm[&I] = newv(fl(T).size()); return; }
      case L::Instruction::Fence: return;
      case L::Instruction::AtomicRMW: { auto *r = L::cast<L::AtomicRMWInst>(&I); auto p = ops(W, r->getPointerOperand()), v = ops(W, r->getValOperand()); Ins &n = emit(F, O_RMW, &I); n.k = r->getOperation(); n.w = fl(T)[0].w; n.a = p[0]; n.b = v[0]; n.dst = slot(F); W.vm[&I] = {(i32)n.dst}; return; }
      case L::Instruction::AtomicCmpXchg: { auto *r = L::cast<L::AtomicCmpXchgInst>(&I); auto p = ops(W, r->getPointerOperand()), c = ops(W, r->getCompareOperand()), v = ops(W, r->getNewValOperand()); auto t = fl(T); Ins &n = emit(F, O_CMPXCHG, &I); n.w = t[0].w; n.a = p[0]; n.b = c[0]; n.c = v[0]; n.dst = slot(F); slot(F); W.vm[&I] = {(i32)n.dst, (i32)n.dst + 1}; return; }
      case L::Instruction::Call: case L::Instruction::Invoke: lowerCall(W, *L::cast<L::CallBase>(&I), edge); return;
      default: throw Unsupported(string("opcode ") + I.getOpcodeName());
    }
  }
  void chkVec(L::Type *t) { if (auto *v = L::dyn_cast<L::FixedVectorType>(t)) if (DL->getTypeSizeInBits(v->getElementType()) % 8) throw Unsupported("bit vector in memory"); }
  std::pair<unsigned, unsigned> aggIdx(L::Type *t, L::ArrayRef<unsigned> idx) {
    unsigned o = 0; for (unsigned i : idx) { if (auto *s = L::dyn_cast<L::StructType>(t)) { for (unsigned j = 0; j < i; j++) o += fl(s->getElementType(j)).size(); t = s->getElementType(i); } else { auto *a = L::cast<L::ArrayType>(t); o += i * fl(a->getElementType()).size(); t = a->getElementType(); } }
    return {o, (unsigned)fl(t).size()};
  }
  template <class EF> void lowerCall(Low &W, L::CallBase &C, EF edge) {
    Fn *F = W.F; L::Type *T = C.getType(); auto t = fl(T);
    auto fin = [&] { if (auto *iv = L::dyn_cast<L::InvokeInst>(&C)) { u32 e = edge(C.getParent(), iv->getNormalDest()); Ins &n = emit(F, O_BR, &C); n.x = e; } };
    auto newv = [&](size_t n) { vector<i32> v; for (size_t i = 0; i < n; i++) v.push_back(slot(F)); return v; };
    if (C.isInlineAsm()) { auto *ia = L::cast<L::InlineAsm>(C.getCalledOperand()); if (ia->getAsmString().empty()) { auto d = newv(t.size()); if (d.size() == 1 && C.arg_size() >= 1) { W.vm[&C] = ops(W, C.getArgOperand(0)); } else W.vm[&C] = d; fin(); return; } 
      if (ia->getAsmString().find("cpuid") != string::npos) { vector<i32> d; for (auto &x : t) { (void)x; d.push_back(addConst(F, V{})); } W.vm[&C] = d; fin(); return; }
      throw Unsupported("inline asm " + ia->getAsmString()); }
    L::Function *cf = C.getCalledFunction();
    if (!cf) if (auto *a = L::dyn_cast<L::GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) cf = L::dyn_cast<L::Function>(a->getAliaseeObject());
    vector<i32> args; vector<u16> aw;
    if (cf && cf->isIntrinsic()) {
      using L::Intrinsic::ID; auto id = cf->getIntrinsicID(); auto A = [&](unsigned i) { return ops(W, C.getArgOperand(i)); };
      auto at = [&](unsigned i) { return fl(C.getArgOperand(i)->getType()); };
      switch (id) {
        case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value: case L::Intrinsic::prefetch: case L::Intrinsic::x86_sse2_pause: return;
        case L::Intrinsic::assume: return;
        case L::Intrinsic::expect: case L::Intrinsic::threadlocal_address: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::ptrmask: if (id == L::Intrinsic::ptrmask) break; W.vm[&C] = A(0); return;
        case L::Intrinsic::is_constant: { W.vm[&C] = {addConst(F, V{})}; return; }
        case L::Intrinsic::objectsize: { W.vm[&C] = {addConst(F, cv(~(u64)0))}; return; }
        case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: { Ins n; n.op = O_INTR; n.k = 'C'; n.src = &C; n.a = A(0)[0]; n.b = A(1)[0]; n.c = A(2)[0]; n.w = at(2)[0].w; F->code.push_back(n); return; }
        case L::Intrinsic::memset: { Ins n; n.op = O_INTR; n.k = 'S'; n.src = &C; n.a = A(0)[0]; n.b = A(1)[0]; n.c = A(2)[0]; n.w = at(2)[0].w; F->code.push_back(n); return; }
        case L::Intrinsic::umax: case L::Intrinsic::umin: case L::Intrinsic::smax: case L::Intrinsic::smin: {
          auto x = A(0), y = A(1); auto d = newv(t.size()); unsigned pr = id == L::Intrinsic::umax ? L::CmpInst::ICMP_UGT : id == L::Intrinsic::umin ? L::CmpInst::ICMP_ULT : id == L::Intrinsic::smax ? L::CmpInst::ICMP_SGT : L::CmpInst::ICMP_SLT;
          for (size_t i = 0; i < d.size(); i++) { u32 tmp = slot(F); { Ins &n = emit(F, O_ICMP, &C); n.k = pr; n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.dst = tmp; } Ins &n = emit(F, O_SELECT, &C); n.w = t[i].w; n.a = tmp; n.b = x[i]; n.c = y[i]; n.dst = d[i]; }
          W.vm[&C] = d; return; }
        case L::Intrinsic::uadd_with_overflow: case L::Intrinsic::usub_with_overflow: case L::Intrinsic::umul_with_overflow: case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: case L::Intrinsic::smul_with_overflow: {
          Ins n; n.op = O_OVF; n.src = &C; n.w = t[0].w; n.a = A(0)[0]; n.b = A(1)[0]; n.dst = slot(F); slot(F);
          n.k = id == L::Intrinsic::uadd_with_overflow ? 0 : id == L::Intrinsic::usub_with_overflow ? 1 : id == L::Intrinsic::umul_with_overflow ? 2 : id == L::Intrinsic::sadd_with_overflow ? 3 : id == L::Intrinsic::ssub_with_overflow ? 4 : 5; if (t.size() != 2) throw Unsupported("vector overflow op");
          F->code.push_back(n); W.vm[&C] = {(i32)n.dst, (i32)n.dst + 1}; return; }
        case L::Intrinsic::uadd_sat: case L::Intrinsic::usub_sat: { auto x = A(0), y = A(1); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_SAT, &C); n.k = id == L::Intrinsic::usub_sat; n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.dst = d[i]; } W.vm[&C] = d; return; }
        case L::Intrinsic::ctlz: case L::Intrinsic::cttz: case L::Intrinsic::ctpop: case L::Intrinsic::bswap: case L::Intrinsic::abs: { auto x = A(0); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_INTR, &C); n.k = id == L::Intrinsic::ctlz ? 'l' : id == L::Intrinsic::cttz ? 't' : id == L::Intrinsic::ctpop ? 'p' : id == L::Intrinsic::bswap ? 'b' : 'a'; n.w = t[i].w; n.a = x[i]; n.dst = d[i]; } W.vm[&C] = d; return; }
        case L::Intrinsic::fshl: case L::Intrinsic::fshr: { auto x = A(0), y = A(1), z = A(2); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_INTR, &C); n.k = id == L::Intrinsic::fshl ? 'f' : 'g'; n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.c = z[i]; n.dst = d[i]; } W.vm[&C] = d; return; }
        case L::Intrinsic::fabs: case L::Intrinsic::floor: case L::Intrinsic::ceil: case L::Intrinsic::trunc: case L::Intrinsic::round: case L::Intrinsic::rint: case L::Intrinsic::nearbyint: case L::Intrinsic::sqrt: { auto x = A(0); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_F1, &C); n.k = id == L::Intrinsic::fabs ? K_FABS : id == L::Intrinsic::sqrt ? K_FSQRT : K_FRND; n.imm = id == L::Intrinsic::floor ? 0 : id == L::Intrinsic::ceil ? 1 : id == L::Intrinsic::trunc ? 2 : id == L::Intrinsic::round ? 3 : 4; n.w = n.w2 = t[i].w; n.a = x[i]; n.dst = d[i]; } W.vm[&C] = d; return; }
        case L::Intrinsic::minnum: case L::Intrinsic::maxnum: { auto x = A(0), y = A(1); auto d = newv(t.size()); for (size_t i = 0; i < d.size(); i++) { Ins &n = emit(F, O_FBIN, &C); n.k = id == L::Intrinsic::minnum ? K_FMIN : K_FMAX; n.w = t[i].w; n.a = x[i]; n.b = y[i]; n.dst = d[i]; } W.vm[&C] = d; return; }
        case L::Intrinsic::copysign: { throw Unsupported("copysign"); }
        case L::Intrinsic::fptosi_sat: case L::Intrinsic::fptoui_sat: { Ins n; n.op = O_FTOI; n.src = &C; n.k = id == L::Intrinsic::fptosi_sat; n.w = t[0].w; n.w2 = at(0)[0].w; n.a = A(0)[0]; n.dst = slot(F); F->code.push_back(n); W.vm[&C] = {(i32)n.dst}; return; }
        case L::Intrinsic::pow: case L::Intrinsic::powi: { Ins n; n.op = O_INTR; n.src = &C; n.k = 'P'; n.w = t[0].w; n.a = A(0)[0]; n.b = A(1)[0]; n.dst = slot(F); F->code.push_back(n); W.vm[&C] = {(i32)n.dst}; return; }
        case L::Intrinsic::vector_reduce_add: case L::Intrinsic::vector_reduce_or: case L::Intrinsic::vector_reduce_and: { auto x = A(0); i32 acc = x[0]; for (size_t i = 1; i < x.size(); i++) { Ins &n = emit(F, O_BIN, &C); n.k = id == L::Intrinsic::vector_reduce_add ? K_ADD : id == L::Intrinsic::vector_reduce_or ? K_OR : K_AND; n.w = t[0].w; n.a = acc; n.b = x[i]; n.dst = slot(F); acc = n.dst; } W.vm[&C] = {acc}; return; }
        case L::Intrinsic::load_relative: { Ins n; n.op = O_INTR; n.src = &C; n.k = 'R'; n.w = 64; n.a = A(0)[0]; n.b = A(1)[0]; n.dst = slot(F); F->code.push_back(n); W.vm[&C] = {(i32)n.dst}; return; }
        case L::Intrinsic::trap: case L::Intrinsic::ubsantrap: emit(F, O_UNREACHABLE, &C); return;
        default: break;
      }
      throw Unsupported("intrinsic " + cf->getName().str());
    }
    for (auto &a : C.args()) { auto v = ops(W, a.get()); args.insert(args.end(), v.begin(), v.end()); for (auto &x : fl(a->getType())) aw.push_back(x.w); }
    i32 callee = 0; if (!cf) callee = ops(W, C.getCalledOperand())[0];
    auto d = newv(t.size());
    Ins n; n.src = &C; n.x = F->pool.size(); n.n = args.size(); n.dst = d.empty() ? 0 : d[0]; n.w2 = t.size();
    if (cf) { n.op = O_CALL; n.imm = fnIdx[cf]; if (fns[n.imm]->handler >= 0) n.op = O_HANDLER; } else { n.op = O_ICALL; n.a = callee; }
    F->pool.insert(F->pool.end(), args.begin(), args.end()); for (u16 w : aw) F->pool.push_back(w);
    F->code.push_back(n); W.vm[&C] = d; fin();
  }
#include "exec.inc"
};

int main(int argc, char **argv) {
  Engine En; string mod, fn, out; 
  { struct rlimit rl{(rlim_t)1 << 30, (rlim_t)1 << 30}; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < ((rlim_t)512 << 20)) { rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > ((rlim_t)1 << 30)) ? (rlim_t)1 << 30 : rl.rlim_max; if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("VSE_REEXEC")) { setenv("VSE_REEXEC", "1", 1); execv("/proc/self/exe", argv); } } }
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--fn") fn = nx(); else if (a == "--jobs") En.jobs = std::stoi(nx()); else if (a == "--out") out = nx(); else if (a == "--max-paths") En.maxPaths = std::stoull(nx()); else if (a == "--max-insts") En.maxInsts = std::stoull(nx()); else if (a == "--time") En.maxTime = std::stod(nx());
    else if (a == "--param") { string s = nx(); auto p = s.find('='); En.params[s.substr(0, p)] = std::stoull(s.substr(p + 1)); } else if (a == "--qtimeout") En.sol.timeoutMs = std::stoul(nx()); else if (a == "--trace") En.trace = true; else if (a == "--samples") En.maxSamples = std::stoul(nx()); else if (a == "--seed") En.rng = std::stoull(nx()) * 0x9E3779B97F4A7C15ull + 1;
    else if (a == "--dump-smt") { En.sol.dump = fopen(nx().c_str(), "w"); En.sol.dumpMax = 200; } else if (a == "--depth") En.maxDepth = std::stoul(nx()); else if (a == "--alloc") En.maxAlloc = std::stoull(nx()); else mod = a; }
  En.load(mod); return En.run(fn, out);
}
