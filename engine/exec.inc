  // ------------------------------------------------------------ included in struct Engine
  enum H { H_NONE = -1, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_PMEMALIGN, H_ALIGNED, H_MEMCMP, H_BCMP, H_MEMCHR, H_MEMRCHR, H_STRLEN, H_MEMCPY, H_MEMSET, H_WRITE, H_WRITEV, H_RET0, H_RETM1, H_SYSCALL, H_ABORT, H_RALLOC, H_RALLOCZ, H_RREALLOC, H_RDEALLOC, H_PANIC, H_CLOCK, H_ERRNO, H_NOP, H_GETRANDOM, H_PTHREAD_SELF, H_UNKNOWN_DECL, H_FMOD, H_POW,
    H_VU8, H_VU16, H_VU32, H_VU64, H_VBOOL, H_VRANGE, H_VINT, H_VDYADIC, H_VF32, H_VF64, H_VASSUME, H_VASSERT, H_VCOVER, H_VOBS, H_VOBSF, H_VPANICOK, H_VPARAM, H_VCONC, H_VLOG, H_VISSYM, H_VINTRANGE, H_VFAIL, H_VALLOCATED, H_VEND };
  u32 stackBase = 0, stackEnd = 0, heapBase = 0; u32 errnoId = 0; Obj *tomb = nullptr;
  int handlerFor(const string &n, bool decl) {
    static const std::map<string, int> m = {
      {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"posix_memalign", H_PMEMALIGN}, {"aligned_alloc", H_ALIGNED}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"memchr", H_MEMCHR}, {"memrchr", H_MEMRCHR}, {"strlen", H_STRLEN}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"write", H_WRITE}, {"writev", H_WRITEV},
      {"getenv", H_RET0}, {"syscall", H_SYSCALL}, {"getrandom", H_GETRANDOM}, {"abort", H_ABORT}, {"exit", H_ABORT}, {"_exit", H_ABORT}, {"__rust_alloc", H_RALLOC}, {"__rust_alloc_zeroed", H_RALLOCZ}, {"__rust_realloc", H_RREALLOC}, {"__rust_dealloc", H_RDEALLOC}, {"__rust_alloc_error_handler", H_PANIC},
      {"clock_gettime", H_CLOCK}, {"__errno_location", H_ERRNO}, {"__cxa_thread_atexit_impl", H_RET0}, {"pthread_key_create", H_RET0}, {"pthread_setspecific", H_RET0}, {"pthread_getspecific", H_RET0}, {"pthread_key_delete", H_RET0}, {"pthread_self", H_PTHREAD_SELF}, {"dlsym", H_RET0}, {"sched_yield", H_RET0}, {"fmod", H_FMOD}, {"pow", H_POW},
      {"vsym_u8", H_VU8}, {"vsym_u16", H_VU16}, {"vsym_u32", H_VU32}, {"vsym_u64", H_VU64}, {"vsym_bool", H_VBOOL}, {"vsym_range", H_VRANGE}, {"vsym_int", H_VINT}, {"vsym_dyadic", H_VDYADIC}, {"vsym_f32", H_VF32}, {"vsym_f64", H_VF64}, {"vassume", H_VASSUME}, {"vassert_", H_VASSERT}, {"vcover", H_VCOVER}, {"vobserve", H_VOBS}, {"vobserve_f32", H_VOBSF}, {"vpanic_ok", H_VPANICOK}, {"vparam_", H_VPARAM}, {"vconcrete", H_VCONC}, {"vlog_", H_VLOG}, {"vis_symbolic", H_VISSYM}, {"vint_digit", H_VINTRANGE}, {"vallocated", H_VALLOCATED}, {"vend", H_VEND}};
    auto it = m.find(n); if (it != m.end()) return it->second;
    static const char *pan[] = {"4core9panicking", "11begin_panic", "20rust_panic_with_hook", "rust_begin_unwind", "13expect_failed", "13unwrap_failed", "26slice_start_index_len_fail", "24slice_end_index_len_fail", "22slice_index_order_fail", "slice_start_index_len_fail_rt", "slice_end_index_len_fail_rt", "slice_index_order_fail_rt", "16slice_error_fail", "17capacity_overflow", "18handle_alloc_error", "17len_mismatch_fail", "22panic_already_borrowed", "30panic_already_mutably_borrowed", "begin_panic_handler", "8rust_oom", "9rust_panic17h"};
    if (n.compare(0, 3, "_ZN") == 0) { if (n.find("$u7b$$u7b$vtable") != string::npos) return H_NONE; for (auto *p : pan) if (n.find(p) != string::npos) { if (n.find("3fmt") != string::npos && n.find("panic_fmt") == string::npos) continue; return H_PANIC; } }
    if (n == "rust_begin_unwind") return H_PANIC;
    if (decl && n.compare(0, 5, "llvm.") != 0) return H_UNKNOWN_DECL;
    return H_NONE;
  }
  // ------------------------------------------------------------ helpers
  static string jesc(const string &s) { string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
  static string u2s(u128 v) { string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
  static string demang(const string &n) {
    string s = L::demangle(n); auto p = s.rfind("::h"); if (p != string::npos && s.size() - p == 19) s = s.substr(0, p);
    return s; }
  const string &pretty(Fn *f) { if (f->pretty.empty()) f->pretty = demang(f->name); return f->pretty; }
  vector<string> stackOf(State *s) { vector<string> r; for (int i = (int)s->fr.size() - 1; i >= 0 && r.size() < 25; i--) r.push_back(pretty(s->fr[i].f)); return r; }
  static std::pair<string, u128> inVal(const Input &in, const vector<u128> &m) {
    u128 v = evalE(in.e, m); if (in.name == "int" || in.name == "dyadic") v = (u64)v; return {in.name, v}; }
  void violation(const string &kind, const string &msg, const vector<u128> &m) {
    Violation v; v.kind = kind; v.msg = msg; v.stack = stackOf(S); for (auto &i : S->in) v.vals.push_back(inVal(i, m));
    string top; for (auto &f : v.stack) if (f.find("victor") != string::npos || f.find("lester") != string::npos) { top = f; break; }
    v.where = top; string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : top);
    if (++violN[key] == 1) { viols[key] = v; if (viols.size() >= stopAfter) { incomplete += "stopped after " + std::to_string(stopAfter) + " distinct violations; "; finishing = true; } }
  }
  [[noreturn]] void violEnd(const string &kind, const string &msg) { violation(kind, msg, S->model); nViolPaths++; throw PathEnd{"violation"}; }
  void addPC(State *s, E c) { if (!isC(c)) s->pc.push_back(c); }
  State *fork() { State *t = new State(*S); nForks++; if (trace) forkSites[pretty(S->fr.back().f)]++; return t; }
  // decide a symbolic condition on this path; the other feasible side is queued
  bool decide(E c) {
    if (isC(c)) return c->lo; nSymBranches++;
    E nc = bnot(c);
    bool v = evalE(c, S->model) != 0; E take = v ? c : nc, other = v ? nc : c;
    for (E p : S->pc) { if (p == take) return v; }
    vector<u128> m2 = S->model; auto r = sol.check(S->pc, other, &m2);
    if (r == Solver::UNSAT) return v;
    if (r == Solver::UNK) { incomplete += "solver gave no answer at a branch in " + pretty(S->fr.back().f) + "; "; addPC(S, take); return v; }
    State *t = fork(); t->model.swap(m2); addPC(t, other); work.push_back(t); addPC(S, take); return v;
  }
  u128 conc(const V &v, unsigned w) {
    if (!v.e) return cu(v); E e = v.e; auto it = S->eq.find(e); if (it != S->eq.end()) return it->second;
    u128 x = evalE(e, S->model); E q = mkEQ(e, bvc(x, w)); nSymBranches++;
    E nq = bnot(q);
    if (!isC(q)) { vector<u128> m2 = S->model; auto r = sol.check(S->pc, nq, &m2);
      if (r == Solver::SAT) { State *t = fork(); t->model.swap(m2); addPC(t, nq); work.push_back(t); addPC(S, q); }
      else if (r == Solver::UNK) { incomplete += "solver gave no answer at a value split in " + pretty(S->fr.back().f) + "; "; addPC(S, q); } }
    S->eq[e] = x; return x;
  }
  // ------------------------------------------------------------ memory
  u32 newHeap(u64 size, bool) { if (size > maxAlloc) throw Unsupported("allocation of " + std::to_string(size) + " bytes"); S->allocBytes += size; if (S->nextHeap == stackBase) S->nextHeap = stackEnd; u32 id = S->nextHeap++; if (id >= FUNC_ID) throw Unsupported("heap ids exhausted"); S->mem.set(id, Obj::make((u32)size, OK_HEAP)); return id; }
  u32 newStack(u64 size) { u32 id; if (!S->freeStack.empty()) { id = S->freeStack.back(); S->freeStack.pop_back(); } else { id = stackBase + S->allocas.size(); if (id >= stackEnd) violEnd("limit", "stack slots exhausted"); } S->mem.set(id, Obj::make((u32)size, OK_STACK)); S->allocas.push_back(id); return id; }
  void setTomb(u32 id) { tomb->rc++; S->mem.set(id, tomb); }
  Obj *objAt(u64 addr, u64 n, bool write, const char *what) {
    u32 id = addr >> 32, off = (u32)addr; Obj *o = S->mem.get(id);
    if (!o) violEnd("memory", string(what) + (addr < 4096 ? " through a null pointer" : " through a wild pointer"));
    if (o->kind == OK_FREED) violEnd("memory", string(what) + " after free");
    if ((u64)off + n > o->size) violEnd("memory", string(what) + " out of bounds");
    if (write && o->ro) violEnd("memory", string(what) + " to read-only data");
    return o;
  }
  V loadObj(Obj *o, u32 off, unsigned w) {
    unsigned n = (w + 7) / 8; V v;
    if (o->sym) {
      bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { any = true; break; }
      if (any) {
        E r = nullptr; SymB *s = o->sym + off;
        // runs
        unsigned i = 0;
        while (i < n) {
          unsigned j = i + 1; E piece;
          if (s[i].e) { while (j < n && s[j].e == s[i].e && s[j].i == s[i].i + (j - i)) j++; piece = mkExtract(s[i].e, 8 * (s[i].i + (j - i)) - 1, 8 * s[i].i); }
          else { while (j < n && !s[j].e) j++; u128 c = 0; memcpy(&c, o->data + off + i, j - i); piece = bvc(c, 8 * (j - i)); }
          r = r ? mkConcat(piece, r) : piece; i = j;
        }
        if (w % 8) r = mkExtract(r, w - 1, 0);
        return fromE(r);
      }
    }
    u64 x = 0; if (n <= 8) { memcpy(&x, o->data + off, n); v.lo = w < 64 ? x & (((u64)1 << w) - 1) : x; } else { memcpy(&v.lo, o->data + off, 8); memcpy(&v.hi, o->data + off + 8, n - 8); }
    return v;
  }
  void storeObj(Obj *o, u32 off, unsigned w, const V &v) {
    unsigned n = (w + 7) / 8;
    if (v.e) {
      E e = v.e; if (w % 8) e = mkZext(e, n * 8);
      if (!o->sym) o->sym = (SymB *)calloc(o->size, sizeof(SymB));
      for (unsigned i = 0; i < n; i++) o->sym[off + i] = {e, i};
    } else { u64 t[2] = {v.lo, v.hi}; memcpy(o->data + off, t, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(SymB)); }
  }
  // stride and remainder of the values of a (bit-vector) expression
  void stride(E e, u64 &st, u64 &rem) {
    st = 1; rem = 0; if (e->w > 64) return;
    if (e->k == K_ZEXT) return stride(e->a, st, rem);
    if (e->k == K_CONCAT && isC(e->b) && e->b->w < 32) { st = (u64)1 << e->b->w; rem = e->b->lo; return; }
    if (e->k == K_ADD && isC(e->b) && e->umax < ((u64)1 << 62) && e->umin >= e->b->lo) { stride(e->a, st, rem); rem = (rem + e->b->lo) % st; return; }
    if (e->k == K_MUL && isC(e->b) && e->umax < ((u64)1 << 62) && e->b->lo < (1 << 20)) { st = e->b->lo; rem = 0; return; }
    if (e->k == K_IB && e->a->imin >= 0) { E x = e->a; if (x->k == K_ILIN) { i128 g = 0; for (auto &p : x->lin) { i128 a = g < 0 ? -g : g, b = p.second < 0 ? -p.second : p.second; while (b) { i128 t = a % b; a = b; b = t; } g = a; } if (g > 0 && g < (1 << 20)) { st = (u64)g; i128 r = x->lc % g; if (r < 0) r += g; rem = (u64)r; } } }
  }
  V load(const V &p, u64 add, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!p.e) { u64 a = p.lo + add; u32 id = a >> 32, off = (u32)a; Obj *o = S->mem.get(id); if (!o || o->kind == OK_FREED || (u64)off + n > o->size) o = objAt(a, n, false, "load"); return loadObj(o, off, w); }
    E e = add ? mkBin(K_ADD, p.e, bvc(add, 64)) : p.e; auto it = S->eq.find(e); if (it != S->eq.end()) { u64 a = (u64)it->second; return loadObj(objAt(a, n, false, "load"), (u32)a, w); }
    u64 a0; Obj *o = inObject(e, n, false, "load", a0);
    E off = mkBin(K_SUB, e, bvc(a0 & ~(u64)0xffffffff, 64));
    u64 lo = off->umin, hi = std::min<u64>(off->umax, o->size - n), st, rem; stride(off, st, rem);
    if (off->umin > o->size) { lo = 0; }
    if (hi < lo) { lo = 0; hi = o->size - n; }
    u64 first = lo + ((rem + st - lo % st) % st);
    if (first <= hi && (hi - first) / st + 1 > 6 && (hi - first) / st + 1 <= 4096 && (st & (st - 1)) == 0 && rem % st == first % st && !hasIntE(off)) {
      // multiplexer over the bits of the offset
      unsigned lb = 0; while ((1ull << lb) < st) lb++; unsigned top = lb; while (top < 32 && (hi >> top)) top++;
      u64 low = first & (st - 1); bool ptr = false;
      std::function<E(unsigned, u64)> rec = [&](unsigned bit, u64 b) -> E {
        if (b + low > hi || b + (1ull << bit) - 1 < first) return nullptr;
        if (bit == lb) { V v = loadObj(o, (u32)(b + low), w); if (w == 64 && !v.e && (v.lo >> 32)) { u32 id = v.lo >> 32; if (id >= FUNC_ID || S->mem.get(id)) ptr = true; } return toE(v, w); }
        E x = rec(bit - 1, b), y = rec(bit - 1, b | 1ull << (bit - 1)); if (!x) return y; if (!y) return x; if (x == y) return x;
        return mkITE(mkEQ(mkExtract(off, bit - 1, bit - 1), bvc(1, 1)), y, x); };
      try { E r = rec(top, 0); if (r && !ptr) return fromE(r); } catch (Unsupported &) {}
    }
    if (first <= hi && (hi - first) / st + 1 <= 700) {
      vector<std::pair<V, E>> vals; bool ptr = false, bad = false; std::map<std::pair<E, u64>, size_t> idx;
      for (u64 q = first; q <= hi; q += st) {
        V v; try { v = loadObj(o, (u32)q, w); } catch (Unsupported &) { bad = true; break; }
        if (w == 64 && !v.e && (v.lo >> 32)) { u32 id = v.lo >> 32; if (id >= FUNC_ID || S->mem.get(id)) ptr = true; }
        E c = mkEQ(off, bvc(q, 64)); if (isC(c) && !c->lo) continue;
        auto key = std::make_pair(v.e, v.lo ^ (v.hi * 31)); auto it2 = idx.find(key); if (it2 == idx.end()) { idx[key] = vals.size(); vals.push_back({v, c}); } else vals[it2->second].second = bor(vals[it2->second].second, c);
      }
      if (!bad && vals.size() == 1) return vals[0].first;
      if (!bad && !ptr && !vals.empty()) {
        try { E r = toE(vals.back().first, w); for (size_t i = vals.size() - 1; i-- > 0;) r = mkITE(vals[i].second, toE(vals[i].first, w), r); return fromE(r); } catch (Unsupported &) {}
      }
    }
    u64 a = (u64)conc(fromE(e), 64); return loadObj(objAt(a, n, false, "load"), (u32)a, w);
  }
  // symbolic address: find the object under the current model, report out-of-bounds values, constrain to the object
  Obj *inObject(E e, u64 n, bool wr, const char *what, u64 &a0) {
    a0 = (u64)evalE(e, S->model); u32 id = a0 >> 32; Obj *o = objAt(a0, n, wr, what);
    E inb = mkCmp(K_ULE, mkBin(K_SUB, e, bvc((u64)id << 32, 64)), bvc(o->size - n, 64));
    if (!isC(inb)) {
      bool known = false; for (E p : S->pc) if (p == inb) known = true;
      if (!known) {
        vector<u128> m2 = S->model; auto r = sol.check(S->pc, bnot(inb), &m2);
        if (r == Solver::SAT) { State *t = fork(); t->model.swap(m2); addPC(t, bnot(inb)); work.push_back(t); addPC(S, inb); }
        else if (r == Solver::UNK) { incomplete += "solver gave no answer at a bounds check; "; addPC(S, inb); }
        else S->pc.push_back(inb);
      }
    }
    return o;
  }
  void store(const V &p, u64 add, unsigned w, const V &v) {
    unsigned n = (w + 7) / 8; u64 a;
    if (!p.e) a = p.lo + add; else { E e = add ? mkBin(K_ADD, p.e, bvc(add, 64)) : p.e; a = (u64)conc(fromE(e), 64); }
    u32 id = a >> 32, off = (u32)a; Obj *o = objAt(a, n, true, "store"); if (o->rc > 1 || S->mem.t[id >> 8]->rc > 1) o = S->mem.wget(id); storeObj(o, off, w, v);
  }
  V byteAt(u64 a) { return loadObj(objAt(a, 1, false, "load"), (u32)a, 8); }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return; Obj *so = objAt(s, n, false, "copy read"); objAt(d, n, true, "copy write"); u32 did = d >> 32; Obj *o = S->mem.wget(did); so = S->mem.get(s >> 32); u32 so_ = (u32)s, d_ = (u32)d;
    memmove(o->data + d_, so->data + so_, n);
    bool any = false; if (so->sym) for (u64 i = 0; i < n; i++) if (so->sym[so_ + i].e) { any = true; break; }
    if (any) { if (!o->sym) { o->sym = (SymB *)calloc(o->size, sizeof(SymB)); } memmove(o->sym + d_, so->sym + so_, n * sizeof(SymB)); }
    else if (o->sym) memset(o->sym + d_, 0, n * sizeof(SymB));
  }
  string readStr(u64 p, u64 n) { string r; if (n > 4000) n = 4000; u32 id = p >> 32; Obj *o = S->mem.get(id); if (!o || (u64)(u32)p + n > o->size) return "<?>"; for (u64 i = 0; i < n; i++) r += (o->sym && o->sym[(u32)p + i].e) ? '?' : (char)o->data[(u32)p + i]; return r; }
  bool rawWord(u64 a, u64 &v) { Obj *o = S->mem.get(a >> 32); if (!o || o->kind == OK_FREED || (u64)(u32)a + 8 > o->size) return false; if (o->sym) for (int i = 0; i < 8; i++) if (o->sym[(u32)a + i].e) return false; memcpy(&v, o->data + (u32)a, 8); return true; }
  bool strAt(u64 a, string &s) { u64 p, n; if (!rawWord(a, p) || !rawWord(a + 8, n) || n > 2000) return false; Obj *o = S->mem.get(p >> 32); if (!o || o->kind != OK_GLOBAL || (u64)(u32)p + n > o->size) return false; s = readStr(p, n); for (char ch : s) if ((unsigned char)ch < 32 && ch != '\n') return false; return true; }
  void panic(Fn *callee, const vector<V> &args) {
    string loc, msg; 
    for (auto &a : args) if (!a.e && (a.lo >> 32)) { Obj *o = S->mem.get(a.lo >> 32); if (!o) continue; string f;
        if (o->kind == OK_GLOBAL && o->ro && strAt(a.lo, f) && f.size() > 3 && f.substr(f.size() - 3) == ".rs") { u64 lc; rawWord(a.lo + 16, lc); loc = f + ":" + std::to_string((u32)lc); auto p = loc.find("/repo/"); if (p != string::npos) loc = loc.substr(p + 6); } }
    if (args.size() >= 2 && !args[0].e && !args[1].e && args[1].lo < 2000) { Obj *o = S->mem.get(args[0].lo >> 32); if (o && o->kind == OK_GLOBAL && (u64)(u32)args[0].lo + args[1].lo <= o->size) msg = readStr(args[0].lo, args[1].lo); }
    if (msg.empty()) for (auto &a : args) if (!a.e && (a.lo >> 32)) { Obj *o = S->mem.get(a.lo >> 32); if (!o || o->size < 32) continue;
        for (u32 i = 0; i + 8 <= o->size && i < 64 && msg.empty(); i += 8) { u64 p; string s; if (rawWord((a.lo & ~(u64)0xffffffff) + (u32)a.lo + i, p) && (p >> 32) && strAt(p, s) && s.size() > 1 && s.find(".rs") == string::npos) msg = s; } if (!msg.empty()) break; }
    string fn = pretty(callee); auto p = fn.rfind("::"); if (p != string::npos) fn = fn.substr(p + 2);
    if (S->panicOk) { nPanicOk++; throw PathEnd{"panic allowed"}; }
    violEnd("panic", (msg.empty() ? fn : msg) + " at " + (loc.empty() ? "?" : loc));
  }
  void newInput(const char *nm, E e, E leaf) { sol.regVar(leaf); S->in.push_back({nm, e}); }
  // ------------------------------------------------------------ instruction helpers
  E icmpE(unsigned p, E a, E b) {
    switch (p) { case L::CmpInst::ICMP_EQ: return mkEQ(a, b); case L::CmpInst::ICMP_NE: return bnot(mkEQ(a, b)); case L::CmpInst::ICMP_ULT: return mkCmp(K_ULT, a, b); case L::CmpInst::ICMP_ULE: return mkCmp(K_ULE, a, b); case L::CmpInst::ICMP_UGT: return mkCmp(K_ULT, b, a); case L::CmpInst::ICMP_UGE: return mkCmp(K_ULE, b, a); case L::CmpInst::ICMP_SLT: return mkCmp(K_SLT, a, b); case L::CmpInst::ICMP_SLE: return mkCmp(K_SLE, a, b); case L::CmpInst::ICMP_SGT: return mkCmp(K_SLT, b, a); default: return mkCmp(K_SLE, b, a); }
  }
  E fcmpE(unsigned p, E a, E b) {
    switch (p) {
      case L::CmpInst::FCMP_FALSE: return bconst(false); case L::CmpInst::FCMP_TRUE: return bconst(true);
      case L::CmpInst::FCMP_OEQ: return mkFCmp(K_FOEQ, a, b); case L::CmpInst::FCMP_OLT: return mkFCmp(K_FOLT, a, b); case L::CmpInst::FCMP_OLE: return mkFCmp(K_FOLE, a, b); case L::CmpInst::FCMP_OGT: return mkFCmp(K_FOLT, b, a); case L::CmpInst::FCMP_OGE: return mkFCmp(K_FOLE, b, a);
      case L::CmpInst::FCMP_UNO: return mkFCmp(K_FUNO, a, b); case L::CmpInst::FCMP_ORD: return bnot(mkFCmp(K_FUNO, a, b));
      case L::CmpInst::FCMP_UNE: return bnot(mkFCmp(K_FOEQ, a, b)); case L::CmpInst::FCMP_ONE: return band(bnot(mkFCmp(K_FOEQ, a, b)), bnot(mkFCmp(K_FUNO, a, b))); case L::CmpInst::FCMP_UEQ: return bor(mkFCmp(K_FOEQ, a, b), mkFCmp(K_FUNO, a, b));
      case L::CmpInst::FCMP_ULT: return bnot(mkFCmp(K_FOLE, b, a)); case L::CmpInst::FCMP_ULE: return bnot(mkFCmp(K_FOLT, b, a)); case L::CmpInst::FCMP_UGT: return bnot(mkFCmp(K_FOLE, a, b)); case L::CmpInst::FCMP_UGE: return bnot(mkFCmp(K_FOLT, a, b));
      default: throw Unsupported("fcmp"); }
  }
  static bool icmpC(unsigned p, u128 a, u128 b, unsigned w) { i128 sa, sb; if (p >= L::CmpInst::ICMP_SGT) { sa = sextw(a, w); sb = sextw(b, w); }
    switch (p) { case L::CmpInst::ICMP_EQ: return a == b; case L::CmpInst::ICMP_NE: return a != b; case L::CmpInst::ICMP_ULT: return a < b; case L::CmpInst::ICMP_ULE: return a <= b; case L::CmpInst::ICMP_UGT: return a > b; case L::CmpInst::ICMP_UGE: return a >= b; case L::CmpInst::ICMP_SLT: return sa < sb; case L::CmpInst::ICMP_SLE: return sa <= sb; case L::CmpInst::ICMP_SGT: return sa > sb; default: return sa >= sb; } }
  void ovf(unsigned k, E a, E b, unsigned w, E &r, E &o) {
    E x, y; bool sg = k >= 3; unsigned op = k % 3;
    bool ib = w <= 64 && (a->k == K_IB || b->k == K_IB) && toInt(a, x) && toInt(b, y);
    if (ib) {
      x = sg ? asSig(x, w) : asUns(x, w); y = sg ? asSig(y, w) : asUns(y, w); E e = op == 0 ? iadd(x, y) : op == 1 ? isub(x, y) : imul(x, y);
      i128 lo = sg ? -((i128)1 << (w - 1)) : 0, hi = sg ? ((i128)1 << (w - 1)) - 1 : (i128)maskw(w);
      o = bor(ile0(iadd(e, iconst(1 - lo))), ile0(isub(iconst(hi + 1), e))); r = mkBin(op == 0 ? K_ADD : op == 1 ? K_SUB : K_MUL, a, b); return;
    }
    r = mkBin(op == 0 ? K_ADD : op == 1 ? K_SUB : K_MUL, a, b);
    if (!sg) {
      if (op == 0) { if (w <= 64 && (u128)a->umax + b->umax <= maskw(w)) o = bconst(false); else o = mkCmp(K_ULT, r, isC(b) ? b : a); }
      else if (op == 1) o = mkCmp(K_ULT, a, b);
      else { if (w <= 64 && (u128)a->umax * b->umax <= maskw(w)) o = bconst(false);
        else if (isC(b) && cval(b)) o = mkCmp(K_ULT, bvc(maskw(w) / cval(b), w), a); else if (isC(a) && cval(a)) o = mkCmp(K_ULT, bvc(maskw(w) / cval(a), w), b);
        else if (w <= 64) o = bnot(mkEQ(mkExtract(mkBin(K_MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)), 2 * w - 1, w), bvc(0, w))); else throw Unsupported("wide umul overflow"); }
    } else {
      unsigned ww = op == 2 ? 2 * w : w + 1; if (ww > 128) throw Unsupported("wide signed overflow"); E e = mkBin(op == 0 ? K_ADD : op == 1 ? K_SUB : K_MUL, mkSext(a, ww), mkSext(b, ww)); o = bnot(mkEQ(mkSext(mkExtract(e, w - 1, 0), ww), e));
    }
  }
  static float asF(u64 x) { u32 y = (u32)x; float f; memcpy(&f, &y, 4); return f; }
  static double asD(u64 x) { double f; memcpy(&f, &x, 8); return f; }
  // ------------------------------------------------------------ main loop
  void pushFrame(Fn *f, const V *args, size_t n, u32 retDst) {
    if (!f->lowered) lower(f);
    f->calls++;
    if (S->fr.size() >= maxDepth) violEnd("depth", "call depth above " + std::to_string(maxDepth) + " in " + pretty(f));
    Frame fr; fr.f = f; fr.pc = 0; fr.base = S->fr.empty() ? 0 : S->fr.back().base + S->fr.back().f->nslots; fr.retDst = retDst; fr.allocaBase = S->allocas.size();
    if (S->regs.size() < fr.base + f->nslots) S->regs.resize(fr.base + f->nslots + 256);
    for (size_t i = 0; i < n; i++) S->regs[fr.base + i] = args[i];
    S->fr.push_back(fr);
  }
  void takeEdge(u32 ei) {
    Frame &fr = S->fr.back(); Edge &e = fr.f->edges[ei]; V *R = S->regs.data() + fr.base; size_t n = e.mv.size();
    if (n) { V tmp[16]; vector<V> big; V *t = tmp; if (n > 16) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) { i32 s = e.mv[i].second; t[i] = s >= 0 ? R[s] : fr.f->consts[~s]; } for (size_t i = 0; i < n; i++) R[e.mv[i].first] = t[i]; }
    fr.pc = e.target;
  }
  void runState() {
    vector<V> args;
    for (;;) {
      Frame &fr = S->fr.back(); Fn *F = fr.f; V *R = S->regs.data() + fr.base;
      auto g = [&](i32 o) -> const V & { return o >= 0 ? R[o] : F->consts[~o]; };
      u32 pc = fr.pc; bool brk = false; 
      while (!brk) {
        const Ins &I = F->code[pc]; fr.pc = pc;
        if ((++S->insts & 0xffff) == 0) { totalInsts += 0x10000; if (S->insts > maxInsts) violEnd("limit", "more than " + std::to_string(maxInsts) + " instructions on one path"); if (elapsed() > maxTime) { incomplete += "time limit; "; finishing = true; throw PathEnd{"time"}; } }
        switch (I.op) {
          case O_BIN: {
            const V &a = g(I.a), &b = g(I.b); V r; unsigned w = I.w;
            if (!a.e && !b.e) {
              if (w <= 64) { u64 m = w == 64 ? ~(u64)0 : ((u64)1 << w) - 1, x = a.lo, y = b.lo;
                switch (I.k) { case K_ADD: r.lo = (x + y) & m; break; case K_SUB: r.lo = (x - y) & m; break; case K_MUL: r.lo = (x * y) & m; break; case K_AND: r.lo = x & y; break; case K_OR: r.lo = x | y; break; case K_XOR: r.lo = x ^ y; break; case K_SHL: r.lo = y >= w ? 0 : (x << y) & m; break; case K_LSHR: r.lo = y >= w ? 0 : x >> y; break;
                  case K_ASHR: { i64 s = (i64)sextw(x, w); r.lo = (u64)(s >> (y >= w ? 63 : y)) & m; break; }
                  case K_UDIV: if (!y) violEnd("memory", "division by zero"); r.lo = x / y; break; case K_UREM: if (!y) violEnd("memory", "division by zero"); r.lo = x % y; break;
                  case K_SDIV: { i64 p = (i64)sextw(x, w), q = (i64)sextw(y, w); if (!q) violEnd("memory", "division by zero"); r.lo = (q == -1 ? -(u64)p : (u64)(p / q)) & m; break; } case K_SREM: { i64 p = (i64)sextw(x, w), q = (i64)sextw(y, w); if (!q) violEnd("memory", "division by zero"); r.lo = q == -1 ? 0 : (u64)(p % q) & m; break; } }
              } else r = fromE(mkBin((Kind)I.k, bvc(cu(a), w), bvc(cu(b), w)));
            } else r = fromE(mkBin((Kind)I.k, toE(a, w), toE(b, w)));
            R[I.dst] = r; pc++; break; }
          case O_ICMP: { const V &a = g(I.a), &b = g(I.b); V r; if (!a.e && !b.e) r.lo = icmpC(I.k, cu(a), cu(b), I.w); else r = fromE(icmpE(I.k, toE(a, I.w), toE(b, I.w))); R[I.dst] = r; pc++; break; }
          case O_FBIN: { const V &a = g(I.a), &b = g(I.b);
            if (I.k == K_FDIV && a.e && a.e->k == K_DY) { E be = toE(b, I.w); if (isC(be) && bitsToD(cval(be), I.w) == 0) {
              // division by zero: an infinity or not a number, by the sign
              E ae = a.e; bool bn = std::signbit(bitsToD(cval(be), I.w)); E z = bvc(0, I.w); double d = std::nan("");
              if (decide(mkFCmp(K_FOLT, z, ae))) d = bn ? -INFINITY : INFINITY; else if (decide(mkFCmp(K_FOLT, ae, z))) d = bn ? INFINITY : -INFINITY;
              R[I.dst] = fromE(bvc(dToBits(d, I.w), I.w)); pc++; break; } }
            R[I.dst] = fromE(mkF2((Kind)I.k, toE(a, I.w), toE(b, I.w))); pc++; break; }
          case O_FCMP: { const V &a = g(I.a), &b = g(I.b); R[I.dst] = fromE(fcmpE(I.k, toE(a, I.w), toE(b, I.w))); pc++; break; }
          case O_F1: R[I.dst] = fromE(mkF1((Kind)I.k, toE(g(I.a), I.w2), I.w, (int)I.imm)); pc++; break;
          case O_FTOI: R[I.dst] = fromE(fToInt(toE(g(I.a), I.w2), I.w, I.k, true)); pc++; break;
          case O_ITOF: R[I.dst] = fromE(intToF(toE(g(I.a), I.w2), I.w, I.k)); pc++; break;
          case O_TRUNC: { const V &a = g(I.a); V r; if (!a.e) r = cv(cu(a) & maskw(I.w)); else r = fromE(mkExtract(a.e, I.w - 1, 0)); R[I.dst] = r; pc++; break; }
          case O_ZEXT: { const V &a = g(I.a); R[I.dst] = a.e ? fromE(mkZext(a.e, I.w)) : a; pc++; break; }
          case O_SEXT: { const V &a = g(I.a); R[I.dst] = a.e ? fromE(mkSext(a.e, I.w)) : cv((u128)sextw(cu(a), I.w2) & maskw(I.w)); pc++; break; }
          case O_SELECT: { const V &c = g(I.a); if (!c.e) { R[I.dst] = c.lo ? g(I.b) : g(I.c); pc++; break; }
            V r; bool ok = true; const V &x = g(I.b), &y = g(I.c);
            // pointers to different objects: split the path instead of building an ITE address
            if (I.w == 64 && (x.lo >> 32 || y.lo >> 32) && !x.e && !y.e && (x.lo >> 32) != (y.lo >> 32) && (S->mem.get(x.lo >> 32) || S->mem.get(y.lo >> 32) || (x.lo >> 32) >= FUNC_ID)) ok = false;
            if (ok) try { r = fromE(mkITE(c.e, toE(x, I.w), toE(y, I.w))); } catch (Unsupported &) { ok = false; }
            if (!ok) { bool d = decide(c.e); r = d ? g(I.b) : g(I.c); }
            R[I.dst] = r; pc++; break; }
          case O_LOAD: R[I.dst] = load(g(I.a), I.imm, I.w); pc++; break;
          case O_STORE: store(g(I.a), I.imm, I.w, g(I.b)); pc++; break;
          case O_GEP: {
            V p = g(I.a); u64 c = I.imm; E e = p.e; u64 base = p.lo;
            for (u32 i = 0; i < I.n; i++) { const V &ix = g(F->pool[I.x + 3 * i]); unsigned w = F->pool[I.x + 3 * i + 1]; u64 sc = F->consts[~F->pool[I.x + 3 * i + 2]].lo; if (!ix.e) c += (u64)(i64)sextw(ix.lo, w) * sc; else { E t = mkBin(K_MUL, mkSext(ix.e, 64), bvc(sc, 64)); e = e ? mkBin(K_ADD, e, t) : mkBin(K_ADD, t, bvc(base, 64)); } }
            V r; if (!e) r.lo = base + c; else r = fromE(c ? mkBin(K_ADD, e, bvc(c, 64)) : e); R[I.dst] = r; pc++; break; }
          case O_ALLOCA: { u32 id = newStack(I.imm); V r; r.lo = (u64)id << 32; R[I.dst] = r; pc++; break; }
          case O_MOV: R[I.dst] = g(I.a); pc++; break;
          case O_BR: takeEdge(I.x); pc = fr.pc; break;
          case O_CBR: { const V &c = g(I.a); bool t = c.e ? decide(c.e) : c.lo & 1; takeEdge(t ? I.x : I.n); pc = fr.pc; break; }
          case O_SWITCH: {
            const V &c = g(I.a); u128 v = c.e ? evalE(c.e, S->model) : cu(c); u32 ed = I.imm; const i32 *pl = &F->pool[I.x];
            for (u32 i = 0; i < I.n; i++) if (cu(F->consts[~pl[2 * i]]) == v) { ed = pl[2 * i + 1]; break; }
            if (c.e) {
              const L::BasicBlock *tb = F->edges[ed].bb; E cond;
              if (ed == (u32)I.imm) { cond = bconst(true); for (u32 i = 0; i < I.n; i++) cond = band(cond, bnot(mkEQ(c.e, bvc(cu(F->consts[~pl[2 * i]]), I.w)))); }
              else { cond = bconst(false); for (u32 i = 0; i < I.n; i++) if (F->edges[pl[2 * i + 1]].bb == tb && F->edges[pl[2 * i + 1]].mv == F->edges[ed].mv) cond = bor(cond, mkEQ(c.e, bvc(cu(F->consts[~pl[2 * i]]), I.w))); }
              decide(cond);
            }
            takeEdge(ed); pc = fr.pc; break; }
          case O_RET: {
            V tmp[8]; vector<V> big; V *t = tmp; if (I.n > 8) { big.resize(I.n); t = big.data(); } for (u32 i = 0; i < I.n; i++) t[i] = g(F->pool[I.x + i]);
            while (S->allocas.size() > fr.allocaBase) { u32 id = S->allocas.back(); S->allocas.pop_back(); setTomb(id); S->freeStack.push_back(id); }
            u32 rd = fr.retDst; S->fr.pop_back(); if (S->fr.empty()) throw PathEnd{"completed"};
            V *R2 = S->regs.data() + S->fr.back().base; for (u32 i = 0; i < I.n; i++) R2[rd + i] = t[i];
            S->fr.back().pc++; brk = true; break; }
          case O_CALL: case O_ICALL: {
            args.clear(); for (u32 i = 0; i < I.n; i++) args.push_back(g(F->pool[I.x + i])); Fn *cal;
            if (I.op == O_CALL) cal = fns[I.imm]; else { u64 a = (u64)conc(g(I.a), 64); u32 id = a >> 32; if (id < FUNC_ID || id - FUNC_ID >= fns.size()) violEnd("memory", "call through a bad function pointer"); cal = fns[id - FUNC_ID]; }
            if (cal->handler >= 0) { handle(cal, I, args); pc++; R = S->regs.data() + fr.base; break; }
            pushFrame(cal, args.data(), args.size(), I.dst); brk = true; break; }
          case O_HANDLER: { args.clear(); for (u32 i = 0; i < I.n; i++) args.push_back(g(F->pool[I.x + i])); handle(fns[I.imm], I, args); pc++; break; }
          case O_UNREACHABLE: violEnd("unreachable", "reached code declared unreachable");
          case O_RMW: {
            V p = g(I.a), v = g(I.b), old = load(p, 0, I.w); E o = toE(old, I.w), x = toE(v, I.w), n;
            switch (I.k) { case L::AtomicRMWInst::Xchg: n = x; break; case L::AtomicRMWInst::Add: n = mkBin(K_ADD, o, x); break; case L::AtomicRMWInst::Sub: n = mkBin(K_SUB, o, x); break; case L::AtomicRMWInst::And: n = mkBin(K_AND, o, x); break; case L::AtomicRMWInst::Or: n = mkBin(K_OR, o, x); break; case L::AtomicRMWInst::Xor: n = mkBin(K_XOR, o, x); break; case L::AtomicRMWInst::UMax: n = mkITE(mkCmp(K_ULT, o, x), x, o); break; default: throw Unsupported("atomicrmw"); }
            store(p, 0, I.w, fromE(n)); R[I.dst] = old; pc++; break; }
          case O_CMPXCHG: { V p = g(I.a), c = g(I.b), n = g(I.c), old = load(p, 0, I.w); bool eq = decide(mkEQ(toE(old, I.w), toE(c, I.w))); if (eq) store(p, 0, I.w, n); R[I.dst] = old; R[I.dst + 1] = cv(eq); pc++; break; }
          case O_OVF: {
            const V &a = g(I.a), &b = g(I.b); unsigned w = I.w;
            if (!a.e && !b.e && w <= 64) { i128 x, y, r; if (I.k >= 3) { x = sextw(a.lo, w); y = sextw(b.lo, w); } else { x = a.lo; y = b.lo; } bool o; u64 res;
              if (I.k == 2) { u128 m = (u128)(u64)x * (u64)y; res = (u64)(m & maskw(w)); o = m > maskw(w); }
              else { r = I.k % 3 == 0 ? x + y : I.k % 3 == 1 ? x - y : x * y; res = (u64)((u128)r & maskw(w)); if (I.k >= 3) o = r != sextw(res, w); else o = r < 0 || r > (i128)maskw(w); }
              V v; v.lo = res; R[I.dst] = v; R[I.dst + 1] = cv(o); }
            else { E r, o; ovf(I.k, toE(a, w), toE(b, w), w, r, o); R[I.dst] = fromE(r); R[I.dst + 1] = fromE(o); }
            pc++; break; }
          case O_SAT: { E r, o; unsigned w = I.w; ovf(I.k, toE(g(I.a), w), toE(g(I.b), w), w, r, o); R[I.dst] = fromE(mkITE(o, I.k ? bvc(0, w) : bvc(maskw(w), w), r)); pc++; break; }
          case O_INTR: intr(I, F, R); pc++; break;
          case O_UNSUP: throw Unsupported(F->msgs[I.imm]);
        }
      }
    }
  }
  void intr(const Ins &I, Fn *F, V *R) {
    auto g = [&](i32 o) -> const V & { return o >= 0 ? R[o] : F->consts[~o]; }; unsigned w = I.w;
    switch (I.k) {
      case 'C': { u64 n = (u64)conc(g(I.c), w); if (!n) return; u64 d = (u64)conc(g(I.a), 64), s = (u64)conc(g(I.b), 64); copyMem(d, s, n); return; }
      case 'S': { u64 n = (u64)conc(g(I.c), w); if (!n) return; u64 d = (u64)conc(g(I.a), 64); V v = g(I.b); objAt(d, n, true, "store"); Obj *o = S->mem.wget(d >> 32); if (v.e) { for (u64 i = 0; i < n; i++) storeObj(o, (u32)d + i, 8, v); } else { memset(o->data + (u32)d, (int)v.lo, n); if (o->sym) memset(o->sym + (u32)d, 0, n * sizeof(SymB)); } return; }
      case 'M': { E r = nullptr; bool sym = false; for (u32 j = 0; j < I.n; j++) if (g(F->pool[I.x + j]).e) sym = true;
        if (!sym) { u128 v = 0; for (u32 j = 0; j < I.n; j++) v |= cu(g(F->pool[I.x + j])) << (j * I.w2); R[I.dst] = cv(v); return; }
        for (u32 j = 0; j < I.n; j++) { E p = toE(g(F->pool[I.x + j]), I.w2); if (I.w2 == 1) { E z = mkZext(p, w); if (j) z = mkITE(p, bvc((u128)1 << j, w), bvc(0, w)); r = r ? (isC(r) && isC(z) ? bvc(cval(r) | cval(z), w) : mk0(K_OR, w, r, z)) : z; } else r = r ? mkConcat(p, r) : p; }
        if (I.w2 == 1 && r->k == K_OR) { } R[I.dst] = fromE(r); return; }
      case 'X': { const V &a = g(I.a); if (!a.e) R[I.dst] = cv((cu(a) >> I.imm) & maskw(w)); else R[I.dst] = fromE(mkExtract(a.e, I.imm + w - 1, I.imm)); return; }
      case 'l': case 't': case 'p': {
        const V &a = g(I.a);
        if (!a.e) { u128 v = cu(a); u64 r = 0; if (I.k == 'p') { for (u128 t = v; t; t &= t - 1) r++; } else if (I.k == 'l') { r = w; for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) r = w - 1 - i; } else { r = w; for (unsigned i = w; i-- > 0;) if ((v >> i) & 1) r = i; } R[I.dst] = cv(r); return; }
        E e = a.e, r = bvc(I.k == 'p' ? 0 : w, w);
        auto bit = [&](unsigned i) { if (e->k == K_IB || e->k == K_ITE) return mkExtract(e, i, i); return bnot(mkEQ(mk0(K_AND, w, e, bvc((u128)1 << i, w)), bvc(0, w))); };
        if (I.k == 'l') for (unsigned i = 0; i < w; i++) r = mkITE(bit(i), bvc(w - 1 - i, w), r);
        else if (I.k == 't') for (unsigned i = w; i-- > 0;) r = mkITE(bit(i), bvc(i, w), r);
        else for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(bit(i), w));
        R[I.dst] = fromE(r); return; }
      case 'b': { const V &a = g(I.a); if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.lo >> (8 * i)) & 0xff) << (w - 8 - 8 * i); R[I.dst] = cv(r); } else { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E p = mkExtract(a.e, 8 * i + 7, 8 * i); r = r ? mkConcat(r, p) : p; } R[I.dst] = fromE(r); } return; }
      case 'a': { E a = toE(g(I.a), w); R[I.dst] = fromE(mkITE(mkCmp(K_SLT, a, bvc(0, w)), mkBin(K_SUB, bvc(0, w), a), a)); return; }
      case 'f': case 'g': { u64 sh = (u64)conc(g(I.c), w) % w; E a = toE(g(I.a), w), b = toE(g(I.b), w); if (I.k == 'g') { if (sh == 0) { R[I.dst] = fromE(b); return; } sh = w - sh; } if (sh == 0) { R[I.dst] = fromE(a); return; } R[I.dst] = fromE(mkBin(K_OR, mkBin(K_SHL, a, bvc(sh, w)), mkBin(K_LSHR, b, bvc(w - sh, w)))); return; }
      case 'R': { V p = g(I.a); u64 off = (u64)conc(g(I.b), 64); u64 a = (u64)conc(p, 64); V r = load(cv(a), off, 32); R[I.dst] = cv((u64)(a + (i64)(int32_t)conc(r, 32))); return; }
      case 'P': { const V &a = g(I.a), &b = g(I.b); if (a.e || b.e) throw Unsupported("symbolic pow"); double r = std::pow(w == 32 ? asF(a.lo) : asD(a.lo), asD(b.lo)); u64 x; memcpy(&x, &r, 8); R[I.dst] = cv(x); return; }
    }
    throw Unsupported("intrinsic op");
  }
  // ------------------------------------------------------------ external functions
  void handle(Fn *cal, const Ins &I, vector<V> &A) {
    V *R = S->regs.data() + S->fr.back().base; auto ret = [&](V v) { if (I.w2) R[I.dst] = v; };
    auto ptr = [](u32 id) { V v; v.lo = (u64)id << 32; return v; };
    switch (cal->handler) {
      case H_MALLOC: case H_RALLOC: { u64 n = (u64)conc(A[0], 64); ret(ptr(newHeap(n, false))); return; }
      case H_RALLOCZ: { u64 n = (u64)conc(A[0], 64); ret(ptr(newHeap(n, true))); return; }
      case H_CALLOC: { u64 n = (u64)conc(A[0], 64) * (u64)conc(A[1], 64); ret(ptr(newHeap(n, true))); return; }
      case H_ALIGNED: { u64 n = (u64)conc(A[1], 64); ret(ptr(newHeap(n, false))); return; }
      case H_PMEMALIGN: { u64 n = (u64)conc(A[2], 64); u32 id = newHeap(n, false); store(A[0], 0, 64, ptr(id)); ret(V{}); return; }
      case H_REALLOC: case H_RREALLOC: {
        u64 p = (u64)conc(A[0], 64), n = (u64)conc(A[cal->handler == H_REALLOC ? 1 : 3], 64); u32 nid = newHeap(n, false);
        if (p) { Obj *o = objAt(p, 0, true, "realloc"); if (o->kind != OK_HEAP || (u32)p) violEnd("memory", "realloc of a non-heap pointer"); u64 c = std::min<u64>(o->size, n); copyMem((u64)nid << 32, p, c); setTomb(p >> 32); }
        ret(ptr(nid)); return; }
      case H_FREE: case H_RDEALLOC: { u64 p = (u64)conc(A[0], 64); if (!p) return; Obj *o = S->mem.get(p >> 32); if (!o || (o->kind != OK_HEAP) || (u32)p) violEnd("memory", o && o->kind == OK_FREED ? "double free" : "free of a non-heap pointer"); 
        if (cal->handler == H_RDEALLOC && A.size() >= 2 && !A[1].e && A[1].lo != o->size) violEnd("memory", "dealloc with the wrong size");
        setTomb(p >> 32); return; }
      case H_MEMCPY: { u64 n = (u64)conc(A[2], 64); if (n) copyMem((u64)conc(A[0], 64), (u64)conc(A[1], 64), n); ret(A[0]); return; }
      case H_MEMSET: { u64 n = (u64)conc(A[2], 64), d = (u64)conc(A[0], 64); if (n) { objAt(d, n, true, "store"); Obj *o = S->mem.wget(d >> 32); V v = A[1].e ? fromE(mkExtract(A[1].e, 7, 0)) : cv(A[1].lo & 255); for (u64 i = 0; i < n; i++) storeObj(o, (u32)d + i, 8, v); } ret(A[0]); return; }
      case H_MEMCMP: case H_BCMP: {
        u64 n = (u64)conc(A[2], 64); if (!n) { ret(V{}); return; } u64 a = (u64)conc(A[0], 64), b = (u64)conc(A[1], 64);
        Obj *x = objAt(a, n, false, "memcmp"), *y = objAt(b, n, false, "memcmp"); u32 ao = (u32)a, bo = (u32)b;
        if (!x->sym && !y->sym) { int c = memcmp(x->data + ao, y->data + bo, n); ret(cv((u32)(c < 0 ? -1 : c > 0))); return; }
        if (cal->handler == H_BCMP) {
          E all = bconst(true); for (u64 i = 0; i < n;) { // wide pieces keep whole floats/words together
            u64 k = 1; auto run = [&](Obj *o, u32 off) -> u64 { if (o->sym && o->sym[off].e && o->sym[off].i == 0) return o->sym[off].e->w / 8; return 0; };
            u64 ra = run(x, ao + i), rb = run(y, bo + i); u64 rr = std::max(ra, rb); if (rr > 1 && i + rr <= n) k = rr;
            E ea, eb; try { ea = toE(loadObj(x, ao + i, 8 * k), 8 * k); eb = toE(loadObj(y, bo + i, 8 * k), 8 * k); } catch (Unsupported &) { if (k == 1) throw; k = 1; ea = toE(loadObj(x, ao + i, 8), 8); eb = toE(loadObj(y, bo + i, 8), 8); }
            all = band(all, mkEQ(ea, eb)); if (isC(all) && !all->lo) break; i += k; }
          ret(fromE(mkITE(all, bvc(0, 32), bvc(1, 32)))); return; }
        E r = bvc(0, 32); for (u64 i = n; i-- > 0;) { E p = toE(loadObj(x, ao + i, 8), 8), q = toE(loadObj(y, bo + i, 8), 8); r = mkITE(mkEQ(p, q), r, mkITE(mkCmp(K_ULT, p, q), bvc(0xffffffff, 32), bvc(1, 32))); }
        ret(fromE(r)); return; }
      case H_MEMCHR: case H_MEMRCHR: { u64 n = (u64)conc(A[2], 64), a = (u64)conc(A[0], 64); E c = A[1].e ? mkExtract(A[1].e, 7, 0) : bvc(A[1].lo & 255, 8); for (u64 j = 0; j < n; j++) { u64 i = cal->handler == H_MEMCHR ? j : n - 1 - j; if (decide(mkEQ(toE(byteAt(a + i), 8), c))) { ret(cv(a + i)); return; } } ret(V{}); return; }
      case H_STRLEN: { u64 a = (u64)conc(A[0], 64), n = 0; while (!decide(mkEQ(toE(byteAt(a + n), 8), bvc(0, 8)))) n++; ret(cv(n)); return; }
      case H_WRITE: { u64 n = (u64)conc(A[2], 64); if (trace) fprintf(stderr, "[write] %s", readStr((u64)conc(A[1], 64), n).c_str()); ret(cv(n)); return; }
      case H_WRITEV: { u64 n = (u64)conc(A[2], 64), t = 0; for (u64 i = 0; i < n; i++) { V l = load(A[1], 16 * i + 8, 64); u64 k = (u64)conc(l, 64); if (trace) fprintf(stderr, "[writev] %s", readStr((u64)conc(load(A[1], 16 * i, 64), 64), k).c_str()); t += k; } ret(cv(t)); return; }
      case H_RET0: case H_NOP: ret(V{}); return;
      case H_RETM1: ret(cv(~(u64)0)); return;
      case H_PTHREAD_SELF: ret(cv(1)); return;
      case H_ERRNO: ret(ptr(errnoId)); return;
      case H_CLOCK: { store(A[1], 0, 64, cv(1000)); store(A[1], 8, 64, cv(0)); ret(V{}); return; }
      case H_GETRANDOM: { u64 n = (u64)conc(A[1], 64); for (u64 i = 0; i < n; i++) store(A[0], i, 8, cv(i * 37 + 11 & 255)); ret(cv(n)); return; }
      case H_SYSCALL: { u64 no = (u64)conc(A[0], 64); if (no == 318) { u64 n = (u64)conc(A[2], 64); for (u64 i = 0; i < n; i++) store(A[1], i, 8, cv((i * 37 + 11) & 255)); ret(cv(n)); return; } if (no == 202) { ret(V{}); return; } throw Unsupported("syscall " + std::to_string(no)); }
      case H_ABORT: if (S->panicOk) { nPanicOk++; throw PathEnd{"abort allowed"}; } violEnd("panic", "abort");
      case H_PANIC: panic(cal, A); return;
      case H_FMOD: { if (A[0].e || A[1].e) throw Unsupported("symbolic fmod"); double r = std::fmod(asD(A[0].lo), asD(A[1].lo)); u64 x; memcpy(&x, &r, 8); ret(cv(x)); return; }
      case H_POW: { if (A[0].e || A[1].e) throw Unsupported("symbolic pow"); double r = std::pow(asD(A[0].lo), asD(A[1].lo)); u64 x; memcpy(&x, &r, 8); ret(cv(x)); return; }
      case H_UNKNOWN_DECL: throw Unsupported("call to external function " + cal->name);
      // ---- harness API
      case H_VU8: case H_VU16: case H_VU32: case H_VU64: case H_VF32: case H_VF64: {
        unsigned w = cal->handler == H_VU8 ? 8 : cal->handler == H_VU16 ? 16 : cal->handler == H_VU32 || cal->handler == H_VF32 ? 32 : 64; E e = freshBV(w, nextVar++, 0, (u64)maskw(w)); newInput("bv", e, e); ret(fromE(e)); return; }
      case H_VBOOL: { E e = freshBool(nextVar++); newInput("bool", e, e); ret(fromE(e)); return; }
      case H_VRANGE: { u64 lo = (u64)conc(A[0], 64), hi = (u64)conc(A[1], 64); if (lo == hi) { E e = bvc(lo, 64); S->in.push_back({"bv", e}); ret(cv(lo)); return; } E e = freshBV(64, nextVar++, lo, hi); newInput("bv", e, e); ret(fromE(e)); return; }
      case H_VINT: { i64 lo = (i64)conc(A[0], 64), hi = (i64)conc(A[1], 64); if (lo == hi) { S->in.push_back({"int", iconst(lo)}); ret(cv((u64)lo)); return; } E v = freshInt(nextVar++, lo, hi); newInput("int", v, v); ret(fromE(ibwrap(v, 64))); return; }
      case H_VDYADIC: { i64 lo = (i64)conc(A[0], 64), hi = (i64)conc(A[1], 64); int sh = (int)conc(A[2], 32); if (lo == hi) { S->in.push_back({"dyadic", iconst(lo)}); ret(fromE(dywrap(iconst(lo), sh, 32))); return; } E v = freshInt(nextVar++, lo, hi); newInput("dyadic", v, v); ret(fromE(dywrap(v, sh, 32))); return; }
      case H_VASSUME: {
        if (!A[0].e) { if (A[0].lo & 1) return; nAssume++; throw PathEnd{"assume"}; }
        E c = A[0].e; if (c->w != 1) c = bnot(mkEQ(c, bvc(0, c->w)));
        if (!evalE(c, S->model)) { auto r = sol.check(S->pc, c, &S->model); if (r == Solver::UNK) incomplete += "solver gave no answer at an assumption; "; if (r != Solver::SAT) { nAssume++; throw PathEnd{"assume"}; } }
        addPC(S, c); return; }
      case H_VASSERT: {
        nAsserts++; u64 mp = (u64)conc(A[1], 64), ml = (u64)conc(A[2], 64); string msg = readStr(mp, ml);
        if (!A[0].e) { if (A[0].lo & 1) return; violEnd("assert", msg); }
        E c = A[0].e; if (c->w != 1) c = bnot(mkEQ(c, bvc(0, c->w)));
        bool v = evalE(c, S->model) != 0;
        if (!v) { violation("assert", msg, S->model); auto r = sol.check(S->pc, c, &S->model); if (r == Solver::UNK) incomplete += "solver gave no answer after an assertion; "; if (r != Solver::SAT) { nViolPaths++; throw PathEnd{"violation"}; } addPC(S, c); return; }
        for (E p : S->pc) if (p == c) return;
        vector<u128> m2 = S->model; auto r = sol.check(S->pc, bnot(c), &m2);
        if (r == Solver::SAT) { violation("assert", msg, m2); addPC(S, c); } else if (r == Solver::UNK) { incomplete += "solver gave no answer for assertion '" + msg + "'; "; addPC(S, c); }
        else if (c->vars->size() <= 8) S->pc.push_back(c);
        return; }
      case H_VCOVER: { covers[(u32)conc(A[0], 32)]++; return; }
      case H_VOBS: S->obs.push_back({"u", toE(A[0], 64)}); return;
      case H_VOBSF: S->obs.push_back({"f", toE(A[0], 32)}); return;
      case H_VPANICOK: S->panicOk = (conc(A[0], 1) & 1) != 0; return;
      case H_VPARAM: { string n = readStr((u64)conc(A[0], 64), (u64)conc(A[1], 64)); auto it = params.find(n); ret(it == params.end() ? A[2] : cv(it->second)); return; }
      case H_VCONC: ret(cv(conc(A[0], 64))); return;
      case H_VISSYM: ret(cv(1)); return;
      case H_VALLOCATED: ret(cv(S->allocBytes)); return;
      case H_VEND: throw PathEnd{"completed"};
      case H_VLOG: if (trace) { fprintf(stderr, "[log] %s", readStr((u64)conc(A[0], 64), (u64)conc(A[1], 64)).c_str()); if (A[2].e) fprintf(stderr, " %s\n", show(A[2].e, 8).c_str()); else fprintf(stderr, " %lld\n", (long long)A[2].lo); } return;
    }
    throw Unsupported("handler");
  }
  // ------------------------------------------------------------ driver
  void sample() {
    sampleSeen++; rng = rng * 6364136223846793005ull + 1442695040888963407ull; size_t slot = samples.size();
    if (slot >= maxSamples) { u64 j = (rng >> 33) % sampleSeen; if (j >= maxSamples) return; slot = j; } else samples.push_back("");
    string s = "{\"inputs\":["; bool f = true; for (auto &i : S->in) { if (!f) s += ","; f = false; s += u2s((u64)inVal(i, S->model).second); }
    s += "],\"obs\":["; f = true; for (auto &o : S->obs) { if (!f) s += ","; f = false; u64 v = (u64)evalE(o.second, S->model); if (o.first == "f" && v == 0x80000000u) v = 0; s += u2s(v); } s += "]}"; samples[slot] = s;
  }
  int run(const string &fn, const string &out) {
    auto *f = M->getFunction(fn); if (!f) { fprintf(stderr, "no function %s\n", fn.c_str()); return 3; }
    // The first heap addresses have their 17 high bits clear: real code keeps tags there (ThinBoxedSlice).
    heapBase = (nGlobals + 256) & ~255u; stackBase = std::max(32768u, heapBase + 8192); stackEnd = stackBase + (1 << 18); if (getenv("VSE_IDS")) fprintf(stderr, "globals %u\n", nGlobals); errnoId = heapBase; tomb = Obj::make(0, OK_FREED); tomb->rc = 1u << 30;
    State *init = new State(); for (auto *c : base.t) { if (c) c->rc++; init->mem.t.push_back(c); } init->nextHeap = heapBase + 1; S = init; S->mem.set(errnoId, Obj::make(8, OK_HEAP));
    try { pushFrame(fns[fnIdx[f]], nullptr, 0, 0); } catch (Unsupported &u) { fprintf(stderr, "%s\n", u.what()); return 3; }
    work.push_back(init); string out2 = out; bool root = true;
    struct Shared { std::atomic<int> active, seq, stop; }; Shared *sh = nullptr;
    if (jobs > 1 && !out.empty()) { sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->active = 1; sh->seq = 0; sh->stop = 0; prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0); }
    while (!work.empty() && !finishing && !(sh && sh->stop)) {
      if (sh && work.size() >= 2) { // give half of the pending states to an idle core
        if (sh->active.fetch_add(1) < jobs) {
          int id = ++sh->seq; fflush(stderr); pid_t pid = ::fork(); size_t h = work.size() / 2;
          if (pid == 0) { root = false; out2 = out + "." + std::to_string(id); for (size_t i = h; i < work.size(); i++) delete work[i]; work.resize(h);
            nPaths = nCompleted = nPanicOk = nAssume = nForks = nAsserts = nUnsup = nLimit = nViolPaths = nSymBranches = totalInsts = 0; sol.resetStats(); covers.clear(); unsupMsgs.clear(); viols.clear(); violN.clear(); samples.clear(); sampleSeen = 0; rng += id; incomplete.clear(); }
          else if (pid > 0) { for (size_t i = 0; i < h; i++) delete work[i]; work.erase(work.begin(), work.begin() + h); }
          else sh->active--;
        } else sh->active--;
      }
      S = work.back(); work.pop_back(); nPaths++; u64 i0 = S->insts;
      if (nPaths > maxPaths) { incomplete += "path limit; "; break; }
      try { runState(); }
      catch (PathEnd &p) { if (!strcmp(p.why, "completed")) { nCompleted++; sample(); } else if (!strcmp(p.why, "panic allowed") || !strcmp(p.why, "abort allowed")) sample(); }
      catch (Unsupported &u) { nUnsup++; string m = u.what(); m = m.substr(0, 400) + " in"; auto st = stackOf(S); for (size_t i = 0; i < st.size() && i < 8; i++) m += " < " + st[i]; unsupMsgs.insert(m); if (unsupMsgs.size() > 20) finishing = true; }
      totalInsts += (S->insts & 0xffff) ; (void)i0; delete S; S = nullptr;
      if (elapsed() > maxTime && !work.empty()) { incomplete += "time limit; "; break; }
    }
    if (!work.empty() && incomplete.empty()) incomplete = "stopped early; ";
    if (finishing && sh) sh->stop = 1;
    // report
    string j = "{\n"; auto kv = [&](const string &k, const string &v) { j += "  \"" + k + "\": " + v + ",\n"; }; auto q = [&](const string &s) { return "\"" + jesc(s) + "\""; };
    kv("fn", q(fn)); kv("complete", incomplete.empty() && nUnsup == 0 ? "true" : "false"); kv("incomplete_reason", q(incomplete.substr(0, 600))); kv("paths", std::to_string(nPaths)); kv("completed", std::to_string(nCompleted)); kv("panic_allowed", std::to_string(nPanicOk)); kv("assume_pruned", std::to_string(nAssume)); kv("forks", std::to_string(nForks)); kv("symbolic_branches", std::to_string(nSymBranches)); kv("assertions_checked", std::to_string(nAsserts)); kv("unsupported_paths", std::to_string(nUnsup)); kv("instructions", std::to_string(totalInsts));
    kv("queries", std::to_string(sol.queries)); kv("cache_hits", std::to_string(sol.cacheHits)); kv("sat", std::to_string(sol.satN)); kv("unsat", std::to_string(sol.unsatN)); kv("unknown", std::to_string(sol.unkN)); char b[64]; snprintf(b, 64, "%.3f", sol.secs); kv("solver_s", b); snprintf(b, 64, "%.3f", sol.maxq); kv("max_query_s", b); snprintf(b, 64, "%.3f", elapsed()); kv("wall_s", b);
    string cs; for (auto &c : covers) cs += (cs.empty() ? "" : ",") + ("\"" + std::to_string(c.first) + "\":" + std::to_string(c.second)); kv("covers", "{" + cs + "}");
    string us; for (auto &u : unsupMsgs) us += (us.empty() ? "" : ",") + q(u); kv("unsupported", "[" + us + "]");
    string vs; for (auto &p : viols) { auto &v = p.second; string x = "{\"kind\":" + q(v.kind) + ",\"msg\":" + q(v.msg) + ",\"where\":" + q(v.where) + ",\"count\":" + std::to_string(violN[p.first]) + ",\"values\":["; bool f1 = true; for (auto &k : v.vals) { if (!f1) x += ","; f1 = false; x += u2s((u64)k.second); } x += "],\"stack\":["; f1 = true; for (auto &s : v.stack) { if (!f1) x += ","; f1 = false; x += q(s); } x += "]}"; vs += (vs.empty() ? "\n    " : ",\n    ") + x; } kv("violations", "[" + vs + "]");
    string ss; for (auto &s : samples) ss += (ss.empty() ? "" : ",") + s; kv("samples", "[" + ss + "]");
    string fs; std::set<string> names; for (auto *fn2 : fns) if (fn2->calls && fn2->handler < 0) { const string &p = pretty(fn2); if (p.find("victor") != string::npos || p.find("lester") != string::npos) names.insert(p); } for (auto &n : names) fs += (fs.empty() ? "" : ",") + q(n); kv("functions", "[" + fs + "]");
    size_t nf = 0; for (auto *fn2 : fns) if (fn2->calls && fn2->handler < 0) nf++; j += "  \"functions_executed\": " + std::to_string(nf) + "\n}\n";
    if (trace) { vector<std::pair<u64, string>> t; for (auto &p : forkSites) t.push_back({p.second, p.first}); std::sort(t.rbegin(), t.rend()); for (size_t i = 0; i < t.size() && i < 25; i++) fprintf(stderr, "fork %8llu %s\n", (unsigned long long)t[i].first, t[i].second.c_str()); }
    if (out.empty()) fputs(j.c_str(), stdout); else { FILE *o = fopen((out2 + ".tmp").c_str(), "w"); fputs(j.c_str(), o); fclose(o); rename((out2 + ".tmp").c_str(), out2.c_str()); }
    fflush(stdout); if (sh) { sh->active--; if (root) { int st, bad = 0; while (true) { pid_t p = wait(&st); if (p < 0) break; if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; } if (bad) { fprintf(stderr, "%d worker(s) died\n", bad); _exit(4); } } }
    _exit(0);
  }
