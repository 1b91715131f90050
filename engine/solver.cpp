#include "solver.h"
static void errh(Z3_context, Z3_error_code) {}
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, errh);
}
static Z3_sort fpsort(Z3_context c, unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
static std::string i2s(i128 v) { if (v < 0) return "-" + i2s(-v); std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
Z3_ast Solver::tr(E e) {
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Z3_ast r = nullptr; unsigned w = e->w;
  auto A = [&] { return tr(e->a); }; auto B = [&] { return tr(e->b); }; auto C = [&] { return tr(e->c); };
  auto fp = [&](E x) { return Z3_mk_fpa_to_fp_bv(c, tr(x), fpsort(c, x->w)); };
  auto bvn = [&](u128 v, unsigned w) { std::string s; { u128 t = v; do { s.insert(s.begin(), '0' + (int)(t % 10)); t /= 10; } while (t); } return Z3_mk_numeral(c, s.c_str(), Z3_mk_bv_sort(c, w)); };
  auto in = [&](i128 v) { return Z3_mk_numeral(c, i2s(v).c_str(), Z3_mk_int_sort(c)); };
  char nm[32];
  switch (e->k) {
    case K_BVCONST: r = bvn(cval(e), w); break;
    case K_BCONST: r = e->lo ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case K_BVVAR: snprintf(nm, 32, "v%u", (u32)e->hi); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bv_sort(c, w)); break;
    case K_BVAR: snprintf(nm, 32, "v%u", (u32)e->hi); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c)); break;
    case K_IVAR: snprintf(nm, 32, "v%u", (u32)e->hi); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_int_sort(c)); break;
    case K_ADD: r = Z3_mk_bvadd(c, A(), B()); break; case K_SUB: r = Z3_mk_bvsub(c, A(), B()); break;
    case K_MUL: r = Z3_mk_bvmul(c, A(), B()); break; case K_UDIV: r = Z3_mk_bvudiv(c, A(), B()); break;
    case K_SDIV: r = Z3_mk_bvsdiv(c, A(), B()); break; case K_UREM: r = Z3_mk_bvurem(c, A(), B()); break;
    case K_SREM: r = Z3_mk_bvsrem(c, A(), B()); break; case K_AND: r = Z3_mk_bvand(c, A(), B()); break;
    case K_OR: r = Z3_mk_bvor(c, A(), B()); break; case K_XOR: r = Z3_mk_bvxor(c, A(), B()); break;
    case K_SHL: r = Z3_mk_bvshl(c, A(), B()); break; case K_LSHR: r = Z3_mk_bvlshr(c, A(), B()); break;
    case K_ASHR: r = Z3_mk_bvashr(c, A(), B()); break; case K_CONCAT: r = Z3_mk_concat(c, A(), B()); break;
    case K_EXTRACT: r = Z3_mk_extract(c, (unsigned)e->lo + w - 1, (unsigned)e->lo, A()); break;
    case K_ZEXT: r = Z3_mk_zero_ext(c, w - e->a->w, A()); break; case K_SEXT: r = Z3_mk_sign_ext(c, w - e->a->w, A()); break;
    case K_ITE: case K_IITE: r = Z3_mk_ite(c, A(), B(), C()); break;
    case K_IB: r = Z3_mk_int2bv(c, w, A()); break;
    case K_DY: throw Unsupported("dyadic float in a bit-vector context");
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), fp(e->a), fp(e->b))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), fp(e->a), fp(e->b))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), fp(e->a), fp(e->b))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), fp(e->a), fp(e->b))); break;
    case K_FMIN: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_min(c, fp(e->a), fp(e->b))); break;
    case K_FMAX: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_max(c, fp(e->a), fp(e->b))); break;
    case K_FSQRT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), fp(e->a))); break;
    case K_FRND: { Z3_ast rm = e->lo == 0 ? Z3_mk_fpa_rtn(c) : e->lo == 1 ? Z3_mk_fpa_rtp(c) : e->lo == 2 ? Z3_mk_fpa_rtz(c) : e->lo == 3 ? Z3_mk_fpa_rna(c) : Z3_mk_fpa_rne(c); r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fp(e->a))); break; }
    case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(e->a), fpsort(c, w))); break;
    case K_SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), A(), fpsort(c, w))); break;
    case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), A(), fpsort(c, w))); break;
    case K_FPTOSI: case K_FPTOUI: {
      bool sg = e->k == K_FPTOSI; Z3_ast f = fp(e->a); Z3_sort s = fpsort(c, e->a->w);
      double lo = sg ? -std::ldexp(1, w - 1) : 0, hi = sg ? std::ldexp(1, w - 1) : std::ldexp(1, w);
      Z3_ast body = sg ? Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w) : Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w);
      Z3_ast flo = Z3_mk_fpa_numeral_double(c, lo, s), fhi = Z3_mk_fpa_numeral_double(c, hi, s);
      r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), bvn(0, w), Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, flo), bvn(sg ? (u128)1 << (w - 1) : 0, w), Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, fhi), bvn(sg ? maskw(w - 1) : maskw(w), w), body)));
      break; }
    case K_BNOT: r = Z3_mk_not(c, A()); break;
    case K_BAND: { Z3_ast x[2] = {A(), B()}; r = Z3_mk_and(c, 2, x); break; }
    case K_BOR: { Z3_ast x[2] = {A(), B()}; r = Z3_mk_or(c, 2, x); break; }
    case K_BXOR: r = Z3_mk_xor(c, A(), B()); break;
    case K_EQ: r = Z3_mk_eq(c, A(), B()); break;
    case K_ULT: r = Z3_mk_bvult(c, A(), B()); break; case K_ULE: r = Z3_mk_bvule(c, A(), B()); break;
    case K_SLT: r = Z3_mk_bvslt(c, A(), B()); break; case K_SLE: r = Z3_mk_bvsle(c, A(), B()); break;
    case K_FOEQ: r = Z3_mk_fpa_eq(c, fp(e->a), fp(e->b)); break; case K_FOLT: r = Z3_mk_fpa_lt(c, fp(e->a), fp(e->b)); break;
    case K_FOLE: r = Z3_mk_fpa_leq(c, fp(e->a), fp(e->b)); break;
    case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, fp(e->a)), Z3_mk_fpa_is_nan(c, fp(e->b))}; r = Z3_mk_or(c, 2, x); break; }
    case K_ILE: r = Z3_mk_le(c, A(), in(0)); break;
    case K_IEQ: r = Z3_mk_eq(c, A(), in(0)); break;
    case K_ILIN: { std::vector<Z3_ast> v; for (auto &p : e->lin) { if (p.second == 1) v.push_back(tr(p.first)); else { Z3_ast m[2] = {in(p.second), tr(p.first)}; v.push_back(Z3_mk_mul(c, 2, m)); } }
      if (e->lc != 0 || v.empty()) v.push_back(in(e->lc)); r = v.size() == 1 ? v[0] : Z3_mk_add(c, v.size(), v.data()); break; }
    case K_IDIV: r = Z3_mk_div(c, A(), in((i128)(((u128)e->hi << 64) | e->lo))); break;
    case K_IMUL: { Z3_ast m[2] = {A(), B()}; r = Z3_mk_mul(c, 2, m); break; }
    default: throw Unsupported("solver translation");
  }
  if (Z3_get_error_code(c) != Z3_OK) throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, Z3_get_error_code(c)) + " in " + show(e, 3));
  memo.emplace(e->id, r); return r;
}
static bool hasInt(E e, std::unordered_map<u32, char> &m) {
  auto it = m.find(e->id); if (it != m.end()) return it->second;
  bool r = e->w == 0 || (e->a && hasInt(e->a, m)) || (e->b && hasInt(e->b, m)) || (e->c && hasInt(e->c, m));
  m[e->id] = r; return r;
}
static std::unordered_map<u32, char> hiMemo;
bool hasIntE(E e) { return hasInt(e, hiMemo); }
static i128 parseI(const char *s) { bool n = *s == '-'; if (n) s++; i128 v = 0; while (*s) v = v * 10 + (*s++ - '0'); return n ? -v : v; }
static std::unordered_map<u32, char> fpMemo;
static bool hasFP(E e) {
  if (isC(e) || e->k == K_BVVAR || e->k == K_BVAR) return false;
  auto it = fpMemo.find(e->id); if (it != fpMemo.end()) return it->second;
  bool r = (e->k >= K_FADD && e->k <= K_FSQRT) || (e->k >= K_FOEQ && e->k <= K_FUNO) || (e->a && hasFP(e->a)) || (e->b && hasFP(e->b)) || (e->c && hasFP(e->c));
  fpMemo[e->id] = r; return r;
}
// One long-lived bit-vector solver: every constraint is asserted once behind an indicator literal.
Solver::R Solver::incCheck(const std::vector<E> &sl, const std::unordered_set<u32> &vs, std::vector<std::pair<u32, u128>> &out) {
  if (inc && ind.size() > 300) { Z3_solver_dec_ref(c, inc); inc = nullptr; ind.clear(); incVars.clear(); }
  if (!inc) { inc = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, inc);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs); Z3_solver_set_params(c, inc, p); Z3_params_dec_ref(c, p); }
  std::vector<Z3_ast> as;
  for (E e : sl) { auto it = ind.find(e->id); if (it == ind.end()) {
      char nm[32]; snprintf(nm, 32, "ind%u_%u", e->id, incGen); Z3_ast b = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c)); Z3_inc_ref(c, b);
      Z3_solver_assert(c, inc, Z3_mk_implies(c, b, tr(e))); it = ind.emplace(e->id, b).first; }
    as.push_back(it->second); }
  for (u32 v : vs) if (incVars.insert(v).second) { E x = varExpr[v];
      if (x->k == K_BVVAR && x->w <= 64) {
        if (x->umin > 0) Z3_solver_assert(c, inc, Z3_mk_bvuge(c, tr(x), Z3_mk_unsigned_int64(c, x->umin, Z3_mk_bv_sort(c, x->w))));
        if (x->umax < (u64)maskw(x->w)) Z3_solver_assert(c, inc, Z3_mk_bvule(c, tr(x), Z3_mk_unsigned_int64(c, x->umax, Z3_mk_bv_sort(c, x->w)))); } }
  Z3_lbool lb = Z3_solver_check_assumptions(c, inc, as.size(), as.data());
  if (lb == Z3_L_FALSE) { unsatN++; return UNSAT; }
  if (lb != Z3_L_TRUE) return UNK;
  satN++; Z3_model m = Z3_solver_get_model(c, inc); Z3_model_inc_ref(c, m);
  for (u32 v : vs) { E x = varExpr[v]; Z3_ast o = nullptr; Z3_model_eval(c, m, tr(x), true, &o);
    if (x->k == K_BVAR) out.push_back({v, Z3_get_bool_value(c, o) == Z3_L_TRUE}); else out.push_back({v, (u128)parseI(Z3_get_numeral_string(c, o))}); }
  Z3_model_dec_ref(c, m); return SAT;
}
Solver::R Solver::check(const std::vector<E> &cons, E q, std::vector<u128> *model) {
  if (isC(q)) { if (!q->lo) return UNSAT; return SAT; }
  // slice
  std::vector<E> sl{q}; std::unordered_set<u32> vs(q->vars->begin(), q->vars->end());
  std::vector<char> used(cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *cons[i]->vars) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; sl.push_back(cons[i]); for (u32 v : *cons[i]->vars) if (vs.insert(v).second) ch = true; } } }
  std::vector<u32> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it == cache.end()) {
    auto t0 = std::chrono::steady_clock::now(); queries++;
    Ent en; bool isInt = false; for (E e : sl) isInt |= hasInt(e, hiMemo);
    bool pure = !isInt; if (pure) for (E e : sl) if (hasFP(e)) { pure = false; break; }
    // two ways of asking about bit-vector slices (long-lived solver / fresh pre-processing solver): prefer whichever has been faster lately
    int way = -1;
    if (pure) { for (size_t i = models.size(); i-- > 0;) { // a recent model may already satisfy the slice
        auto &m = models[i]; bool ok = true;
        for (u32 v : vs) { E x = varExpr[v]; if (v >= m.size() || (x->k == K_BVVAR && x->w <= 64 && ((u64)m[v] < x->umin || (u64)m[v] > x->umax))) { ok = false; break; } }
        if (ok) for (E e : sl) if (!evalE(e, m)) { ok = false; break; }
        if (ok) { reuse++; queries--; en.r = SAT; for (u32 v : vs) en.m.push_back({v, v < m.size() ? m[v] : 0}); goto done; } }
      way = ema[0] <= ema[1] ? 0 : 1; if (++pick % 24 == 0) way ^= 1;
      if (way == 0) { en.r = incCheck(sl, vs, en.m); if (en.r != UNK) goto done; } }
    { Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, isInt ? "ALL" : "QF_FPBV"));
    if (isInt) s = Z3_mk_simple_solver(c);
    else if (pure) { static Z3_tactic tac = nullptr; if (!tac) { const char *n[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"};
        for (const char *x : n) { Z3_tactic t = Z3_mk_tactic(c, x); Z3_tactic_inc_ref(c, t); if (!tac) tac = t; else { tac = Z3_tactic_and_then(c, tac, t); Z3_tactic_inc_ref(c, tac); } } }
      s = Z3_mk_solver_from_tactic(c, tac); }
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    for (E e : sl) Z3_solver_assert(c, s, tr(e));
    for (u32 v : vs) { E x = varExpr[v];
      if (x->k == K_IVAR) { Z3_solver_assert(c, s, Z3_mk_ge(c, tr(x), Z3_mk_numeral(c, i2s(x->imin).c_str(), Z3_mk_int_sort(c)))); Z3_solver_assert(c, s, Z3_mk_le(c, tr(x), Z3_mk_numeral(c, i2s(x->imax).c_str(), Z3_mk_int_sort(c)))); }
      else if (x->k == K_BVVAR && x->w <= 64) {
        if (x->umin > 0) Z3_solver_assert(c, s, Z3_mk_bvuge(c, tr(x), Z3_mk_unsigned_int64(c, x->umin, Z3_mk_bv_sort(c, x->w))));
        if (x->umax < (u64)maskw(x->w)) Z3_solver_assert(c, s, Z3_mk_bvule(c, tr(x), Z3_mk_unsigned_int64(c, x->umax, Z3_mk_bv_sort(c, x->w)))); } }
    Z3_lbool lb = Z3_solver_check(c, s);
    en.r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNK;
    if (en.r == SAT) { satN++;
      Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (u32 v : vs) { E x = varExpr[v]; Z3_ast o = nullptr; Z3_model_eval(c, m, tr(x), true, &o);
        if (x->k == K_BVAR) en.m.push_back({v, Z3_get_bool_value(c, o) == Z3_L_TRUE});
        else en.m.push_back({v, (u128)parseI(Z3_get_numeral_string(c, o))}); }
      Z3_model_dec_ref(c, m);
    } else if (en.r == UNSAT) unsatN++; else unkN++;
    if (dump && dumped < dumpMax && en.r != UNK && !isInt == !isInt) { dumped++; fprintf(dump, "; expect %s\n(push 1)\n%s\n(check-sat)\n(pop 1)\n;;;;\n", en.r == SAT ? "sat" : "unsat", Z3_solver_to_string(c, s)); fflush(dump); }
    Z3_solver_dec_ref(c, s); }
    done:
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; if (dt > maxq) maxq = dt;
    if (way >= 0) ema[way] = ema[way] * 0.85 + dt * 0.15;
    if (pure && en.r == SAT && way >= 0) { std::vector<u128> m; for (auto &p : en.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } if (models.size() < 24) models.push_back(std::move(m)); else models[mnext++ % 24] = std::move(m); }
    it = cache.emplace(std::move(key), std::move(en)).first;
  } else cacheHits++;
  if (it->second.r == SAT && model) { for (auto &p : it->second.m) { if (model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; } }
  return it->second.r;
}
