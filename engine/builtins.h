// library-call models and harness intrinsics
static std::string cstr(const Val &p) { int id = p.prov; std::string r; if (id > 0 && id < firstDyn) { GInfo &g = G[id]; flat(g); for (u64 i = p.e->k - baseOf(id); i < g.raw.size() && g.raw[i]; i++) r.push_back((char)g.raw[i]); } return r; }
static void finishPath(State &s) {
  S.paths++; for (int r : s.reach) reached.insert(r);
  bool keep = (int)samples.size() < J.validate && (S.paths <= 1 || (S.paths & (S.paths - 1)) == 0);
  if (keep) { json::Object o; s.model->resize(C.syms.size()); o["syms"] = symVals(s, *s.model); o["allocs"] = allocVals(s, *s.model); C.newEval(*s.model); json::Array a; for (auto &p : s.obs) a.push_back(json::Array{p.first, (int64_t)C.eval(p.second)}); o["obs"] = std::move(a); samples.push_back(std::move(o)); }
}
typedef std::vector<Val> Args; typedef std::vector<Ret> Rets;
static void retv(State &&s, E e, int prov, Rets &out) { Val v; v.e = e; v.prov = prov; Ret r; r.s = std::move(s); r.v = v; out.push_back(std::move(r)); }
static void retvoid(State &&s, Rets &out) { Ret r; r.s = std::move(s); out.push_back(std::move(r)); }
static void setErrno(State &s, int v) { ObjP *o = findObj(s, s.errnoObj); ObjP &ob = cow(s, o); for (int i = 0; i < 4; i++) ob->cells[i] = Cell{K(32, v), 0, (uint8_t)i, 4}; }
static void throwT(State &&s, const char *ti, Rets &out) { int id = 0; if (auto *g = M->getNamedValue(ti)) id = gid[g]; if (!id) throw Unsupported{std::string("typeinfo ") + ti}; int o = newObj(s, KHARNESS, K(64, 128), 128, "exception"); s.exc.e = K(64, baseOf(o)); s.exc.prov = o; s.excType = id; Ret r; r.s = std::move(s); r.exc = true; out.push_back(std::move(r)); }
static void doMalloc(State &&s, E size, bool zero, bool cxx, Rets &out) {
  splitVals(std::move(s), size, [&](State &&t, u64 n) {
    if (n > (1u << 24)) { if (cxx) { throwT(std::move(t), "_ZTISt9bad_alloc", out); return; } setErrno(t, 12); retv(std::move(t), K(64, 0), 0, out); return; }
    if (t.failMalloc) { E b = C.sym("alloc" + std::to_string(t.allocLog.size()), 1, 0, 1); u64 bi = b->k; auto m0 = std::make_shared<Model>(*t.model); size_t o = m0->size(); if (o < C.syms.size()) { m0->resize(C.syms.size()); for (size_t i = o; i < m0->size(); i++) (*m0)[i] = C.syms[i].lo; }
      auto m1 = std::make_shared<Model>(*m0); (*m0)[bi] = 0; (*m1)[bi] = 1; State f = t; f.model = m1; t.model = m0; f.allocLog.push_back(b); t.allocLog.push_back(b); assume(f, b); assume(t, C.Not(b));
      S.forks++; if (cxx) throwT(std::move(f), "_ZTISt9bad_alloc", out); else { setErrno(f, 12); retv(std::move(f), K(64, 0), 0, out); } }
    int id = newObj(t, KHEAP, K(64, n), n, "heap block"); if (zero) { auto &o = *findObj(t, id); for (auto &c : o->cells) c = Cell{K(8, 0), 0, 0, 1}; }
    t.liveHeap++; retv(std::move(t), K(64, baseOf(id)), id, out); });
}
static bool doFree(State &s, const Val &p, const Instruction *I) {
  if (p.e->op == CONST && p.e->k == 0) return true;
  ObjP *o = p.prov ? findObj(s, p.prov) : nullptr;
  if (!o || (*o)->kind != KHEAP || C.bin(SUB, p.e, K(64, baseOf(p.prov))) != K(64, 0)) { report(s, s.model, "bad-free", "free of a pointer that was not allocated in " + loc(I), I); return false; }
  if (!(*o)->alive) { report(s, s.model, "double-free", "double free in " + loc(I), I); return false; }
  ObjP &ob = cow(s, o); ob->alive = false; ob->cells.clear(); ob->size = K(64, 0); s.liveHeap--; return true;
}
static void ret0(State &&s, const Instruction *I, Rets &out) { if (I && !I->getType()->isVoidTy()) { Type *t = I->getType(); if (t->isIntegerTy() || t->isPointerTy()) { retv(std::move(s), K(widthOf(t), 0), 0, out); return; } } retvoid(std::move(s), out); }
static void initBuiltins() {
  auto &B = builtins;
#define BI(n) B[n] = [](State && s, const Instruction *I, Args &a, Rets &out)
  BI("malloc") { doMalloc(std::move(s), a[0].e, false, false, out); };
  BI("calloc") { doMalloc(std::move(s), C.bin(MUL, a[0].e, a[1].e), true, false, out); };
  BI("_Znwm") { doMalloc(std::move(s), a[0].e, false, true, out); }; BI("_Znam") { doMalloc(std::move(s), a[0].e, false, true, out); };
  BI("free") { if (doFree(s, a[0], I)) retvoid(std::move(s), out); };
  BI("_ZdlPv") { if (doFree(s, a[0], I)) retvoid(std::move(s), out); }; BI("_ZdlPvm") { if (doFree(s, a[0], I)) retvoid(std::move(s), out); }; BI("_ZdaPv") { if (doFree(s, a[0], I)) retvoid(std::move(s), out); };
  BI("realloc") {
    Val p = a[0]; if (p.e->op == CONST && p.e->k == 0) { doMalloc(std::move(s), a[1].e, false, false, out); return; }
    ObjP *o = p.prov ? findObj(s, p.prov) : nullptr; if (!o || (*o)->kind != KHEAP || !(*o)->alive || C.bin(SUB, p.e, K(64, baseOf(p.prov))) != K(64, 0)) { report(s, s.model, "bad-free", "realloc of an invalid pointer in " + loc(I), I); return; }
    splitVals(std::move(s), a[1].e, [&](State &&t, u64 n) {
      if (n == 0) { if (doFree(t, p, I)) retv(std::move(t), K(64, 0), 0, out); return; }
      Rets rs; doMalloc(std::move(t), K(64, n), false, false, rs);
      for (auto &r : rs) { if (r.v.prov) { ObjP src = *findObj(r.s, p.prov); ObjP &d = cow(r.s, findObj(r.s, r.v.prov)); size_t m = std::min(src->cells.size(), d->cells.size()); std::copy(src->cells.begin(), src->cells.begin() + m, d->cells.begin()); doFree(r.s, p, I); } out.push_back(std::move(r)); } }); };
  BI("__errno_location") { int e = s.errnoObj; retv(std::move(s), K(64, baseOf(e)), e, out); };
  BI("abort") { report(s, s.model, "abort", "abort() reached in " + loc(I), I); };
  BI("__assert_fail") { report(s, s.model, "abort", "assertion failure in " + loc(I), I); };
  BI("_ZSt9terminatev") { report(s, s.model, "abort", "std::terminate in " + loc(I), I); };
  BI("__clang_call_terminate") { report(s, s.model, "abort", "std::terminate in " + loc(I), I); };
  BI("exit") { report(s, s.model, "abort", "exit() reached in " + loc(I), I); };
  auto cpy = [](State &&s, const Instruction *I, Args &a, Rets &out) { Val d = a[0], c = a[1]; bool hv = I && !I->getType()->isVoidTy(); splitVals(std::move(s), a[2].e, [&](State &&t, u64 n) { Rets rs; copyMem(std::move(t), d, c, n, I, rs); for (auto &r : rs) { if (hv) r.v = d; out.push_back(std::move(r)); } }); };
  auto st = [](State &&s, const Instruction *I, Args &a, Rets &out) { Val d = a[0]; E b = C.Extract(a[1].e, 0, 8); bool hv = I && !I->getType()->isVoidTy(); splitVals(std::move(s), a[2].e, [&](State &&t, u64 n) { Rets rs; setMem(std::move(t), d, b, n, I, rs); for (auto &r : rs) { if (hv) r.v = d; out.push_back(std::move(r)); } }); };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "__memcpy_chk", "__memmove_chk"}) B[n] = cpy;
  for (auto n : {"memset", "llvm.memset", "__memset_chk"}) B[n] = st;
  for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.stackrestore", "__cxa_end_catch", "__cxa_free_exception", "fprintf", "printf", "puts", "perror", "fputs", "__cxa_atexit", "llvm.experimental.noalias.scope.decl", "llvm.var.annotation", "llvm.prefetch"}) B[n] = [](State && s, const Instruction *I, Args &, Rets &out) { ret0(std::move(s), I, out); };
  BI("llvm.expect") { retv(std::move(s), a[0].e, 0, out); };
  BI("llvm.trap") { report(s, s.model, "abort", "trap in " + loc(I), I); };
  BI("llvm.umax") { retv(std::move(s), C.Ite(C.bin(ULT, a[0].e, a[1].e), a[1].e, a[0].e), 0, out); };
  BI("llvm.umin") { retv(std::move(s), C.Ite(C.bin(ULT, a[0].e, a[1].e), a[0].e, a[1].e), 0, out); };
  BI("llvm.smax") { retv(std::move(s), C.Ite(C.bin(SLT, a[0].e, a[1].e), a[1].e, a[0].e), 0, out); };
  BI("llvm.smin") { retv(std::move(s), C.Ite(C.bin(SLT, a[0].e, a[1].e), a[0].e, a[1].e), 0, out); };
  BI("llvm.abs") { retv(std::move(s), C.Ite(C.bin(SLT, a[0].e, K(a[0].e->w, 0)), C.bin(SUB, K(a[0].e->w, 0), a[0].e), a[0].e), 0, out); };
  BI("llvm.bswap") { E r = nullptr; for (int i = 0; i < a[0].e->w; i += 8) { E b = C.Extract(a[0].e, i, 8); r = r ? C.Concat(r, b) : b; } retv(std::move(s), r, 0, out); };
  BI("llvm.ctpop") { E r = K(a[0].e->w, 0); for (int i = 0; i < a[0].e->w; i++) r = C.bin(ADD, r, C.Zext(C.Extract(a[0].e, i, 1), a[0].e->w)); retv(std::move(s), r, 0, out); };
  auto clz = [](bool lead) { return [lead](State &&s, const Instruction *, Args &a, Rets &out) { E x = a[0].e, r = K(x->w, x->w); for (int k = 0; k < x->w; k++) { int i = lead ? k : x->w - 1 - k; r = C.Ite(C.bin(EQ, C.Extract(x, i, 1), K(1, 1)), K(x->w, lead ? x->w - 1 - i : i), r); } retv(std::move(s), r, 0, out); }; };
  B["llvm.ctlz"] = clz(true); B["llvm.cttz"] = clz(false);
  auto fsh = [](bool left) { return [left](State &&s, const Instruction *, Args &a, Rets &out) { int w = a[0].e->w; E n = C.bin(UREM, a[2].e, K(w, w)), z = C.bin(EQ, n, K(w, 0)), m = C.bin(SUB, K(w, w), n);
    E r = left ? C.Ite(z, a[0].e, C.bin(OR, C.bin(SHL, a[0].e, n), C.bin(LSHR, a[1].e, m))) : C.Ite(z, a[1].e, C.bin(OR, C.bin(LSHR, a[1].e, n), C.bin(SHL, a[0].e, m))); retv(std::move(s), r, 0, out); }; };
  B["llvm.fshl"] = fsh(true); B["llvm.fshr"] = fsh(false);
  auto ovf = [](Op o, bool sg) { return [o, sg](State &&s, const Instruction *, Args &a, Rets &out) { int w = a[0].e->w; E x = a[0].e, y = a[1].e, r = C.bin(o, x, y), v;
    if (o == MUL) { if (sg && w > 32) throw Unsupported{"smul.with.overflow"}; if (w <= 32) { E p = C.bin(MUL, sg ? C.Sext(x, 64) : C.Zext(x, 64), sg ? C.Sext(y, 64) : C.Zext(y, 64)); v = C.Not(C.bin(EQ, p, sg ? C.Sext(r, 64) : C.Zext(r, 64))); } else { E yz = C.bin(EQ, y, K(w, 0)); v = C.And(C.Not(yz), C.bin(ULT, C.bin(UDIV, K(w, ~0ull), C.Ite(yz, K(w, 1), y)), x)); } }
    else if (!sg) v = o == ADD ? C.bin(ULT, r, x) : C.bin(ULT, x, y);
    else { E sxn = C.Extract(x, w - 1, 1), sy = C.Extract(y, w - 1, 1), sr = C.Extract(r, w - 1, 1); v = C.And(o == ADD ? C.bin(EQ, sxn, sy) : C.Not(C.bin(EQ, sxn, sy)), C.Not(C.bin(EQ, sxn, sr))); }
    Val q; q.agg = std::make_shared<std::vector<Val>>(2); (*q.agg)[0].e = r; (*q.agg)[1].e = v; Ret t; t.s = std::move(s); t.v = q; out.push_back(std::move(t)); }; };
  B["llvm.uadd.with.overflow"] = ovf(ADD, false); B["llvm.usub.with.overflow"] = ovf(SUB, false); B["llvm.umul.with.overflow"] = ovf(MUL, false);
  B["llvm.sadd.with.overflow"] = ovf(ADD, true); B["llvm.ssub.with.overflow"] = ovf(SUB, true); B["llvm.smul.with.overflow"] = ovf(MUL, true);
  BI("llvm.usub.sat") { retv(std::move(s), C.Ite(C.bin(ULT, a[0].e, a[1].e), K(a[0].e->w, 0), C.bin(SUB, a[0].e, a[1].e)), 0, out); };
  BI("llvm.uadd.sat") { E r = C.bin(ADD, a[0].e, a[1].e); retv(std::move(s), C.Ite(C.bin(ULT, r, a[0].e), K(r->w, ~0ull), r), 0, out); };
  BI("llvm.is.constant") { retv(std::move(s), K(1, 0), 0, out); };
  BI("llvm.objectsize") { retv(std::move(s), K(64, ~0ull), 0, out); };
  BI("llvm.stacksave") { retv(std::move(s), K(64, 0), 0, out); };
  BI("llvm.eh.typeid.for") { int t = 0; if (auto *cb = dyn_cast<CallBase>(I)) t = typeIdFor(cb->getArgOperand(0)); retv(std::move(s), K(32, t), 0, out); };
  // C++ runtime
  BI("__cxa_allocate_exception") { int o = newObj(s, KHARNESS, a[0].e, 256, "exception"); retv(std::move(s), K(64, baseOf(o)), o, out); };
  BI("__cxa_throw") { s.exc = a[0]; s.excType = a[1].prov; Ret r; r.s = std::move(s); r.exc = true; out.push_back(std::move(r)); };
  BI("__cxa_rethrow") { Ret r; r.s = std::move(s); r.exc = true; out.push_back(std::move(r)); };
  BI("__cxa_begin_catch") { Val v = a[0]; retv(std::move(s), v.e, v.prov, out); };
  BI("_ZSt20__throw_length_errorPKc") { throwT(std::move(s), "_ZTISt12length_error", out); };
  BI("_ZSt19__throw_logic_errorPKc") { throwT(std::move(s), "_ZTISt11logic_error", out); };
  BI("_ZSt20__throw_out_of_rangePKc") { throwT(std::move(s), "_ZTISt12out_of_range", out); };
  BI("_ZSt24__throw_out_of_range_fmtPKcz") { throwT(std::move(s), "_ZTISt12out_of_range", out); };
  BI("_ZSt17__throw_bad_allocv") { throwT(std::move(s), "_ZTISt9bad_alloc", out); };
  for (auto n : {"_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12system_errorD1Ev", "_ZNSt16invalid_argumentC2EPKc", "_ZNSt12length_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt12system_errorD2Ev"}) B[n] = [](State && s, const Instruction *, Args &, Rets &out) { retvoid(std::move(s), out); };
  for (auto n : {"_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2EPKc"}) B[n] = [](State && s, const Instruction *, Args &, Rets &out) { retvoid(std::move(s), out); };
  BI("_ZNSt3_V215system_categoryEv") { retv(std::move(s), K(64, 0x1000), 0, out); }; BI("_ZNSt3_V216generic_categoryEv") { retv(std::move(s), K(64, 0x2000), 0, out); };
  // std::system_error(int / error_code, ...): record the code where code() reads it, behind the std::runtime_error
  auto se = [](State &&s, const Instruction *I, Args &a, Rets &out) { Rets rs; Val v, p = a[0]; v.e = a[1].e; p.e = C.bin(ADD, p.e, K(64, 16)); store(std::move(s), p, v, 4, I, rs); for (auto &r : rs) out.push_back(std::move(r)); };
  for (auto n : {"_ZNSt12system_errorC1EiRKNSt3_V214error_categoryEPKc", "_ZNSt12system_errorC2EiRKNSt3_V214error_categoryEPKc", "_ZNSt12system_errorC1EiRKNSt3_V214error_categoryE", "_ZNSt12system_errorC2EiRKNSt3_V214error_categoryE"}) B[n] = se;
  auto sec = [](State &&s, const Instruction *I, Args &a, Rets &out) { Rets rs; Val v, p = a[0]; v.e = C.Extract(a[1].e, 0, 32); p.e = C.bin(ADD, p.e, K(64, 16)); store(std::move(s), p, v, 4, I, rs); for (auto &r : rs) out.push_back(std::move(r)); };
  for (auto n : {"_ZNSt12system_errorC2ESt10error_codePKc", "_ZNSt12system_errorC1ESt10error_codePKc", "_ZNSt12system_errorC2ESt10error_code", "_ZNSt12system_errorC1ESt10error_code"}) B[n] = sec;
  // ---- harness intrinsics
  BI("sym_u") { // (int bits, u64 lo, u64 hi)
    int w = a[0].e->k; u64 lo = a[1].e->k, hi = a[2].e->k; E e = C.sym("v" + std::to_string(s.symlog.size()), w, lo, hi); E z = C.Zext(e, 64); Val v; v.e = z; s.symlog.push_back(v);
    if (e->op == SYM) { if (s.model->size() <= e->k) { auto m = std::make_shared<Model>(*s.model); size_t o = m->size(); m->resize(C.syms.size()); for (size_t i = o; i < m->size(); i++) (*m)[i] = C.syms[i].lo; s.model = m; } else if ((*s.model)[e->k] < lo || (*s.model)[e->k] > hi) throw Unsupported{"model range"}; }
    retv(std::move(s), z, 0, out); };
  BI("sym_assume") { E c = C.Not(C.bin(EQ, a[0].e, K(a[0].e->w, 0))); if (c->op == CONST) { if (c->k) retvoid(std::move(s), out); return; } if (!evalM(s, c)) { std::shared_ptr<Model> m; if (!check(s, c, m)) return; s.model = m; } assume(s, c); retvoid(std::move(s), out); };
  BI("sym_assert") { E c = C.Not(C.bin(EQ, a[0].e, K(a[0].e->w, 0))); std::string t = cstr(a[1]); S.asserts++;
    if (c->op == CONST) { S.assertsTrivial++; if (c->k) { retvoid(std::move(s), out); return; } report(s, s.model, "assert", t, I); return; }
    if (!evalM(s, c)) { report(s, s.model, "assert", t, I); std::shared_ptr<Model> m; if (!check(s, c, m)) return; s.model = m; assume(s, c); retvoid(std::move(s), out); return; }
    std::shared_ptr<Model> m; if (check(s, C.Not(c), m)) report(s, m, "assert", t, I); 
    // the assertion is implied by the path condition (or has been reported): no need to keep it
    else { retvoid(std::move(s), out); return; }
    assume(s, c); retvoid(std::move(s), out); };
  BI("sym_reach") { s.reach.insert((int)a[0].e->k); retvoid(std::move(s), out); };
  BI("sym_obs") { E e = a[1].e; s.obs.push_back({(int)a[0].e->k, e}); retvoid(std::move(s), out); };
  BI("sym_pick") { splitVals(std::move(s), a[0].e, [&](State &&t, u64 v) { retv(std::move(t), K(a[0].e->w, v), 0, out); }); };
  BI("sym_param") { u64 i = a[0].e->k; retv(std::move(s), K(64, i < J.params.size() ? J.params[i] : 0), 0, out); };
  BI("sym_datalen") { u64 i = a[0].e->k; retv(std::move(s), K(64, i < J.data.size() ? J.data[i].size() : 0), 0, out); };
  BI("sym_data") { u64 i = a[0].e->k; std::string d = i < J.data.size() ? J.data[i] : ""; int id = newObj(s, KHARNESS, K(64, d.size() + 1), d.size() + 1, "data"); ObjP &o = *findObj(s, id); o->ro = true; for (size_t j = 0; j <= d.size(); j++) o->cells[j] = Cell{K(8, j < d.size() ? (uint8_t)d[j] : 0), 0, 0, 1}; retv(std::move(s), K(64, baseOf(id)), id, out); };
  BI("sym_tab") { // (data item, byte offset, stride, index): the 32-bit word at offset + stride * index of a data item, which the caller keeps in bounds
    u64 d = a[0].e->k, off = a[1].e->k, st = a[2].e->k; const std::string &b = J.data.at(d); u64 lo = a[3].e->lo, hi = a[3].e->hi; { C.envSet(s.pc); Ctx::R r = C.rng(a[3].e); if (r.lo > lo) lo = r.lo; if (r.hi < hi) hi = r.hi; }
    if (hi - lo > 400000 || off + st * hi + 4 > b.size()) throw Unsupported{"sym_tab range"};
    std::string key = "data#" + std::to_string(d) + "/" + std::to_string(off) + "/" + std::to_string(st) + "/" + std::to_string(lo) + "/" + std::to_string(hi); std::vector<u64> v; if (!C.tblIdx.count(key)) for (u64 i = lo; i <= hi; i++) { u64 o = off + st * i; v.push_back((uint8_t)b[o] | (uint8_t)b[o + 1] << 8 | (uint8_t)b[o + 2] << 16 | (u64)(uint8_t)b[o + 3] << 24); }
    retv(std::move(s), C.Tbl(key, 32, lo, std::move(v), a[3].e), 0, out); };
  BI("sym_buf") { // (max, logical size, fill byte or -1)
    int id = newObj(s, KHARNESS, a[1].e, a[0].e->k, "buffer"); int f = (int)sx(a[2].e->k, 32); if (f >= 0) { ObjP &o = *findObj(s, id); for (auto &c : o->cells) c = Cell{K(8, f), 0, 0, 1}; } retv(std::move(s), K(64, baseOf(id)), id, out); };
  BI("sym_symbuf") { // (max, logical size): read-only input of symbolic bytes
    u64 n = a[0].e->k; int id = newObj(s, KHARNESS, a[1].e, n, "input buffer"); { ObjP &o = *findObj(s, id); o->ro = true; }
    for (u64 j = 0; j < n; j++) { E e = C.sym("v" + std::to_string(s.symlog.size()), 8, 0, 255); Val v; v.e = e; s.symlog.push_back(v); (*findObj(s, id))->cells[j] = Cell{e, 0, 0, 1}; }
    auto m = std::make_shared<Model>(*s.model); size_t o = m->size(); if (o < C.syms.size()) { m->resize(C.syms.size()); for (size_t i = o; i < m->size(); i++) (*m)[i] = C.syms[i].lo; s.model = m; }
    retv(std::move(s), K(64, baseOf(id)), id, out); };
  BI("sym_freeze") { ObjP *o = findObj(s, a[0].prov); if (o) { ObjP &ob = cow(s, o); ob->ro = true; } retvoid(std::move(s), out); };
  BI("sym_live") { retv(std::move(s), K(32, s.liveHeap), 0, out); };
  BI("sym_gwrites") { retv(std::move(s), K(32, s.gwrites), 0, out); };
  BI("sym_track_globals") { s.track = a[0].e->k != 0; s.gwrites = 0; retvoid(std::move(s), out); };
  BI("sym_fail_malloc") { s.failMalloc = (int)a[0].e->k; retvoid(std::move(s), out); };
  BI("sym_is_sym") { retv(std::move(s), K(32, 1), 0, out); };
  BI("sym_is_const") { retv(std::move(s), K(32, a[0].e->op == CONST), 0, out); };
  BI("sym_clear_errno") { setErrno(s, 0); retvoid(std::move(s), out); };
  BI("sym_heapsig") { // hash-free signature: append the bytes of a heap object as observations (tag, value or -1 when symbolic)
    ObjP *o = a[0].prov ? findObj(s, a[0].prov) : nullptr; if (o) for (auto &c : (*o)->cells) { bool un = !c.prov && !c.e; E b = c.prov || un ? K(8, 0) : byteOf(c); s.obs.push_back({9000, b && b->op == CONST ? b : K(32, 999)}); } retvoid(std::move(s), out); };
}
