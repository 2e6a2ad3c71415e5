// symx: symbolic executor for LLVM IR (bounded, merging at library returns), z3 back end.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <memory>
#include <set>
#include <deque>
#include <sys/resource.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
using namespace llvm;
static Ctx C;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline E K(int w, u64 v) { return C.K(w, v); }

struct Val { E e = nullptr; int prov = 0; std::shared_ptr<std::vector<Val>> agg; };
struct Cell { E e = nullptr; int prov = 0; uint8_t k = 0, n = 0; };
enum Kind : uint8_t { KHEAP, KSTACK, KGLOBAL, KHARNESS };
struct Obj { int id; Kind kind; bool alive = true; E size; std::vector<Cell> cells; bool ro = false; std::string name; };
typedef std::shared_ptr<Obj> ObjP;
typedef std::vector<u64> Model;
struct Unsupported { std::string msg; };
struct JobStop { std::string why; };

struct State {
  std::vector<E> pc; std::shared_ptr<Model> model;
  std::vector<std::pair<int, ObjP>> objs; // sorted by id
  std::vector<Val> symlog; std::vector<std::pair<int, E>> obs; std::set<int> reach;
  std::vector<E> allocLog;
  int nextObj = 0, liveHeap = 0, gwrites = 0; u64 steps = 0; int failMalloc = 0; bool track = false;
  Val exc; int excType = 0; int errnoObj = 0; std::vector<int> caught;
};

// ---- module-level
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
struct GInfo { const GlobalValue *gv; bool isConst = false; bool flat = false; std::vector<Cell> cells; std::vector<uint8_t> raw; bool hasReloc = false; u64 size = 0; bool ext = false; };
static std::vector<GInfo> G; static std::map<const GlobalValue *, int> gid; // ids from 1
static int firstDyn;
static inline u64 baseOf(int id) { return (u64)id << 32; }
static inline int idOf(u64 addr) { return (int)(addr >> 32); }

struct Opnd { int slot = -1; Val c; bool lazy = false; const Constant *k = nullptr; };
struct FInfo { const Function *f; std::map<const Value *, int> slot; int nslots = 0; bool harness = false; std::map<const Instruction *, std::vector<Opnd>> ops; std::map<const BasicBlock *, const BasicBlock *> ipd; std::map<const BasicBlock *, std::vector<char>> livein; };
static std::map<const Function *, FInfo *> finfo;
static std::map<std::string, std::function<void(State &&, const Instruction *, std::vector<Val> &, std::vector<struct Ret> &)>> builtins;

// ---- job
struct Job { std::vector<char> isfile; std::string id, fn; std::vector<i64> params; std::vector<std::string> data; double tmo = 60; int maxPaths = 200000; int maxViol = 3; u64 maxSteps = 400000; int validate = 2; bool join = true; };
static Job J;
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, paths = 0, instrs = 0, merges = 0, asserts = 0, assertsTrivial = 0, forks = 0, interval = 0, cached = 0, table = 0; double solver = 0; } S;
static std::set<std::string> fnsRun; static std::set<int> reached; static std::vector<json::Object> violations; static std::map<std::string, int> violKeys; static std::vector<json::Object> samples;
static double t0; static bool incomplete = false; static std::string incompleteWhy;
static std::set<int> pickIncomplete;

// ---- solver
static Z3_solver Z = nullptr; static std::vector<bool> symAsserted; static std::unordered_map<E, Z3_ast> proxy; static u64 solverNodes = 0;
static double qTimeout = 60;
static void newSolver() {
  if (Z) Z3_solver_dec_ref(C.z, Z);
  Z = Z3_mk_solver_for_logic(C.z, Z3_mk_string_symbol(C.z, "QF_FD")); Z3_solver_inc_ref(C.z, Z);
  Z3_params p = Z3_mk_params(C.z); Z3_params_inc_ref(C.z, p); Z3_params_set_uint(C.z, p, Z3_mk_string_symbol(C.z, "timeout"), (unsigned)(qTimeout * 1000)); Z3_solver_set_params(C.z, Z, p); Z3_params_dec_ref(C.z, p);
  symAsserted.clear(); proxy.clear(); solverNodes = 0;
}
static Z3_ast lit(E e) {
  auto it = proxy.find(e); if (it != proxy.end()) return it->second;
  Z3_ast t = C.tb(e); Z3_ast p = Z3_mk_fresh_const(C.z, "p", Z3_mk_bool_sort(C.z));
  Z3_solver_assert(C.z, Z, Z3_mk_implies(C.z, p, t)); proxy[e] = p; return p;
}
static void assertSyms() {
  while (symAsserted.size() < C.syms.size()) { int i = symAsserted.size(); auto &s = C.syms[i]; if (s.w > 1) { Z3_ast a = C.symast(i); if (s.lo > 0) Z3_solver_assert(C.z, Z, Z3_mk_bvuge(C.z, a, C.zk(s.w, s.lo))); if (s.hi < mask(s.w)) Z3_solver_assert(C.z, Z, Z3_mk_bvule(C.z, a, C.zk(s.w, s.hi))); } symAsserted.push_back(true); }
}
// is pc && c satisfiable?  c's state-model m gives values to independent symbols.
static std::deque<std::shared_ptr<Model>> pool;
static std::string dumpE(E e, int d);
static bool check(const State &s, E c, std::shared_ptr<Model> &out) {
  if (c->op == CONST && !c->k) return false;
  if (now() - t0 > J.tmo) throw JobStop{"time limit"};
  C.envSet(s.pc); { Ctx::R r = C.rng(c); if (!r.hi || C.envBad) { S.interval++; return false; } }
  for (int i = (int)pool.size() - 1; i >= 0; i--) { C.newEval(*pool[i]); if (!C.eval(c)) continue; bool ok = true; for (size_t j = s.pc.size(); j-- > 0;) if (!C.eval(s.pc[j])) { ok = false; break; } if (ok) { S.cached++; out = pool[i]; if (out->size() < C.syms.size()) { auto m = std::make_shared<Model>(*out); size_t o = m->size(); m->resize(C.syms.size()); for (size_t q = o; q < m->size(); q++) (*m)[q] = C.syms[q].lo; out = m; } return true; } }
  // independence slicing
  std::vector<E> used{c}; u64 sup = c->sup; std::vector<char> in(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && (s.pc[i]->sup & sup)) { in[i] = 1; if (s.pc[i]->sup & ~sup) { sup |= s.pc[i]->sup; ch = true; } used.push_back(s.pc[i]); } }
  // constraints over one small domain, some of them table lookups: the simplifier's conjunction is itself a table, which is empty or not
  if (!C.noCanon) { bool anyT = false; Expr sup1; memset((void *)&sup1, 0, sizeof sup1); for (E e : used) { Ctx::joinSup(&sup1, e); if (C.isT(e)) anyT = true; }
    Ctx::Dom d; if (anyT && sup1.ns < 3 && C.dom({&sup1}, d)) {
      E acc = nullptr; auto conj = [&](E x) { if (!acc) acc = x; else { E r = (acc->op == CONST || x->op == CONST) ? C.bin(AND, acc, x) : C.tabulate(AND, 1, acc, x, nullptr, 0); acc = r ? r : C.bin(AND, acc, x); } };
      for (E e : used) if (C.isT(e) && e != c) conj(e); for (E e : used) if (!C.isT(e) && e != c) conj(e); conj(c);
      if (acc->op == CONST && !acc->k) { S.table++; return false; }
      if (C.isT(acc)) { Table *tb = C.tables[acc->k]; Ctx::Dom d2; C.dom({acc}, d2); u64 i = 0, nn = tb->v.size(); auto inR = [&](u64 q) { if (d2.s2 < 0) return true; auto &a = C.syms[d2.s1], &b = C.syms[d2.s2]; return (q >> 8) >= a.lo && (q >> 8) <= a.hi && (q & 255) >= b.lo && (q & 255) <= b.hi; }; while (i < nn && !(tb->v[i] && inR(i))) i++; if (i == nn) { S.table++; return false; }
        auto m = std::make_shared<Model>(*s.model); m->resize(C.syms.size()); for (size_t q = s.model->size(); q < m->size(); q++) (*m)[q] = C.syms[q].lo;
        if (d2.s2 < 0) (*m)[d2.s1] = d2.lo + i; else { (*m)[d2.s1] = i >> 8; (*m)[d2.s2] = i & 255; }
        C.newEval(*m); bool ok = C.eval(c); for (E e : s.pc) if (!C.eval(e)) ok = false;
        if (ok) { S.table++; out = m; pool.push_back(m); if (pool.size() > 40) pool.pop_front(); return true; } } } }
  static u64 lastTbl = 0; static size_t PL = getenv("PL") ? atoi(getenv("PL")) : 24; if (proxy.size() > PL || C.nTblNodes - lastTbl > 20000) { newSolver(); lastTbl = C.nTblNodes; }
  double ts = now(); std::vector<Z3_ast> as; for (E e : used) { if (e->op == AND) { std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == AND) { st.push_back(x->a); st.push_back(x->b); } else as.push_back(lit(x)); } } else as.push_back(lit(e)); }
  assertSyms();
  Z3_lbool r = Z3_solver_check_assumptions(C.z, Z, as.size(), as.data());
  S.queries++;
  if (getenv("SYMX_SLOW") && now() - ts > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "[slow %.2fs] %s %s tbl=%llu r=%d %s\n", now() - ts, J.id.c_str(), J.fn.c_str(), (unsigned long long)C.nTblNodes, (int)r, dumpE(c, 7).substr(0, 600).c_str()); }
  if (r == Z3_L_UNDEF) { S.solver += now() - ts; S.unknown++; incomplete = true; incompleteWhy = "solver unknown"; return false; }
  if (r == Z3_L_FALSE) { S.unsat++; S.solver += now() - ts; return false; }
  S.sat++;
  auto m = std::make_shared<Model>(*s.model); m->resize(C.syms.size());
  for (size_t i = s.model->size(); i < m->size(); i++) (*m)[i] = C.syms[i].lo;
  Z3_model zm = Z3_solver_get_model(C.z, Z); Z3_model_inc_ref(C.z, zm);
  for (size_t i = 0; i < C.syms.size(); i++) if (sup >> (i & 63) & 1) {
    Z3_ast v; if (Z3_model_eval(C.z, zm, C.symast(i), false, &v)) {
      if (C.syms[i].w == 1) { Z3_lbool b = Z3_get_bool_value(C.z, v); if (b != Z3_L_UNDEF) (*m)[i] = b == Z3_L_TRUE; }
      else { u64 x; if (Z3_get_ast_kind(C.z, v) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C.z, v, &x)) (*m)[i] = x; } } }
  Z3_model_dec_ref(C.z, zm); S.solver += now() - ts;
  C.newEval(*m); bool ok = C.eval(c); for (E e : s.pc) if (!C.eval(e)) ok = false;
  if (!ok) { fprintf(stderr, "symx: model does not satisfy query (job %s)\n", J.id.c_str()); throw Unsupported{"model mismatch"}; }
  out = m; pool.push_back(m); if (pool.size() > 40) pool.pop_front(); return true;
}
static std::string dumpE(E e, int d) { if (e->op == CONST) return std::to_string((i64)e->k); if (e->op == SYM) return "s" + std::to_string(e->k); static const char *n[] = {"C","S","+","-","*","/","s/","%","s%","&","|","^","<<",">>","s>>","==","<","<=","s<","s<=","ite","zx","sx","ex","cat","T"}; std::string r = std::string("(") + n[e->op]; if (d <= 0) return r + " ...)"; if (e->op == TBL) r += (C.tables[e->k]->canon ? "!" : "?") + std::to_string(e->k); for (E x : {e->a, e->b, e->c}) if (x) r += " " + dumpE(x, d - 1); return r + ")"; }
static u64 evalM(const State &s, E e) { if (e->op == CONST) return e->k; C.newEval(*s.model); return C.eval(e); }
static void assume(State &s, E c) { if (c->op == CONST) return; if (c->op == AND && c->w == 1) { assume(s, c->a); assume(s, c->b); return; } for (E e : s.pc) if (e == c) return; s.pc.push_back(c); }

// ---- reporting
static std::string loc(const Instruction *I) { if (!I) return "?"; std::string r = I->getFunction() ? I->getFunction()->getName().str() : "?"; if (auto &d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine()); return r; }
static json::Array symVals(const State &s, const Model &m) { C.newEval(m); json::Array a; for (auto &v : s.symlog) a.push_back((int64_t)C.eval(v.e)); return a; }
static json::Array allocVals(const State &s, const Model &m) { C.newEval(m); json::Array a; for (auto v : s.allocLog) a.push_back((int64_t)C.eval(v)); return a; }
static void report(const State &s, const std::shared_ptr<Model> &m, const std::string &kind, const std::string &msg, const Instruction *I) {
  std::string key = kind + "|" + msg; int &n = violKeys[key]; n++; if (n > 1) return;
  json::Object o; o["kind"] = kind; o["msg"] = msg; o["loc"] = loc(I); o["syms"] = symVals(s, *m); o["allocs"] = allocVals(s, *m);
  violations.push_back(std::move(o)); if ((int)violations.size() >= J.maxViol) throw JobStop{"violations"};
}

// ---- memory
static ObjP *findObj(State &s, int id) { auto it = std::lower_bound(s.objs.begin(), s.objs.end(), id, [](const std::pair<int, ObjP> &p, int i) { return p.first < i; }); if (it != s.objs.end() && it->first == id) return &it->second; return nullptr; }
static void insObj(State &s, ObjP o) { auto it = std::lower_bound(s.objs.begin(), s.objs.end(), o->id, [](const std::pair<int, ObjP> &p, int i) { return p.first < i; }); s.objs.insert(it, {o->id, o}); }
static int newObj(State &s, Kind k, E size, u64 phys, const std::string &name) { auto o = std::make_shared<Obj>(); o->id = s.nextObj++; o->kind = k; o->size = size; o->cells.resize(phys); o->name = name; insObj(s, o); return o->id; }
static Val constVal(const Constant *c);
static void flatten(const Constant *c, std::vector<Cell> &cells, u64 off, bool &rel) {
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { return; }
  if (isa<UndefValue>(c)) return;
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { u64 n = DL->getTypeStoreSize(t); u64 v = ci->getZExtValue(); for (u64 i = 0; i < n; i++) { cells[off + i] = Cell{K(8, v >> (8 * i)), 0, 0, 1}; } return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = cd->getElementByteSize(); StringRef raw = cd->getRawDataValues(); (void)es; for (u64 i = 0; i < raw.size(); i++) cells[off + i] = Cell{K(8, (uint8_t)raw[i]), 0, 0, 1}; return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), cells, off + i * es, rel); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), cells, off + sl->getElementOffset(i), rel); return; }
  Val v = constVal(c); u64 n = DL->getTypeStoreSize(t); rel = true;
  for (u64 i = 0; i < n; i++) cells[off + i] = Cell{v.e, v.prov, (uint8_t)i, (uint8_t)n};
}
static void flat(GInfo &g) {
  if (g.flat) return; g.flat = true;
  auto *v = dyn_cast<GlobalVariable>(g.gv); if (!v) return;
  g.cells.assign(g.size, Cell{K(8, 0), 0, 0, 1});
  if (v->hasInitializer()) flatten(v->getInitializer(), g.cells, 0, g.hasReloc);
  if (!g.hasReloc) { g.raw.resize(g.size); for (u64 i = 0; i < g.size; i++) g.raw[i] = g.cells[i].e->k; }
}
static u64 undefCtr = 0;
static Val constVal(const Constant *c) {
  Type *t = c->getType(); Val r;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide const"}; r.e = K(ci->getBitWidth(), ci->getZExtValue()); return r; }
  if (isa<ConstantPointerNull>(c)) { r.e = K(64, 0); return r; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); int id = gid.at(gv); r.e = K(64, baseOf(id)); r.prov = id; return r; }
  if ((isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) && t->isAggregateType()) { r.agg = std::make_shared<std::vector<Val>>(); bool z = !isa<UndefValue>(c); u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (u64 i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); r.agg->push_back(constVal(z ? Constant::getNullValue(et) : (Constant *)UndefValue::get(et))); } return r; }
  if (isa<UndefValue>(c)) { int w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; r.e = C.sym("undef" + std::to_string(undefCtr++), w, 0, w >= 64 ? ~0ull : (1ull << w) - 1); return r; }
  if (isa<ConstantArray>(c)) { r.agg = std::make_shared<std::vector<Val>>(); for (auto &o : c->operands()) r.agg->push_back(constVal(cast<Constant>(o))); return r; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cs->getNumOperands(); i++) r.agg->push_back(constVal(cs->getOperand(i))); return r; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; b.e = C.bin(ADD, b.e, K(64, off.getZExtValue())); return b; }
    case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: { Val b = constVal(ce->getOperand(0)); int w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); if (b.e->w > w) b.e = C.Extract(b.e, 0, w); else b.e = C.Zext(b.e, w); return b; }
    case Instruction::Sub: case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); r.e = C.bin(ce->getOpcode() == Instruction::Sub ? SUB : ADD, a.e, b.e); return r; }
    case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); r.e = C.Extract(a.e, 0, t->getIntegerBitWidth()); return r; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"const " + s.substr(0, 80)};
}
static E byteOf(const Cell &c) { if (!c.e) return nullptr; return c.n == 1 ? c.e : C.Extract(c.e, 8 * c.k, 8); }
static Val fromCells(const Cell *c, int n, int w) {
  Val r; if (c[0].e && c[0].n == n && c[0].k == 0) { bool ok = true; for (int i = 1; i < n; i++) if (c[i].e != c[0].e || c[i].k != i || c[i].n != n || c[i].prov != c[0].prov) { ok = false; break; } if (ok) { r.e = c[0].e; r.prov = c[0].prov; if (r.e->w > w) r.e = C.Extract(r.e, 0, w); else if (r.e->w < w) r.e = C.Zext(r.e, w); return r; } }
  E acc = nullptr; int pv = 0; for (int i = 0; i < n; i++) { E b = byteOf(c[i]); if (!b) b = C.sym("undef" + std::to_string(undefCtr++), 8, 0, 255); if (c[i].prov) pv = c[i].prov; acc = acc ? C.Concat(b, acc) : b; }
  r.e = acc->w > w ? C.Extract(acc, 0, w) : acc; r.prov = w == 64 ? pv : 0; return r;
}
static int widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); throw Unsupported{"type width"}; }
// scalar parts of an aggregate type, with their offsets; values of aggregates are trees of Val
static void leaves(Type *t, u64 off, std::vector<std::pair<Type *, u64>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 z = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * z, out); }
  else out.push_back({t, off});
}
static Val buildAgg(Type *t, const std::vector<Val> &v, size_t &k) {
  if (!t->isAggregateType()) return v[k++];
  Val r; r.agg = std::make_shared<std::vector<Val>>(); u64 n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
  for (u64 i = 0; i < n; i++) r.agg->push_back(buildAgg(isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType(), v, k));
  return r;
}
static void flatAgg(const Val &v, std::vector<Val> &out) { if (v.agg) for (auto &x : *v.agg) flatAgg(x, out); else out.push_back(v); }
struct Mem { ObjP *op = nullptr; GInfo *g = nullptr; E size; E off; std::string name; Kind kind; };
// resolve a pointer; reports invalid pointers. returns false when the path must end.
static bool resolve(State &s, const Val &p, const Instruction *I, Mem &m, const char *what) {
  int id = p.prov;
  if (!id) { if (p.e->op == CONST) { id = idOf(p.e->k); if (!(id > 0 && (id < firstDyn ? true : findObj(s, id) != nullptr))) id = 0; } }
  if (!id) { report(s, s.model, "bad-pointer", std::string(what) + " through a null or invalid pointer in " + loc(I), I); return false; }
  if (id < firstDyn) { GInfo &g = G[id]; if (g.isConst) { flat(g); m.g = &g; m.size = K(64, g.size); m.name = g.gv->getName().str(); m.kind = KGLOBAL; m.off = C.bin(SUB, p.e, K(64, baseOf(id))); return true; }
    if (isa<Function>(g.gv)) { report(s, s.model, "bad-pointer", std::string(what) + " of code in " + loc(I), I); return false; }
    if (!findObj(s, id)) { if (g.ext) throw Unsupported{"external global " + g.gv->getName().str()}; flat(g); auto o = std::make_shared<Obj>(); o->id = id; o->kind = KGLOBAL; o->size = K(64, g.size); o->cells = g.cells; o->name = g.gv->getName().str(); insObj(s, o); } }
  ObjP *op = findObj(s, id);
  if (!op) { report(s, s.model, "dangling", std::string(what) + " of dead stack memory in " + loc(I), I); return false; }
  if (!(*op)->alive) { report(s, s.model, "use-after-free", std::string(what) + " of freed memory in " + loc(I), I); return false; }
  m.op = op; m.size = (*op)->size; m.name = (*op)->name; m.kind = (*op)->kind; m.off = C.bin(SUB, p.e, K(64, baseOf(id))); return true;
}
// require off+n <= size on this path; report otherwise. returns false if never in bounds.
static bool inBounds(State &s, Mem &m, u64 n, const Instruction *I, const char *what) {
  E end = C.bin(ADD, m.off, K(64, n));
  E ok = C.And(C.bin(ULE, end, m.size), C.bin(ULE, m.off, end));
  if (ok->op == CONST && ok->k) return true;
  std::shared_ptr<Model> mm; E bad = C.Not(ok); bool isBad = evalM(s, bad);
  std::string msg = std::string(what) + " out of bounds of " + (m.name.empty() ? "buffer" : m.name) + " in " + loc(I);
  if (isBad) { report(s, s.model, "oob", msg, I); if (!check(s, ok, mm)) return false; s.model = mm; assume(s, ok); return true; }
  if (check(s, bad, mm)) report(s, mm, "oob", msg, I);
  assume(s, ok); return true;
}
static ObjP &cow(State &s, ObjP *op) { if (op->use_count() > 1) *op = std::make_shared<Obj>(**op); return *op; }
struct Ret { State s; Val v; bool exc = false; };
// enumerate feasible values of e: splits s
static void splitVals(State &&s, E e, const std::function<void(State &&, u64)> &f, size_t limit = 5000) {
  if (e->op == CONST) { f(std::move(s), e->k); return; }
  size_t n = 0;
  for (;;) {
    u64 v = evalM(s, e); E eq = C.bin(EQ, e, K(e->w, v)); E ne = C.Not(eq);
    std::shared_ptr<Model> mm; bool more = ne->op == CONST ? ne->k : check(s, ne, mm);
    if (!more) { assume(s, eq); f(std::move(s), v); return; }
    State t = s; assume(t, eq); S.forks++; f(std::move(t), v);
    s.model = mm; assume(s, ne);
    if (++n > limit) { incomplete = true; incompleteWhy = "value split limit"; return; }
  }
}
// linear form helper: e = x*k + c
static void lin(E e, E &x, u64 &k, u64 &c) {
  c = 0; k = 1; x = e;
  if (x->op == ADD && x->b->op == CONST) { c = x->b->k; x = x->a; }
  if (x->op == SHL && x->b->op == CONST) { k = 1ull << x->b->k; x = x->a; }
  else if (x->op == MUL && x->b->op == CONST) { k = x->b->k; x = x->a; }
}
static u64 p2stride(E e) { switch (e->op) { case CONST: return e->k ? (e->k & -e->k) : 1ull << 62; case SHL: return e->b->op == CONST && e->b->k < 62 ? (p2stride(e->a) << e->b->k ? p2stride(e->a) << e->b->k : 1ull << 62) : 1; case MUL: { u64 a = p2stride(e->a), b = p2stride(e->b); int l = __builtin_ctzll(a) + __builtin_ctzll(b); return 1ull << (l > 62 ? 62 : l); } case ADD: case SUB: { u64 a = p2stride(e->a), b = p2stride(e->b); return a < b ? a : b; } case ZEXT: return p2stride(e->a); case SEXT: return p2stride(e->a); case ITE: { u64 a = p2stride(e->b), b = p2stride(e->c); return a < b ? a : b; } default: return 1; } }
static void load(State &&s, const Val &p, int n, int w, const Instruction *I, std::vector<Ret> &out) {
  Mem m; if (!resolve(s, p, I, m, "read")) return; if (!inBounds(s, m, n, I, "read")) return;
  if (m.off->op == CONST) { u64 o = m.off->k; Cell *c = m.g ? m.g->cells.data() + o : (*m.op)->cells.data() + o; u64 phys = m.g ? m.g->cells.size() : (*m.op)->cells.size(); if (o + n > phys) throw Unsupported{"phys"}; Val v = fromCells(c, n, w); out.push_back({std::move(s), v}); return; }
  u64 phys = m.g ? m.g->size : (*m.op)->cells.size();
  if (m.g && !m.g->hasReloc) {
    E x; u64 k, c; lin(m.off, x, k, c); C.envSet(s.pc); Ctx::R xr = C.rng(x), offr = C.rng(m.off); u64 xlo = xr.lo, xhi = xr.hi;
    // try linear index: exact when x*k+c cannot wrap within range; restrict x to in-bounds values
    bool linear = false; u64 lo = 0, hi = 0;
    { i64 cs = (i64)c; // offsets cs + k*x in [0, phys-n]
      __int128 l = cs < 0 ? ((__int128)(-cs) + k - 1) / k : 0; __int128 h = ((__int128)phys - n - cs); if (h >= 0) { h /= k; if (l < (__int128)xlo) l = xlo; if (h > (__int128)xhi) h = xhi;
        // wrap possibility: x up to xhi times k must stay below 2^64
        if ((unsigned __int128)xhi * k < ((unsigned __int128)1 << 63) && l <= h) { linear = true; lo = (u64)l; hi = (u64)h; } } }
    E idx; std::vector<u64> offs; u64 olo, stride;
    if (linear && hi - lo < 200000) { idx = x; olo = lo; stride = k; }
    else { stride = p2stride(m.off); if (stride > 4096) stride = 4096; u64 r = m.off->op == ADD && m.off->b->op == CONST ? m.off->b->k % stride : 0; (void)r; stride = std::min<u64>(stride, 8); u64 l = offr.lo, h = std::min<u64>(offr.hi, phys - n); if (l > h) l = 0; l = l / stride * stride; idx = C.bin(LSHR, m.off, K(64, __builtin_ctzll(stride))); olo = l / stride; lo = olo; hi = h / stride; k = stride; c = 0; }
    u64 cnt = hi - lo + 1; if (cnt > 400000) throw Unsupported{"table too large"};
    std::string key = m.name + "#" + std::to_string(gid[m.g->gv]) + "/" + std::to_string(n) + "/" + std::to_string(w) + "/" + std::to_string(k) + "/" + std::to_string(c) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
    std::vector<u64> v; if (!C.tblIdx.count(key)) { v.reserve(cnt); for (u64 i = lo; i <= hi; i++) { u64 o = i * k + c; u64 t = 0; for (int j = 0; j < n && o + j < m.g->raw.size(); j++) t |= (u64)m.g->raw[o + j] << (8 * j); v.push_back(t & mask(w)); } }
    E e = C.Tbl(key, w, lo, std::move(v), idx); Val r; r.e = e; out.push_back({std::move(s), r}); return;
  }
  // mutable object or relocations: split on feasible offsets when pointers are involved, else ITE chain
  const std::vector<Cell> &cells = m.g ? m.g->cells : (*m.op)->cells; u64 lo = m.off->lo, hi = std::min<u64>(m.off->hi, phys - n); if (lo > hi) { lo = 0; hi = phys - n; }
  u64 st = p2stride(m.off); if (st > 8) st = 8; bool ptr = false; for (u64 o = lo; o < hi + n; o++) if (cells[o].prov) ptr = true;
  if (ptr || hi - lo > 4096) { E off = m.off; int prov = p.prov; u64 b = p.prov ? baseOf(prov) : 0; (void)b; splitVals(std::move(s), off, [&](State &&t, u64 o) { Val q = p; q.e = K(64, baseOf(prov) + o); load(std::move(t), q, n, w, I, out); }); return; }
  E acc = nullptr; lo = (lo + st - 1) / st * st;
  for (u64 o = lo; o <= hi; o += st) { Val v = fromCells(&cells[o], n, w); acc = acc ? C.Ite(C.bin(EQ, m.off, K(64, o)), v.e, acc) : v.e; }
  Val r; r.e = acc; out.push_back({std::move(s), r});
}
static bool storeOK(State &s, Mem &m, const Instruction *I) {
  if (m.g || (m.op && (*m.op)->ro)) { report(s, s.model, "const-write", "write to constant data " + m.name + " in " + loc(I), I); return false; }
  if (m.kind == KGLOBAL && s.track && m.name.compare(0, 3, "mm_")) s.gwrites = 1;
  return true;
}
static void store(State &&s, const Val &p, const Val &v, int n, const Instruction *I, std::vector<Ret> &out) {
  Mem m; if (!resolve(s, p, I, m, "write")) return; if (!inBounds(s, m, n, I, "write")) return; if (!storeOK(s, m, I)) return;
  E e = v.e; if (e->w < 8 * n) e = C.Zext(e, 8 * n);
  if (m.off->op == CONST) { u64 o = m.off->k; ObjP &ob = cow(s, m.op); if (o + n > ob->cells.size()) throw Unsupported{"phys store"}; for (int i = 0; i < n; i++) ob->cells[o + i] = Cell{e, v.prov, (uint8_t)i, (uint8_t)n}; out.push_back({std::move(s), Val()}); return; }
  u64 phys = (*m.op)->cells.size(); u64 lo = m.off->lo, hi = std::min<u64>(m.off->hi, phys - n); if (lo > hi) { lo = 0; hi = phys - n; }
  if (v.prov || hi - lo > 512) { int prov = p.prov; splitVals(std::move(s), m.off, [&](State &&t, u64 o) { Val q = p; q.e = K(64, baseOf(prov) + o); store(std::move(t), q, v, n, I, out); }); return; }
  ObjP &ob = cow(s, m.op); u64 st = p2stride(m.off); if (st > 8) st = 8; lo = (lo + st - 1) / st * st;
  for (u64 o = lo; o <= hi; o += st) { E c = C.bin(EQ, m.off, K(64, o)); for (int i = 0; i < n; i++) { Cell &ce = ob->cells[o + i]; if (ce.prov) throw Unsupported{"symbolic store over pointer"}; E old = byteOf(ce); E nb = C.Extract(e, 8 * i, 8); ce = Cell{old ? C.Ite(c, nb, old) : nb, 0, 0, 1}; } }
  out.push_back({std::move(s), Val()});
}
// copy n (concrete) bytes
static void copyMem(State &&s, const Val &d, const Val &src, u64 n, const Instruction *I, std::vector<Ret> &out) {
  if (n == 0) { out.push_back({std::move(s), Val()}); return; }
  Mem a, b; if (!resolve(s, src, I, b, "read")) return; if (!inBounds(s, b, n, I, "read")) return;
  if (b.off->op != CONST) { splitVals(std::move(s), b.off, [&](State &&t, u64 o) { Val q = src; q.e = K(64, baseOf(src.prov) + o); copyMem(std::move(t), d, q, n, I, out); }); return; }
  std::vector<Cell> tmp; { const std::vector<Cell> &c = b.g ? b.g->cells : (*b.op)->cells; tmp.assign(c.begin() + b.off->k, c.begin() + b.off->k + n); }
  if (!resolve(s, d, I, a, "write")) return; if (!inBounds(s, a, n, I, "write")) return; if (!storeOK(s, a, I)) return;
  if (a.off->op != CONST) { splitVals(std::move(s), a.off, [&](State &&t, u64 o) { Val q = d; q.e = K(64, baseOf(d.prov) + o); copyMem(std::move(t), q, src, n, I, out); }); return; }
  ObjP &ob = cow(s, a.op); std::copy(tmp.begin(), tmp.end(), ob->cells.begin() + a.off->k); out.push_back({std::move(s), Val()});
}
static void setMem(State &&s, const Val &d, E byte, u64 n, const Instruction *I, std::vector<Ret> &out) {
  if (n == 0) { out.push_back({std::move(s), Val()}); return; }
  Mem a; if (!resolve(s, d, I, a, "write")) return; if (!inBounds(s, a, n, I, "write")) return; if (!storeOK(s, a, I)) return;
  if (a.off->op != CONST) { splitVals(std::move(s), a.off, [&](State &&t, u64 o) { Val q = d; q.e = K(64, baseOf(d.prov) + o); setMem(std::move(t), q, byte, n, I, out); }); return; }
  ObjP &ob = cow(s, a.op); for (u64 i = 0; i < n; i++) ob->cells[a.off->k + i] = Cell{byte, 0, 0, 1}; out.push_back({std::move(s), Val()});
}
// ---- merging
static bool PTRMERGE = false; // positions found by a search in constant data may differ when merging
static bool mergeVal(const Val &a, const Val &b) { if (a.agg || b.agg) return false; if (!a.e || !b.e) return !a.e && !b.e; if (a.e == b.e && a.prov == b.prov) return true; if (a.prov != b.prov) return false; if (PTRMERGE && a.prov) return true; if (a.e->itec && b.e->itec && a.e->w >= 32) return false; if (a.e->op == CONST && b.e->op == CONST) return false; return true; }
static bool cellSame(const Cell &a, const Cell &b) { return a.e == b.e && a.k == b.k && a.n == b.n && a.prov == b.prov; }
static bool canMergeObj(const Obj &a, const Obj &b) {
  if (a.alive != b.alive || a.size != b.size || a.cells.size() != b.cells.size() || a.kind != b.kind || a.ro != b.ro) return false;
  for (size_t i = 0; i < a.cells.size(); i++) { auto &x = a.cells[i], &y = b.cells[i]; if (cellSame(x, y)) continue; if (!x.e || !y.e) { if (x.prov || y.prov) return false; continue; }
    if (x.prov != y.prov) return false; if (x.prov && (x.k != y.k || x.n != y.n)) return false;
    if (x.n >= 4 && y.n >= 4 && x.e->op == CONST && y.e->op == CONST && x.e != y.e) return false; }
  return true;
}
static bool mergeStates(State &x, State &y, E &g) {
  if (x.objs.size() != y.objs.size()) {
    return false; }
  if (x.symlog.size() != y.symlog.size() || x.obs.size() != y.obs.size() || x.reach != y.reach || x.allocLog != y.allocLog || x.liveHeap != y.liveHeap || x.gwrites != y.gwrites || x.failMalloc != y.failMalloc || x.caught != y.caught) return false;
  for (size_t i = 0; i < x.symlog.size(); i++) if (x.symlog[i].e != y.symlog[i].e) return false;
  for (size_t i = 0; i < x.obs.size(); i++) if (x.obs[i] != y.obs[i]) return false;
  for (size_t i = 0; i < x.objs.size(); i++) { if (x.objs[i].first != y.objs[i].first) return false; if (x.objs[i].second != y.objs[i].second && !canMergeObj(*x.objs[i].second, *y.objs[i].second)) return false; }
  size_t p = 0; while (p < x.pc.size() && p < y.pc.size() && x.pc[p] == y.pc[p]) p++;
  E cx = K(1, 1), cy = K(1, 1); for (size_t i = p; i < x.pc.size(); i++) cx = C.And(cx, x.pc[i]); for (size_t i = p; i < y.pc.size(); i++) cy = C.And(cy, y.pc[i]);
  g = cx;
  for (size_t i = 0; i < x.objs.size(); i++) if (x.objs[i].second != y.objs[i].second) {
    auto o = std::make_shared<Obj>(*x.objs[i].second); const Obj &q = *y.objs[i].second;
    for (size_t j = 0; j < o->cells.size();) { Cell &u = o->cells[j]; const Cell &v = q.cells[j]; if (cellSame(u, v)) { j++; continue; } if (!u.e) { u = v; j++; continue; } if (!v.e) { j++; continue; }
      if (u.k == 0 && v.k == 0 && u.n == v.n && u.n > 1 && j + u.n <= o->cells.size()) { bool whole = true; int n = u.n; for (int t = 1; t < n; t++) { auto &uu = o->cells[j + t]; auto &vv = q.cells[j + t]; if (uu.e != u.e || uu.k != t || uu.n != n || vv.e != v.e || vv.k != t || vv.n != n) { whole = false; break; } } if (whole) { E e = C.Ite(g, u.e, v.e); int pv = u.prov; for (int t = 0; t < n; t++) o->cells[j + t] = Cell{e, pv, (uint8_t)t, (uint8_t)n}; j += n; continue; } }
      E e = C.Ite(g, byteOf(u), byteOf(v)); u = Cell{e, 0, 0, 1}; j++; }
    x.objs[i].second = o; }
  x.pc.resize(p); assume(x, C.Or(cx, cy)); x.nextObj = std::max(x.nextObj, y.nextObj); x.steps = std::max(x.steps, y.steps); S.merges++; return true;
}
static bool tryMerge(Ret &a, Ret &b) {
  if (a.exc != b.exc || a.exc) return false; if (!mergeVal(a.v, b.v)) return false; E g;
  if (!mergeStates(a.s, b.s, g)) return false;
  if (a.v.e && a.v.e != b.v.e) a.v.e = C.Ite(g, a.v.e, b.v.e);
  return true;
}
static void mergeAll(std::vector<Ret> &v) {
  if (v.size() < 2) return; std::vector<Ret> r;
  for (auto &x : v) { bool done = false; for (auto &y : r) if (tryMerge(y, x)) { done = true; break; } if (!done) r.push_back(std::move(x)); }
  v.swap(r);
}
struct Frame { State s; const BasicBlock *bb; BasicBlock::const_iterator it; std::vector<Val> regs; std::vector<int> allocas; bool entry = false; };

static bool regOK(const Val &a, const Val &b) { if (!a.e && !a.agg) return true; if (!b.e && !b.agg) return true; if (a.agg || b.agg) return a.agg == b.agg; if (a.e == b.e) return a.prov == b.prov; if (a.prov != b.prov || a.e->w != b.e->w) return false; if (a.e->op == CONST && b.e->op == CONST && a.e->w >= 32) return false; return true; }
static bool tryMergeF(Frame &a, Frame &b, const std::vector<char> &live) {
  if (a.allocas != b.allocas || a.bb != b.bb || a.it != b.it) return false;
  for (size_t i = 0; i < a.regs.size(); i++) if (live[i] && !regOK(a.regs[i], b.regs[i])) return false;
  E g; if (!mergeStates(a.s, b.s, g)) return false;
  for (size_t i = 0; i < a.regs.size(); i++) { Val &u = a.regs[i], &v = b.regs[i]; if (!live[i]) continue; if (!u.e && !u.agg) { u = v; continue; } if (!v.e || u.agg) continue; if (u.e != v.e) u.e = C.Ite(g, u.e, v.e); }
  return true;
}
static FInfo *info(const Function *f) {
  auto &p = finfo[f]; if (p) return p; p = new FInfo; p->f = f; StringRef n = f->getName(); p->harness = n.starts_with("h_") || n.starts_with("hx_");
  for (auto &a : f->args()) p->slot[&a] = p->nslots++; for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
  { PostDominatorTree pdt(*const_cast<Function *>(f)); for (auto &b : *f) { auto *n = pdt.getNode(const_cast<BasicBlock *>(&b)); if (n && n->getIDom() && n->getIDom()->getBlock()) p->ipd[&b] = n->getIDom()->getBlock(); } }
  // live-in registers per block (after its phis)
  { std::map<const BasicBlock *, std::vector<char>> in; for (auto &b : *f) in[&b].assign(p->nslots, 0); bool ch = true;
    while (ch) { ch = false; for (auto bi = f->end(); bi != f->begin();) { --bi; const BasicBlock &b = *bi; std::vector<char> l(p->nslots, 0);
        for (auto *su : successors(&b)) { std::vector<char> t = in[su]; for (auto &ph : su->phis()) { t[p->slot[&ph]] = 0; } for (auto &ph : su->phis()) { const Value *v = ph.getIncomingValueForBlock(&b); auto it = p->slot.find(v); if (it != p->slot.end()) t[it->second] = 1; } for (int i = 0; i < p->nslots; i++) l[i] |= t[i]; }
        for (auto ii = b.end(); ii != b.begin();) { --ii; if (isa<PHINode>(*ii)) break; auto it = p->slot.find(&*ii); if (it != p->slot.end()) l[it->second] = 0; for (auto &o : ii->operands()) { auto q = p->slot.find(o.get()); if (q != p->slot.end()) l[q->second] = 1; } }
        if (l != in[&b]) { in[&b] = l; ch = true; } } }
    p->livein = std::move(in); }
  return p;
}
static void callFn(State &&s, const Function *f, std::vector<Val> &args, std::vector<Ret> &out, const Instruction *site, int depth);
static Val opval(FInfo *fi, Frame &fr, const Value *v) { if (auto *c = dyn_cast<Constant>(v)) { static std::unordered_map<const Constant *, Val> cc; auto it = cc.find(c); if (it != cc.end()) return it->second; Val r = constVal(c); cc[c] = r; return r; } return fr.regs[fi->slot.at(v)]; }
static void dispatchPhi(FInfo *fi, Frame &fr, const BasicBlock *from, const BasicBlock *to) {
  std::vector<std::pair<int, Val>> upd; auto it = to->begin();
  for (; auto *ph = dyn_cast<PHINode>(&*it); ++it) upd.push_back({fi->slot[ph], opval(fi, fr, ph->getIncomingValueForBlock(from))});
  for (auto &u : upd) fr.regs[u.first] = u.second; fr.bb = to; fr.it = it; fr.entry = true;
}
static std::vector<const GlobalValue *> typeIds; static int typeIdFor(const Value *v) { auto *g = cast<GlobalValue>(v->stripPointerCasts()); for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == g) return i + 1; typeIds.push_back(g); return typeIds.size(); }
static std::map<std::string, std::vector<std::string>> extBases = {{"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}}, {"_ZTISt11logic_error", {"_ZTISt9exception"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt12system_error", {"_ZTISt13runtime_error"}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}};
static bool catches(const std::string &thrown, const std::string &clause) { if (thrown == clause) return true; auto it = extBases.find(thrown); if (it == extBases.end()) return false; for (auto &b : it->second) if (catches(b, clause)) return true; return false; }

static void doCall(State &&s, const CallBase *cb, FInfo *fi, Frame &fr, std::vector<Ret> &out, int depth) {
  std::vector<Val> args; for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(opval(fi, fr, a)); }
  const Value *cv = cb->getCalledOperand()->stripPointerCasts(); const Function *f = dyn_cast<Function>(cv);
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if (f) { callFn(std::move(s), f, args, out, cb, depth); return; }
  Val p = opval(fi, fr, cb->getCalledOperand());
  splitVals(std::move(s), p.e, [&](State &&t, u64 addr) { int id = idOf(addr); if (id <= 0 || id >= firstDyn || !isa<Function>(G[id].gv) || addr != baseOf(id)) { report(t, t.model, "bad-call", "call through an invalid function pointer in " + loc(cb), cb); return; } std::vector<Val> a2 = args; callFn(std::move(t), cast<Function>(G[id].gv), a2, out, cb, depth); });
}
static void popAllocas(State &s, std::vector<int> &al) { for (int id : al) { auto it = std::lower_bound(s.objs.begin(), s.objs.end(), id, [](const std::pair<int, ObjP> &p, int i) { return p.first < i; }); if (it != s.objs.end() && it->first == id) s.objs.erase(it); } }
static void joinFrames(FInfo *fi, std::vector<Frame> &v) {
  if (v.size() < 2) return; std::vector<Frame> r; const std::vector<char> &live = fi->livein[v[0].bb];
  std::vector<char> l2 = live; for (auto &ph : v[0].bb->phis()) l2[fi->slot[&ph]] = 1;
  for (auto &x : v) { bool done = false; for (auto &y : r) if (tryMergeF(y, x, l2)) { done = true; break; } if (!done) r.push_back(std::move(x)); }
  v.swap(r); for (auto &x : v) x.entry = true;
}
static bool NOJOIN_ENV = getenv("SYMX_NOJOIN") != nullptr;
#define NOJOIN (NOJOIN_ENV || !J.join)
static void runTo(FInfo *fi, std::vector<Frame> &work, const BasicBlock *stop, std::vector<Frame> &arrived, std::vector<Ret> &res, int depth, const std::string &name) {
  while (!work.empty()) {
    Frame fr = std::move(work.back()); work.pop_back(); bool live = true;
    if (stop && fr.bb == stop && fr.entry) { arrived.push_back(std::move(fr)); continue; }
    while (live) {
      if (stop && fr.entry && fr.bb == stop) { arrived.push_back(std::move(fr)); break; }
      fr.entry = false;
      const Instruction &I = *fr.it; ++fr.it; S.instrs++;
      if (++fr.s.steps > J.maxSteps) { report(fr.s, fr.s.model, "nontermination", "step limit reached in " + name, &I); live = false; break; }
      if ((S.instrs & 0xffff) == 0 && now() - t0 > J.tmo) throw JobStop{"time limit"};
      auto op = [&](unsigned i) { return opval(fi, fr, I.getOperand(i)); };
      auto set = [&](const Val &v) { fr.regs[fi->slot[&I]] = v; };
      auto sete = [&](E e, int prov = 0) { Val v; v.e = e; v.prov = prov; fr.regs[fi->slot[&I]] = v; };
      auto fan = [&](std::vector<Ret> &rs, bool hasval) { // continue with each result
        if (rs.empty()) { live = false; return; }
        for (size_t i = 1; i < rs.size(); i++) { Frame g; g.s = std::move(rs[i].s); g.bb = fr.bb; g.it = fr.it; g.regs = fr.regs; g.allocas = fr.allocas; if (hasval) g.regs[fi->slot[&I]] = rs[i].v; work.push_back(std::move(g)); S.forks++; }
        fr.s = std::move(rs[0].s); if (hasval) fr.regs[fi->slot[&I]] = rs[0].v; };
      switch (I.getOpcode()) {
      case Instruction::Alloca: { auto &ai = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(ai.getAllocatedType()); Val cnt = op(0); std::string an = (ai.hasName() ? ai.getName().str() : std::string("local")) + " of " + name;
          if (cnt.e->op == CONST) { n *= cnt.e->k; int id = newObj(fr.s, KSTACK, K(64, n), n, an); fr.allocas.push_back(id); sete(K(64, baseOf(id)), id); break; }
          std::vector<Ret> rs; splitVals(std::move(fr.s), C.Zext(cnt.e, 64), [&](State &&t, u64 k) { Val v; Ret r; int id = newObj(t, KSTACK, K(64, n * k), n * k, an); v.e = K(64, baseOf(id)); v.prov = id; r.s = std::move(t); r.v = v; rs.push_back(std::move(r)); });
          auto base = fr.allocas; if (rs.empty()) { live = false; break; }
          for (size_t i = 1; i < rs.size(); i++) { Frame g; g.s = std::move(rs[i].s); g.bb = fr.bb; g.it = fr.it; g.regs = fr.regs; g.allocas = base; g.allocas.push_back(rs[i].v.prov); g.regs[fi->slot[&I]] = rs[i].v; work.push_back(std::move(g)); S.forks++; }
          fr.s = std::move(rs[0].s); fr.allocas.push_back(rs[0].v.prov); fr.regs[fi->slot[&I]] = rs[0].v; break; }
      case Instruction::Load: { Type *t = I.getType(); if (t->isAggregateType()) { Val p = op(0); std::vector<std::pair<Type *, u64>> lv; leaves(t, 0, lv); std::vector<std::pair<State, std::vector<Val>>> acc; acc.push_back({std::move(fr.s), {}});
          for (auto &lf : lv) { std::vector<std::pair<State, std::vector<Val>>> nx;
            for (auto &a : acc) { Val q; q.e = C.bin(ADD, p.e, K(64, lf.second)); q.prov = p.prov; std::vector<Ret> rs; load(std::move(a.first), q, DL->getTypeStoreSize(lf.first), widthOf(lf.first), &I, rs); for (auto &x : rs) { auto y = a.second; y.push_back(x.v); nx.push_back({std::move(x.s), std::move(y)}); } }
            acc.swap(nx); }
          std::vector<Ret> out; for (auto &a : acc) { Ret r; size_t k = 0; r.v = buildAgg(t, a.second, k); r.s = std::move(a.first); out.push_back(std::move(r)); }
          fan(out, true); break; }
        int n = DL->getTypeStoreSize(t), w = widthOf(t); std::vector<Ret> rs; Val p = op(0); load(std::move(fr.s), p, n, w, &I, rs); fan(rs, true); break; }
      case Instruction::Store: { Val v = op(0), p = op(1); Type *t = I.getOperand(0)->getType(); int n = DL->getTypeStoreSize(t); if (t->isAggregateType()) { if (!v.agg) throw Unsupported{"struct store"}; std::vector<std::pair<Type *, u64>> lv; std::vector<Val> fv; leaves(t, 0, lv); flatAgg(v, fv); std::vector<Ret> acc(1); acc[0].s = std::move(fr.s);
          for (size_t i = 0; i < lv.size(); i++) { std::vector<Ret> nx;
            for (auto &a : acc) { Val q; q.e = C.bin(ADD, p.e, K(64, lv[i].second)); q.prov = p.prov; std::vector<Ret> rs; if (!fv[i].e && !fv[i].prov) { nx.push_back(std::move(a)); continue; } store(std::move(a.s), q, fv[i], DL->getTypeStoreSize(lv[i].first), &I, rs); for (auto &x : rs) nx.push_back(std::move(x)); }
            acc.swap(nx); }
          fan(acc, false); break; }
        std::vector<Ret> rs; store(std::move(fr.s), p, v, n, &I, rs); fan(rs, false); break; }
      case Instruction::GetElementPtr: { auto &g = cast<GetElementPtrInst>(I); Val p = op(0); E off = K(64, 0);
          for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) { Value *ix = ti.getOperand(); if (StructType *st = ti.getStructTypeOrNull()) { off = C.bin(ADD, off, K(64, DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()))); }
            else { u64 sz = DL->getTypeAllocSize(ti.getIndexedType()); E e = opval(fi, fr, ix).e; e = e->w < 64 ? C.Sext(e, 64) : e; off = C.bin(ADD, off, C.bin(MUL, e, K(64, sz))); } }
          sete(C.bin(ADD, p.e, off), p.prov); break; }
      case Instruction::Add: case Instruction::Sub: { Val a = op(0), b = op(1); bool sub = I.getOpcode() == Instruction::Sub; int pv = sub ? (a.prov && b.prov ? 0 : a.prov) : (a.prov ? a.prov : b.prov); sete(C.bin(sub ? SUB : ADD, a.e, b.e), pv); break; }
      case Instruction::Mul: sete(C.bin(MUL, op(0).e, op(1).e)); break;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E d = op(1).e; if (d->op != CONST || d->k == 0) { E z0 = C.bin(EQ, d, K(d->w, 0)); if (!(z0->op == CONST && !z0->k)) { std::shared_ptr<Model> mm; if (check(fr.s, z0, mm)) report(fr.s, mm, "div0", "division by zero in " + loc(&I), &I); E nz = C.Not(z0); if (!check(fr.s, nz, mm)) { live = false; break; } fr.s.model = mm; assume(fr.s, nz); } }
          Op o = I.getOpcode() == Instruction::UDiv ? UDIV : I.getOpcode() == Instruction::SDiv ? SDIV : I.getOpcode() == Instruction::URem ? UREM : SREM; E a = op(0).e; u64 sm = mask(a->w) >> 1; if (o == SDIV && a->hi <= sm && d->hi <= sm) o = UDIV; if (o == SREM && a->hi <= sm && d->hi <= sm) o = UREM; sete(C.bin(o, a, d)); break; }
      case Instruction::And: { Val a = op(0), b = op(1); sete(C.bin(AND, a.e, b.e)); break; }
      case Instruction::Or: { Val a = op(0), b = op(1); sete(C.bin(OR, a.e, b.e)); break; }
      case Instruction::Xor: sete(C.bin(XOR, op(0).e, op(1).e)); break;
      case Instruction::Shl: sete(C.bin(SHL, op(0).e, op(1).e)); break;
      case Instruction::LShr: sete(C.bin(LSHR, op(0).e, op(1).e)); break;
      case Instruction::AShr: { E a = op(0).e; sete(C.bin(a->hi <= (mask(a->w) >> 1) ? LSHR : ASHR, a, op(1).e)); break; }
      case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); E a = op(0).e, b = op(1).e; E r; switch (c.getPredicate()) { case ICmpInst::ICMP_EQ: r = C.bin(EQ, a, b); break; case ICmpInst::ICMP_NE: r = C.Not(C.bin(EQ, a, b)); break; case ICmpInst::ICMP_ULT: r = C.bin(ULT, a, b); break; case ICmpInst::ICMP_ULE: r = C.bin(ULE, a, b); break; case ICmpInst::ICMP_UGT: r = C.bin(ULT, b, a); break; case ICmpInst::ICMP_UGE: r = C.bin(ULE, b, a); break; case ICmpInst::ICMP_SLT: r = C.bin(SLT, a, b); break; case ICmpInst::ICMP_SLE: r = C.bin(SLE, a, b); break; case ICmpInst::ICMP_SGT: r = C.bin(SLT, b, a); break; default: r = C.bin(SLE, b, a); } sete(r); break; }
      case Instruction::ZExt: sete(C.Zext(op(0).e, I.getType()->getIntegerBitWidth())); break;
      case Instruction::SExt: sete(C.Sext(op(0).e, I.getType()->getIntegerBitWidth())); break;
      case Instruction::Trunc: sete(C.Extract(op(0).e, 0, I.getType()->getIntegerBitWidth())); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: { Val a = op(0); if (!a.agg) { int w = widthOf(I.getType()); if (a.e->w > w) a.e = C.Extract(a.e, 0, w); else a.e = C.Zext(a.e, w); } set(a); break; }
      case Instruction::Select: { Val c = op(0), a = op(1), b = op(2); if (c.e->op == CONST) { set(c.e->k ? a : b); break; }
          if (a.agg || b.agg || (a.prov != b.prov) || (!fi->harness && a.e != b.e && a.e->w >= 32 && a.e->op == CONST && b.e->op == CONST)) { u64 v = evalM(fr.s, c.e); E other = v ? C.Not(c.e) : c.e; std::shared_ptr<Model> mm; if (check(fr.s, other, mm)) { Frame g; g.s = fr.s; g.s.model = mm; assume(g.s, other); g.bb = fr.bb; g.it = fr.it; g.regs = fr.regs; g.allocas = fr.allocas; g.regs[fi->slot[&I]] = v ? b : a; work.push_back(std::move(g)); S.forks++; } assume(fr.s, v ? c.e : C.Not(c.e)); set(v ? a : b); break; }
          sete(C.Ite(c.e, a.e, b.e), a.prov); break; }
      case Instruction::Br: { auto &b = cast<BranchInst>(I); if (!b.isConditional()) { dispatchPhi(fi, fr, fr.bb, b.getSuccessor(0)); break; }
          E c = opval(fi, fr, b.getCondition()).e; const BasicBlock *T = b.getSuccessor(0), *F = b.getSuccessor(1);
          if (c->op == CONST) { dispatchPhi(fi, fr, fr.bb, c->k ? T : F); break; }
          u64 v = evalM(fr.s, c); E other = v ? C.Not(c) : c; std::shared_ptr<Model> mm;
          if (check(fr.s, other, mm)) { Frame g; g.s = fr.s; g.s.model = mm; assume(g.s, other); g.regs = fr.regs; g.allocas = fr.allocas; g.bb = fr.bb; const BasicBlock *src = fr.bb; dispatchPhi(fi, g, src, v ? F : T); S.forks++; assume(fr.s, v ? c : C.Not(c));
            auto pd = fi->ipd.find(src); if (fi->harness || NOJOIN || pd == fi->ipd.end() || depth > 150) { work.push_back(std::move(g)); }
            else { dispatchPhi(fi, fr, src, v ? T : F); std::vector<Frame> sub, arr; sub.push_back(std::move(fr)); sub.push_back(std::move(g)); runTo(fi, sub, pd->second, arr, res, depth + 1, name); joinFrames(fi, arr); for (auto &x : arr) work.push_back(std::move(x)); live = false; break; } }
          dispatchPhi(fi, fr, fr.bb, v ? T : F); break; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); E c = opval(fi, fr, sw.getCondition()).e;
          if (c->op == CONST) { const BasicBlock *d = sw.getDefaultDest(); for (auto &k : sw.cases()) if (k.getCaseValue()->getZExtValue() == c->k) { d = k.getCaseSuccessor(); break; } dispatchPhi(fi, fr, fr.bb, d); break; }
          std::vector<std::pair<const BasicBlock *, E>> alts; E none = K(1, 1); std::map<const BasicBlock *, int> ix;
          for (auto &k : sw.cases()) { E q = C.bin(EQ, c, K(c->w, k.getCaseValue()->getZExtValue())); none = C.And(none, C.Not(q)); auto it = ix.find(k.getCaseSuccessor()); if (it == ix.end()) { ix[k.getCaseSuccessor()] = alts.size(); alts.push_back({k.getCaseSuccessor(), q}); } else alts[it->second].second = C.Or(alts[it->second].second, q); }
          { auto it = ix.find(sw.getDefaultDest()); if (it == ix.end()) alts.push_back({sw.getDefaultDest(), none}); else alts[it->second].second = C.Or(alts[it->second].second, none); }
          int cur = -1; { for (size_t i = 0; i < alts.size(); i++) if (evalM(fr.s, alts[i].second)) { cur = i; break; } }
          const BasicBlock *src = fr.bb; auto pd = fi->ipd.find(src); bool join = !(fi->harness || NOJOIN || pd == fi->ipd.end() || depth > 150); std::vector<Frame> sub, arr;
          for (size_t i = 0; i < alts.size(); i++) if ((int)i != cur) { std::shared_ptr<Model> mm; if (check(fr.s, alts[i].second, mm)) { Frame g; g.s = fr.s; g.s.model = mm; assume(g.s, alts[i].second); g.regs = fr.regs; g.allocas = fr.allocas; g.bb = fr.bb; dispatchPhi(fi, g, fr.bb, alts[i].first); (join ? sub : work).push_back(std::move(g)); S.forks++; } }
          assume(fr.s, alts[cur].second); dispatchPhi(fi, fr, fr.bb, alts[cur].first);
          if (join && !sub.empty()) { sub.push_back(std::move(fr)); runTo(fi, sub, pd->second, arr, res, depth + 1, name); joinFrames(fi, arr); for (auto &x : arr) work.push_back(std::move(x)); live = false; }
          break; }
      case Instruction::Ret: { Val v; if (I.getNumOperands()) v = op(0); popAllocas(fr.s, fr.allocas); res.push_back({std::move(fr.s), v}); live = false; break; }
      case Instruction::Unreachable: report(fr.s, fr.s.model, "unreachable", "unreachable code reached in " + loc(&I), &I); live = false; break;
      case Instruction::Call: case Instruction::Invoke: {
          auto *cb = cast<CallBase>(&I); if (isa<DbgInfoIntrinsic>(I)) break; bool hv = !I.getType()->isVoidTy();
          std::vector<Ret> rs; doCall(std::move(fr.s), cb, fi, fr, rs, depth + 1);
          if (rs.empty()) { live = false; break; }
          auto *inv = dyn_cast<InvokeInst>(cb); std::vector<Frame> nf;
          for (size_t i = 0; i < rs.size(); i++) { Frame g; if (i + 1 < rs.size()) { g.regs = fr.regs; g.allocas = fr.allocas; } else { g.regs = std::move(fr.regs); g.allocas = std::move(fr.allocas); } g.bb = fr.bb; g.it = fr.it; g.s = std::move(rs[i].s);
            if (rs[i].exc) { if (!inv) { popAllocas(g.s, g.allocas); Ret r; r.s = std::move(g.s); r.exc = true; res.push_back(std::move(r)); continue; } dispatchPhi(fi, g, g.bb, inv->getUnwindDest()); }
            else { if (hv) g.regs[fi->slot[&I]] = rs[i].v; if (inv) dispatchPhi(fi, g, g.bb, inv->getNormalDest()); }
            nf.push_back(std::move(g)); }
          if (nf.empty()) { live = false; break; }
          fr = std::move(nf.back()); nf.pop_back(); for (auto &g : nf) { work.push_back(std::move(g)); S.forks++; }
          break; }
      case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(I); std::string thrown = G[fr.s.excType].gv->getName().str(); int sel = 0; bool take = lp.isCleanup();
          for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (!lp.isCatch(i)) continue; const Constant *cl = lp.getClause(i); if (isa<ConstantPointerNull>(cl)) { sel = 1000; take = true; break; } std::string cn = cast<GlobalValue>(cl->stripPointerCasts())->getName().str(); if (catches(thrown, cn)) { sel = typeIdFor(cl); take = true; break; } }
          if (!take) { popAllocas(fr.s, fr.allocas); Ret r; r.s = std::move(fr.s); r.exc = true; res.push_back(std::move(r)); live = false; break; }
          Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(fr.s.exc); Val q; q.e = K(32, sel); v.agg->push_back(q); set(v); break; }
      case Instruction::Resume: { popAllocas(fr.s, fr.allocas); Ret r; r.s = std::move(fr.s); r.exc = true; res.push_back(std::move(r)); live = false; break; }
      case Instruction::ExtractValue: { Val a = op(0); for (unsigned ix : cast<ExtractValueInst>(I).indices()) { Val t = (*a.agg)[ix]; a = t; } set(a); break; }
      case Instruction::InsertValue: { Val a = op(0), b = op(1); auto ids = cast<InsertValueInst>(I).getIndices(); std::function<Val(const Val &, unsigned)> ins = [&](const Val &x, unsigned d) { if (d == ids.size()) return b; Val r; r.agg = std::make_shared<std::vector<Val>>(*x.agg); (*r.agg)[ids[d]] = ins((*x.agg)[ids[d]], d + 1); return r; }; set(ins(a, 0)); break; }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: { auto &am = cast<AtomicRMWInst>(I); Val p = op(0), v = op(1); int n = DL->getTypeStoreSize(I.getType()), w = widthOf(I.getType()); std::vector<Ret> rs, fin; load(std::move(fr.s), p, n, w, &I, rs);
          for (auto &r : rs) { Val o = r.v, nv = v; switch (am.getOperation()) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: nv.e = C.bin(ADD, o.e, v.e); break; case AtomicRMWInst::Sub: nv.e = C.bin(SUB, o.e, v.e); break; case AtomicRMWInst::And: nv.e = C.bin(AND, o.e, v.e); break; case AtomicRMWInst::Or: nv.e = C.bin(OR, o.e, v.e); break; case AtomicRMWInst::Xor: nv.e = C.bin(XOR, o.e, v.e); break; default: throw Unsupported{"atomicrmw"}; }
            std::vector<Ret> r2; store(std::move(r.s), p, nv, n, &I, r2); for (auto &x : r2) { x.v = o; fin.push_back(std::move(x)); } }
          fan(fin, true); break; }
      case Instruction::AtomicCmpXchg: { Val p = op(0), c = op(1), v = op(2); Type *t = I.getOperand(1)->getType(); int n = DL->getTypeStoreSize(t), w = widthOf(t); std::vector<Ret> rs, fin; load(std::move(fr.s), p, n, w, &I, rs);
          for (auto &r : rs) { Val o = r.v; E eq = C.bin(EQ, o.e, c.e); auto put = [&](State &&st, bool hit) { std::vector<Ret> r2; if (hit) store(std::move(st), p, v, n, &I, r2); else { r2.resize(1); r2[0].s = std::move(st); } for (auto &x : r2) { Val q; q.agg = std::make_shared<std::vector<Val>>(2); (*q.agg)[0] = o; (*q.agg)[1].e = K(1, hit); x.v = q; fin.push_back(std::move(x)); } };
            if (eq->op == CONST) { put(std::move(r.s), eq->k); continue; }
            bool b = evalM(r.s, eq); E other = b ? C.Not(eq) : eq; std::shared_ptr<Model> mm; if (check(r.s, other, mm)) { State g = r.s; g.model = mm; assume(g, other); S.forks++; put(std::move(g), !b); } assume(r.s, b ? eq : C.Not(eq)); put(std::move(r.s), b); }
          fan(fin, true); break; }
      default: throw Unsupported{std::string("opcode ") + I.getOpcodeName()};
      }
    }
  }
}
static void callFn(State &&s, const Function *f, std::vector<Val> &args, std::vector<Ret> &out, const Instruction *site, int depth) {
  if (depth > 200) throw Unsupported{"recursion depth"};
  std::string name = f->getName().str();
  auto bi = builtins.find(name);
  if (bi == builtins.end() && f->isIntrinsic()) { StringRef n = name; auto p = n.find('.', 5); std::string shortn = n.substr(0, p).str(); bi = builtins.find(shortn); if (bi == builtins.end()) { auto q = n.find('.', p + 1); bi = builtins.find(n.substr(0, q).str()); } if (bi == builtins.end()) bi = builtins.find(n.substr(0, n.rfind('.')).str()); }
  if (bi == builtins.end() && f->isDeclaration()) { auto *mf = M->getFunction("m_" + name); if (mf) { callFn(std::move(s), mf, args, out, site, depth); return; } }
  if (bi != builtins.end()) { bi->second(std::move(s), site, args, out); return; }
  if (f->isDeclaration()) throw Unsupported{"external function " + name};
  FInfo *fi = info(f); fnsRun.insert(name);
  std::vector<Ret> res; std::vector<Frame> work, arrived;
  { Frame fr; fr.s = std::move(s); fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); fr.regs.resize(fi->nslots); for (size_t i = 0; i < args.size() && i < f->arg_size(); i++) fr.regs[i] = args[i]; work.push_back(std::move(fr)); }
  runTo(fi, work, nullptr, arrived, res, depth, name);
  if (!fi->harness && !NOJOIN) {
    bool cs = (name == "m_strchr" || name == "m_memchr" || name == "m_strrchr" || name == "m_strchrnul") && args[0].prov && args[0].prov < firstDyn && G[args[0].prov].isConst;
    PTRMERGE = cs; mergeAll(res); PTRMERGE = false; }
  for (auto &r : res) out.push_back(std::move(r));
}
static void initBuiltins();
#include "builtins.h"

static void loadModule(const char *path) {
  SMDiagnostic err; M = parseIRFile(path, err, LC); if (!M) { err.print("symx", errs()); exit(3); }
  DL = &M->getDataLayout(); G.resize(1); int id = 1;
  auto add = [&](GlobalValue &g) { GInfo i; i.gv = &g; if (auto *v = dyn_cast<GlobalVariable>(&g)) { i.isConst = v->isConstant() && v->hasInitializer(); i.size = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()).getFixedValue() : 0; i.ext = !v->hasInitializer(); } G.push_back(std::move(i)); gid[&g] = id++; };
  for (auto &g : M->globals()) add(g); for (auto &f : *M) add(f); firstDyn = id;
}
static void runJob(int fd) {
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  t0 = now(); std::string status = "done", why; qTimeout = std::min(60.0, J.tmo); C.zinit(); newSolver(); initBuiltins();
  try {
    for (size_t di = 0; di < J.isfile.size(); di++) if (J.isfile[di]) { J.isfile[di] = 0; auto &d = J.data[di]; auto fb = MemoryBuffer::getFile(d.substr(1)); if (!fb) throw Unsupported{"data file " + d}; d = (*fb)->getBuffer().str(); }
    State s; s.model = std::make_shared<Model>(); s.nextObj = firstDyn;
    s.errnoObj = newObj(s, KHARNESS, K(64, 4), 4, "errno"); { ObjP *o = findObj(s, s.errnoObj); for (int i = 0; i < 4; i++) (*o)->cells[i] = Cell{K(32, 0), 0, (uint8_t)i, 4}; }
    const Function *f = M->getFunction(J.fn); if (!f) throw Unsupported{"no harness " + J.fn};
    std::vector<Ret> out; std::vector<Val> args; callFn(std::move(s), f, args, out, nullptr, 0);
    for (auto &r : out) { if (r.exc) report(r.s, r.s.model, "uncaught", "uncaught exception " + G[r.s.excType].gv->getName().str(), nullptr); finishPath(r.s); }
  } catch (JobStop &e) { status = e.why == "violations" ? "done" : e.why == "ended" ? "done" : "stopped"; why = e.why; } catch (Unsupported &e) { status = "error"; why = e.msg; } catch (std::bad_alloc &) { status = "error"; why = "out of memory"; }
  json::Object o; o["id"] = J.id; o["status"] = status; o["why"] = why; if (incomplete) { o["incomplete"] = incompleteWhy; }
  o["queries"] = (int64_t)S.queries; o["table"] = (int64_t)S.table; o["sat"] = (int64_t)S.sat; o["unsat"] = (int64_t)S.unsat; o["unknown"] = (int64_t)S.unknown; o["paths"] = (int64_t)S.paths; o["instrs"] = (int64_t)S.instrs; o["merges"] = (int64_t)S.merges; o["asserts"] = (int64_t)S.asserts; o["folded"] = (int64_t)S.assertsTrivial; o["forks"] = (int64_t)S.forks; o["interval"] = (int64_t)S.interval; o["cached"] = (int64_t)S.cached; o["solver_s"] = S.solver; o["wall_s"] = now() - t0;
  json::Array rr; for (int r : reached) rr.push_back(r); o["reach"] = std::move(rr); json::Array ff; for (auto &f : fnsRun) ff.push_back(f); o["fns"] = std::move(ff);
  json::Array vv; for (auto &v : violations) vv.push_back(json::Object(v)); o["violations"] = std::move(vv); json::Array ss; for (auto &v : samples) ss.push_back(json::Object(v)); o["samples"] = std::move(ss);
  std::string line; raw_string_ostream os(line); os << json::Value(std::move(o)) << "\n"; os.flush();
  size_t k = 0; while (k < line.size()) { ssize_t n = write(fd, line.data() + k, line.size() - k); if (n <= 0) break; k += n; }
}
int main(int argc, char **argv) {
  if (argc < 5) { fprintf(stderr, "usage: symx module.bc jobs.jsonl out.jsonl nproc [seconds]\n"); return 3; }
  loadModule(argv[1]); int np = atoi(argv[4]);
  auto buf = MemoryBuffer::getFile(argv[2]); if (!buf) { fprintf(stderr, "no jobs\n"); return 3; }
  std::vector<Job> jobs; SmallVector<StringRef, 0> lines; (*buf)->getBuffer().split(lines, '\n', -1, false);
  for (auto l : lines) { auto v = json::parse(l); if (!v) { fprintf(stderr, "bad job\n"); return 3; } auto *o = v->getAsObject(); Job j; j.id = o->getString("id")->str(); j.fn = o->getString("fn")->str(); if (auto *a = o->getArray("params")) for (auto &x : *a) j.params.push_back(*x.getAsInteger()); if (auto *a = o->getArray("data")) for (auto &x : *a) { std::string h = x.getAsString()->str(), b; if (!h.empty() && h[0] == '@') { j.isfile.resize(j.data.size() + 1); j.isfile.back() = 1; j.data.push_back(h); continue; } for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); j.data.push_back(b); }
    if (auto t = o->getNumber("tmo")) j.tmo = *t; if (auto t = o->getInteger("max_steps")) j.maxSteps = *t; if (auto t = o->getInteger("max_viol")) j.maxViol = *t; if (auto t = o->getInteger("validate")) j.validate = *t; if (auto t = o->getInteger("join")) j.join = *t; jobs.push_back(j); }
  double deadline = now() + (argc > 5 ? atof(argv[5]) : 1e9);
  FILE *out = fopen(argv[3], "w"); struct W { int fd; std::string buf; int job; double t; }; std::map<pid_t, W> run; size_t nx = 0;
  auto emit = [&](W &w, int st) { if (w.buf.empty() || w.buf.back() != '\n') { json::Object o; o["id"] = jobs[w.job].id; o["status"] = "crash"; o["why"] = "worker ended, status " + std::to_string(st); w.buf.clear(); raw_string_ostream os(w.buf); os << json::Value(std::move(o)) << "\n"; os.flush(); } fwrite(w.buf.data(), 1, w.buf.size(), out); fflush(out); };
  while (nx < jobs.size() || !run.empty()) {
    while (nx < jobs.size() && deadline - now() < 2) { json::Object o; o["id"] = jobs[nx].id; o["status"] = "stopped"; o["why"] = "time budget of the check"; std::string l; raw_string_ostream os(l); os << json::Value(std::move(o)) << "\n"; os.flush(); fwrite(l.data(), 1, l.size(), out); nx++; }
    while (nx < jobs.size() && (int)run.size() < np) { jobs[nx].tmo = std::min(jobs[nx].tmo, std::max(1.0, deadline - now())); int p[2]; if (pipe(p)) return 3; pid_t c = fork(); if (c == 0) { close(p[0]); J = jobs[nx]; runJob(p[1]); close(p[1]); _exit(0); } close(p[1]); run[c] = W{p[0], "", (int)nx, now()}; nx++; }
    std::vector<pollfd> pf; std::vector<pid_t> pids; for (auto &r : run) { pf.push_back({r.second.fd, POLLIN, 0}); pids.push_back(r.first); }
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); i++) { W &w = run[pids[i]];
      if (pf[i].revents & (POLLIN | POLLHUP | POLLERR)) { char b[65536]; ssize_t n = read(w.fd, b, sizeof b); if (n > 0) w.buf.append(b, n); else { int st; waitpid(pids[i], &st, 0); close(w.fd); emit(w, st); run.erase(pids[i]); } }
      else if (now() - w.t > jobs[w.job].tmo * 1.3 + 60) { kill(pids[i], SIGKILL); } }
  }
  fclose(out); return 0;
}
