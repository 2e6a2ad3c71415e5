// Hash-consed bit-vector expressions, width 1..64, with unsigned intervals,
// constant folding, concrete evaluation and translation to z3.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint64_t u64;
typedef int64_t i64;
enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, TBL };
struct Expr;
typedef Expr *E;
struct Expr {
  Op op; uint8_t w; uint8_t itec; // itec: ITE tree with only constant leaves (size class), 0 = not
  uint32_t id; E a, b, c; u64 k; u64 lo, hi; u64 sup; int32_t s1, s2; uint8_t ns; // ns: number of symbols in the support (3 = more than two)
  uint32_t stamp; u64 val; Z3_ast z; Z3_ast zb;
};
struct Table { std::vector<uint32_t> v; u64 lo; uint8_t w; u64 mn, mx; bool canon = false; };
struct SymInfo { std::string name; int w; u64 lo, hi; };
static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Ctx {
  struct Key { u64 h[5]; bool operator==(const Key &o) const { return !memcmp(h, o.h, sizeof h); } };
  struct KH { size_t operator()(const Key &k) const { u64 x = 1469598103934665603ull; for (int i = 0; i < 5; i++) { x ^= k.h[i]; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; } return x; } };
  std::unordered_map<Key, E, KH> tab;
  std::vector<Table *> tables;
  std::map<std::string, int> tblIdx;
  std::vector<SymInfo> syms; std::map<std::string, int> symIdx;
  uint32_t nid = 0, stampc = 0;
  E alloc() { static char *p = nullptr, *e = nullptr; if (p == e) { size_t n = 4096 * sizeof(Expr); p = (char *)malloc(n); e = p + n; } E r = (E)p; p += sizeof(Expr); memset((void *)r, 0, sizeof(Expr)); return r; }
  E mk(Op op, int w, E a, E b, E c, u64 k) {
    Key key{{((u64)op << 8) | (u64)w, (u64)a, (u64)b, (u64)c, k}};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    E e = alloc(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k; e->id = ++nid;
    e->sup = (a ? a->sup : 0) | (b ? b->sup : 0) | (c ? c->sup : 0);
    for (E x : {a, b, c}) if (x) joinSup(e, x);
    e->lo = 0; e->hi = mask(w); range(e);
    if (e->lo == e->hi && op != CONST) { E r = K(w, e->lo); tab[key] = r; return r; }
    tab[key] = e; return e;
  }
  static void addSym(E e, int s) { if (e->ns == 3 || (e->ns >= 1 && e->s1 == s) || (e->ns == 2 && e->s2 == s)) return; if (e->ns == 0) { e->s1 = s; e->ns = 1; } else if (e->ns == 1) { if (s < e->s1) { e->s2 = e->s1; e->s1 = s; } else e->s2 = s; e->ns = 2; } else e->ns = 3; }
  static void joinSup(E e, E x) { if (x->ns == 3) e->ns = 3; else { if (x->ns >= 1) addSym(e, x->s1); if (x->ns == 2) addSym(e, x->s2); } }
  E K(int w, u64 v) {
    v &= mask(w); Key key{{((u64)CONST << 8) | (u64)w, 0, 0, 0, v}};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    E e = alloc(); e->op = CONST; e->w = w; e->k = v; e->lo = e->hi = v; e->itec = 1; e->id = ++nid; tab[key] = e; return e;
  }
  E sym(const std::string &name, int w, u64 lo, u64 hi) {
    std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
    auto it = symIdx.find(key); int ix;
    if (it == symIdx.end()) { ix = syms.size(); syms.push_back({name, w, lo, hi}); symIdx[key] = ix; } else ix = it->second;
    Key kk{{((u64)SYM << 8) | (u64)w, 0, 0, 0, (u64)ix}};
    auto f = tab.find(kk); if (f != tab.end()) return f->second;
    if (lo == hi) return K(w, lo);
    E e = alloc(); e->op = SYM; e->w = w; e->k = ix; e->id = ++nid; e->lo = lo; e->hi = hi; e->sup = 1ull << (ix & 63); e->s1 = ix; e->ns = 1; tab[kk] = e; symE.resize(std::max<size_t>(symE.size(), ix + 1)); symE[ix] = e; return e;
  }
  std::vector<E> symE;
  // ---- canonical tables: expressions over one small symbol or two bytes that involve a table lookup are kept as one
  // table over the whole domain of those symbols, so that the solver sees a multiplexer over input bits.
  struct Dom { int s1 = -1, s2 = -1; u64 lo = 0, n = 0; E idx = nullptr; };
  bool dom(std::initializer_list<E> xs, Dom &d) {
    Expr t; memset((void *)&t, 0, sizeof t); for (E x : xs) joinSup(&t, x);
    if (t.ns == 0 || t.ns == 3) return false;
    if (t.ns == 1) { auto &s = syms[t.s1]; if (s.hi - s.lo >= 65536) return false; d.s1 = t.s1; d.lo = s.lo; d.n = s.hi - s.lo + 1; d.idx = symE[t.s1]; return true; }
    if (syms[t.s1].w != 8 || syms[t.s2].w != 8) return false;
    d.s1 = t.s1; d.s2 = t.s2; d.lo = 0; d.n = 65536; d.idx = mk(CONCAT, 16, symE[t.s1], symE[t.s2], nullptr, 0); return true;
  }
  bool isT(E e) { return e->op == TBL && tables[e->k]->canon; }
  typedef std::vector<u64> Vec;
  void topo(E e, std::vector<E> &order, std::unordered_map<E, int> &ix, const Dom &d) {
    if (ix.count(e)) return;
    bool leaf = e->op == CONST || e->op == SYM || (e->op == TBL && tables[e->k]->canon && e->a == d.idx);
    if (!leaf) { if (e->a) topo(e->a, order, ix, d); if (e->b) topo(e->b, order, ix, d); if (e->c) topo(e->c, order, ix, d); }
    ix[e] = order.size(); order.push_back(e);
  }
  void vec(E e, const Dom &d, Vec &r) { // values of e over the domain, evaluated block by block
    std::vector<E> order; std::unordered_map<E, int> ix; topo(e, order, ix, d); r.resize(d.n); const u64 B = 512;
    static std::vector<u64> regs; size_t nn = order.size(); if (regs.size() < nn * B) regs.resize(nn * B);
    struct N { int a, b, c; }; std::vector<N> ch(nn); for (size_t i = 0; i < nn; i++) { E x = order[i]; auto q = [&](E y) { if (!y) return -1; auto it = ix.find(y); return it == ix.end() ? -1 : it->second; }; ch[i] = {q(x->a), q(x->b), q(x->c)}; if (x->op == CONST) std::fill(&regs[i * B], &regs[i * B] + B, x->k); }
    for (u64 base = 0; base < d.n; base += B) {
      u64 n = std::min<u64>(B, d.n - base);
      for (size_t j = 0; j < nn; j++) {
        E x = order[j]; u64 *o = (j + 1 == nn) ? &r[base] : &regs[j * B]; u64 m = mask(x->w);
        const u64 *pa = ch[j].a >= 0 ? &regs[ch[j].a * B] : nullptr, *pb = ch[j].b >= 0 ? &regs[ch[j].b * B] : nullptr, *pc = ch[j].c >= 0 ? &regs[ch[j].c * B] : nullptr;
        switch (x->op) {
        case CONST: if (j + 1 == nn) std::fill(o, o + n, x->k); break;
        case SYM: if (d.s2 < 0) for (u64 i = 0; i < n; i++) o[i] = d.lo + base + i; else if ((int)x->k == d.s1) for (u64 i = 0; i < n; i++) o[i] = (base + i) >> 8; else for (u64 i = 0; i < n; i++) o[i] = (base + i) & 255; break;
        case TBL: { Table *t = tables[x->k]; if (t->canon && x->a == d.idx) { for (u64 i = 0; i < n; i++) o[i] = t->v[base + i]; break; } u64 tn = t->v.size(); for (u64 i = 0; i < n; i++) { u64 q = pa[i] - t->lo; o[i] = q < tn ? t->v[q] : t->v[tn - 1]; } break; }
        case ITE: for (u64 i = 0; i < n; i++) o[i] = pa[i] ? pb[i] : pc[i]; break;
        case ZEXT: for (u64 i = 0; i < n; i++) o[i] = pa[i]; break;
        case SEXT: for (u64 i = 0; i < n; i++) o[i] = (u64)sx(pa[i], x->a->w) & m; break;
        case EXTRACT: for (u64 i = 0; i < n; i++) o[i] = (pa[i] >> x->k) & m; break;
        case CONCAT: for (u64 i = 0; i < n; i++) o[i] = (pa[i] << x->b->w) | pb[i]; break;
        case ADD: for (u64 i = 0; i < n; i++) o[i] = (pa[i] + pb[i]) & m; break;
        case SUB: for (u64 i = 0; i < n; i++) o[i] = (pa[i] - pb[i]) & m; break;
        case MUL: for (u64 i = 0; i < n; i++) o[i] = (pa[i] * pb[i]) & m; break;
        case AND: for (u64 i = 0; i < n; i++) o[i] = pa[i] & pb[i]; break;
        case OR: for (u64 i = 0; i < n; i++) o[i] = pa[i] | pb[i]; break;
        case XOR: for (u64 i = 0; i < n; i++) o[i] = pa[i] ^ pb[i]; break;
        case EQ: for (u64 i = 0; i < n; i++) o[i] = pa[i] == pb[i]; break;
        case ULT: for (u64 i = 0; i < n; i++) o[i] = pa[i] < pb[i]; break;
        case ULE: for (u64 i = 0; i < n; i++) o[i] = pa[i] <= pb[i]; break;
        default: for (u64 i = 0; i < n; i++) o[i] = fold(x->op, x->w, pa[i], pb[i], x->a->w); break;
        }
      }
    }
  }
  std::unordered_map<u64, std::vector<int>> tblHash; bool noCanon = getenv("SYMX_NOTAB") != nullptr;
  E fromVec(const Dom &d, int w, const Vec &v) {
    u64 h = d.n * 31 + w, mn = ~0ull, mx = 0; for (u64 x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; if (x < mn) mn = x; if (x > mx) mx = x; }
    if (mx >> 32) return nullptr; if (mn == mx) return K(w, mn);
    for (int ix : tblHash[h]) { Table *t = tables[ix]; if (t->w == w && t->lo == d.lo && t->v.size() == v.size()) { bool eq = true; for (u64 i = 0; i < d.n; i++) if (t->v[i] != v[i]) { eq = false; break; } if (eq) return mk(TBL, w, d.idx, nullptr, nullptr, ix); } }
    Table *t = new Table; t->v.assign(v.begin(), v.end()); t->lo = d.lo; t->w = w; t->mn = mn; t->mx = mx; t->canon = true; int ix = tables.size(); tables.push_back(t); tblHash[h].push_back(ix);
    return mk(TBL, w, d.idx, nullptr, nullptr, ix);
  }
  std::unordered_map<Key, E, KH> tmemo;
  // result of an operation over at least one canonical table, or null
  E tabulate(Op op, int w, E a, E b, E c, u64 k) {
    if (noCanon || w > 64) return nullptr;
    if (!(isT(a) || (b && isT(b)) || (c && isT(c)))) return nullptr;
    Key key{{((u64)op << 8) | (u64)w, (u64)a, (u64)b, (u64)c, k}}; auto it = tmemo.find(key); if (it != tmemo.end()) return it->second;
    Dom d; bool ok = c ? dom({a, b, c}, d) : b ? dom({a, b}, d) : dom({a}, d); E r = nullptr;
    if (ok) { Expr t; memset((void *)&t, 0, sizeof t); t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k; Vec v; vec(&t, d, v); r = fromVec(d, w, v); }
    return tmemo[key] = r;
  }
  static bool isC(E e) { return e->op == CONST; }
  struct R { u64 lo, hi; };
  void range(E e) { R z{0, 0}; R r = calc(e, e->a ? R{e->a->lo, e->a->hi} : z, e->b ? R{e->b->lo, e->b->hi} : z, e->c ? R{e->c->lo, e->c->hi} : z); e->lo = r.lo; e->hi = r.hi;
    if (e->op == ITE && e->b->itec && e->c->itec) { int n = e->b->itec + e->c->itec; if (n < 40) e->itec = n; } }
  // unsigned interval of e from the intervals of its children
  R calc(E e, R a, R b, R c) {
    u64 m = mask(e->w); R r{0, m}; bool bc = b.lo == b.hi; u64 k = b.lo; typedef unsigned __int128 u128;
    switch (e->op) {
    case ADD: { u128 l = (u128)a.lo + b.lo, h = (u128)a.hi + b.hi;
      if (h <= m) r = {(u64)l, (u64)h};
      else if (l > m && h <= 2 * (u128)m + 1) r = {(u64)l & m, (u64)h & m};
      break; }
    case SUB: if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break;
    case MUL: { u128 h = (u128)a.hi * b.hi; if (h <= m) r = {a.lo * b.lo, (u64)h}; break; }
    case UDIV: if (b.lo > 0) r = {a.lo / b.hi, a.hi / b.lo}; break;
    case UREM: if (b.lo > 0) { if (a.hi < b.lo) r = a; else r = {0, b.hi - 1}; } break;
    case AND: r.hi = a.hi < b.hi ? a.hi : b.hi; if (e->w == 1 && a.lo && b.lo) r.lo = 1; break;
    case OR: case XOR: { u64 x = a.hi | b.hi; int n = x ? 64 - __builtin_clzll(x) : 0; r.hi = n ? (mask(n) & m) : 0; if (e->op == OR) r.lo = a.lo > b.lo ? a.lo : b.lo; else if (e->w == 1 && a.lo == a.hi && bc) r.lo = r.hi = a.lo ^ k; break; }
    case SHL: if (bc && k < e->w && a.hi <= (m >> k)) r = {a.lo << k, a.hi << k}; break;
    case LSHR: if (bc) { if (k >= e->w) r = {0, 0}; else r = {a.lo >> k, a.hi >> k}; } else r.hi = a.hi; break;
    case ASHR: if (bc && k < e->w && a.hi <= (m >> 1)) r = {a.lo >> k, a.hi >> k}; break;
    case ITE: if (a.lo) r = b; else if (!a.hi) r = c; else r = {b.lo < c.lo ? b.lo : c.lo, b.hi > c.hi ? b.hi : c.hi}; break;
    case ZEXT: r = a; break;
    case SEXT: { u64 am = mask(e->a->w); if (a.hi <= (am >> 1)) r = a; else if (a.lo > (am >> 1)) r = {(a.lo | ~am) & m, (a.hi | ~am) & m}; break; }
    case EXTRACT: { u64 l = a.lo >> e->k, h = a.hi >> e->k; if (h <= m) r = {l, h}; else if ((l & ~m) == (h & ~m)) r = {l & m, h & m}; break; }
    case CONCAT: r = {(a.lo << e->b->w) | b.lo, (a.hi << e->b->w) | b.hi}; break;
    case EQ: if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && bc && a.lo == k) r = {1, 1}; break;
    case ULT: if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; break;
    case ULE: if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; break;
    case SLT: case SLE: { u64 sm = mask(e->a->w) >> 1; bool ap = a.hi <= sm, bp = b.hi <= sm, an = a.lo > sm, bn = b.lo > sm;
      if ((ap && bp) || (an && bn)) { if (e->op == SLT) { if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } else { if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; } }
      else if (ap && bn) r = {0, 0}; else if (an && bp) r = {1, 1}; break; }
    case TBL: { Table *t = tables[e->k]; r = {t->mn, t->mx}; u64 l = a.lo < t->lo ? 0 : a.lo - t->lo, h = a.hi < t->lo ? 0 : a.hi - t->lo; if (h >= t->v.size()) h = t->v.size() - 1; if (a.lo >= t->lo && l <= h && h - l < 512 && (l > 0 || h + 1 < t->v.size())) { u64 mn = ~0ull, mx = 0; for (u64 i = l; i <= h; i++) { if (t->v[i] < mn) mn = t->v[i]; if (t->v[i] > mx) mx = t->v[i]; } r = {mn, mx}; } break; }
    default: break;
    }
    return r;
  }
  // path-sensitive intervals
  std::unordered_map<E, R> env; uint32_t envGen = 0; std::unordered_map<E, R> memo; bool envBad = false;
  void envPut(E e, u64 lo, u64 hi) {
    if (e->op == CONST) { if (e->k < lo || e->k > hi) envBad = true; return; }
    if (lo < e->lo) lo = e->lo; if (hi > e->hi) hi = e->hi;
    auto it = env.find(e); if (it != env.end()) { if (lo < it->second.lo) lo = it->second.lo; if (hi > it->second.hi) hi = it->second.hi; }
    if (lo > hi) { envBad = true; return; } env[e] = R{lo, hi};
    u64 m = mask(e->w);
    if (e->op == ZEXT) envPut(e->a, lo, hi);
    else if (e->op == CONCAT) { int bw = e->b->w; envPut(e->a, lo >> bw, hi >> bw); if (lo >> bw == hi >> bw) envPut(e->b, lo & mask(bw), hi & mask(bw)); }
    else if (e->op == ADD && isC(e->b)) { u64 k = e->b->k; u64 l = (lo - k) & m, h = (hi - k) & m; if (l <= h) envPut(e->a, l, h); }
    else if (e->op == SHL && isC(e->b) && e->a->hi <= (m >> e->b->k)) envPut(e->a, (lo + mask(e->b->k)) >> e->b->k, hi >> e->b->k);
    else if (e->op == LSHR && isC(e->b) && e->b->k < e->w) { u64 h = hi > (m >> e->b->k) ? m : ((hi << e->b->k) | mask(e->b->k)); if (e->b->k == 0) h = hi; envPut(e->a, lo << e->b->k, h); }
    else if (e->op == SEXT && hi <= (mask(e->a->w) >> 1)) envPut(e->a, lo, hi);
  }
  void envAdd(E c, bool pos) {
    if (isC(c)) return;
    if (isNot(c)) { envAdd(c->a, !pos); return; }
    if (c->op == AND && c->w == 1) { if (pos) { envAdd(c->a, true); envAdd(c->b, true); } return; }
    if (c->op == OR && c->w == 1) { if (!pos) { envAdd(c->a, false); envAdd(c->b, false); } return; }
    env[c] = R{(u64)pos, (u64)pos}; E a = c->a, b = c->b;
    switch (c->op) {
    case EQ: if (isC(b)) { if (pos) envPut(a, b->k, b->k); else { R r = rngE(a); if (r.lo == b->k) envPut(a, r.lo + 1, mask(a->w)); else if (r.hi == b->k) envPut(a, 0, r.hi - 1); } } break;
    case ULT: if (!pos) { std::swap(a, b); goto ule; } ult: if (isC(b)) { if (b->k) envPut(a, 0, b->k - 1); } else if (isC(a)) { if (a->k < mask(a->w)) envPut(b, a->k + 1, mask(b->w)); } break;
    case ULE: if (!pos) { std::swap(a, b); goto ult; } ule: if (isC(b)) envPut(a, 0, b->k); else if (isC(a)) envPut(b, a->k, mask(b->w)); break;
    case TBL: if (c->w == 1) { Table *t = tables[c->k]; if (t->canon) { u64 n = t->v.size(), f = 0, l = n; while (f < n && (t->v[f] != 0) != pos) f++; while (l > f && (t->v[l - 1] != 0) != pos) l--; if (f >= l) { envBad = true; } else if (f > 0 || l < n) envPut(c->a, t->lo + f, t->lo + l - 1); } } break;
    default: break;
    }
  }
  R rngE(E e) { auto it = env.find(e); return it != env.end() ? it->second : R{e->lo, e->hi}; }
  R rng(E e) { // uses env and memo
    if (isC(e)) return R{e->k, e->k};
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    R r = rngE(e);
    if (e->op != SYM && r.lo != r.hi) { R z{0, 0}; R t = calc(e, e->a ? rng(e->a) : z, e->b ? rng(e->b) : z, e->c ? rng(e->c) : z); if (t.lo > r.lo) r.lo = t.lo; if (t.hi < r.hi) r.hi = t.hi; if (r.lo > r.hi) { envBad = true; r.hi = r.lo; } }
    memo[e] = r; return r;
  }
  void envSet(const std::vector<E> &pc) { env.clear(); memo.clear(); envBad = false; for (E c : pc) envAdd(c, true); }
  u64 fold(Op op, int w, u64 x, u64 y, int aw) {
    u64 m = mask(w);
    switch (op) {
    case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
    case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
    case SDIV: { i64 p = sx(x, w), q = sx(y, w); if (!q) return p < 0 ? 1 : m; if (q == -1) return (0 - x) & m; return (u64)(p / q) & m; }
    case SREM: { i64 p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (u64)(p % q) & m; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= (u64)w ? 0 : (x << y) & m; case LSHR: return y >= (u64)w ? 0 : x >> y;
    case ASHR: return (u64)(sx(x, w) >> (y >= (u64)w ? 63 : y)) & m;
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sx(x, aw) < sx(y, aw); case SLE: return sx(x, aw) <= sx(y, aw);
    default: abort();
    }
  }
  E Not(E a) { return bin(XOR, a, K(1, 1)); }
  E And(E a, E b) { return bin(AND, a, b); }
  E Or(E a, E b) { return bin(OR, a, b); }
  static bool isNot(E e) { return e->op == XOR && e->w == 1 && isC(e->b) && e->b->k == 1; }
  bool compl_(E a, E b) { return Not(a) == b; }
  bool conjHas(E a, E x) { if (a == x) return true; return a->op == AND && a->w == 1 && (conjHas(a->a, x) || a->b == x || (a->b->op == AND && conjHas(a->b, x))); }
  E lift(Op op, E ite, E other, bool iteLeft) {
    if (isC(ite)) return iteLeft ? bin(op, ite, other) : bin(op, other, ite);
    return Ite(ite->a, lift(op, ite->b, other, iteLeft), lift(op, ite->c, other, iteLeft));
  }
  E bin(Op op, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    bool cmp = op >= EQ && op <= SLE; int w = cmp ? 1 : a->w; u64 m = mask(a->w);
    if (isC(a) && isC(b)) return K(w, fold(op, w, a->k, b->k, a->w));
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (isC(b) && a->op == ITE && a->itec) return lift(op, a, b, true);
    if (isC(a) && b->op == ITE && b->itec) return lift(op, b, a, false);
    if (a->op == TBL || b->op == TBL) { if (a == b) { if (op == AND || op == OR) return a; if (op == EQ || op == ULE || op == SLE) return K(1, 1); if (cmp || op == XOR || op == SUB) return K(w, 0); }
      if (isC(b) && b->k == 0 && (op == ADD || op == OR || op == XOR || op == SHL || op == LSHR)) return a;
      E r = tabulate(op, w, a, b, nullptr, 0); if (r) return r; }
    switch (op) {
    case ADD: if (isC(b)) { if (b->k == 0) return a; if (a->op == ADD && isC(a->b)) return bin(ADD, a->a, K(w, a->b->k + b->k)); }
      else { if (a->op == ADD && isC(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b); if (b->op == ADD && isC(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b); }
      break;
    case SUB: if (a == b) return K(w, 0); if (isC(b)) return bin(ADD, a, K(w, 0 - b->k));
      if (a->op == ADD && isC(a->b)) return bin(ADD, bin(SUB, a->a, b), a->b);
      if (b->op == ADD && isC(b->b)) return bin(ADD, bin(SUB, a, b->a), K(w, 0 - b->b->k));
      if (a->op == ADD && a->a == b) return a->b; if (a->op == ADD && a->b == b) return a->a;
      break;
    case MUL: if (isC(b)) { if (b->k == 0) return b; if (b->k == 1) return a; if ((b->k & (b->k - 1)) == 0) return bin(SHL, a, K(w, __builtin_ctzll(b->k))); } break;
    case AND: if (a == b) return a; if (isC(b)) { if (b->k == 0) return b; if (b->k == m) return a;
        if ((b->k & (b->k + 1)) == 0 && a->hi <= b->k) return a;
        if (a->op == AND && isC(a->b)) return bin(AND, a->a, K(w, a->b->k & b->k));
        if (a->op == ZEXT && (b->k & mask(a->a->w)) == mask(a->a->w)) return a; }
      if (w == 1) { if (compl_(a, b)) return K(1, 0); if (conjHas(a, b)) return a; if (conjHas(b, a)) return b;
        if (conjHas(a, Not(b)) || conjHas(b, Not(a))) return K(1, 0); }
      break;
    case OR: if (a == b) return a; if (isC(b)) { if (b->k == 0) return a; if (b->k == m) return b; }
      if (w == 1) { if (compl_(a, b)) return K(1, 1);
        // (x & y) | (x & ~y) = x ; (x & y) | ~x...
        if (a->op == AND && b->op == AND) {
          if (a->a == b->a) return bin(AND, a->a, bin(OR, a->b, b->b)); if (a->b == b->b) return bin(AND, a->b, bin(OR, a->a, b->a));
          if (a->a == b->b) return bin(AND, a->a, bin(OR, a->b, b->a)); if (a->b == b->a) return bin(AND, a->b, bin(OR, a->a, b->b)); }
        if (conjHas(a, b)) return b; if (conjHas(b, a)) return a;
        if (a->op == AND) { if (compl_(a->a, b)) return bin(OR, a->b, b); if (compl_(a->b, b)) return bin(OR, a->a, b); }
        if (b->op == AND) { if (compl_(b->a, a)) return bin(OR, b->b, a); if (compl_(b->b, a)) return bin(OR, b->a, a); } }
      break;
    case XOR: if (a == b) return K(w, 0); if (isC(b)) { if (b->k == 0) return a; if (a->op == XOR && isC(a->b)) return bin(XOR, a->a, K(w, a->b->k ^ b->k)); }
      if (w == 1 && isC(b)) { if (a->op == ULT) return bin(ULE, a->b, a->a); if (a->op == ULE) return bin(ULT, a->b, a->a); if (a->op == SLT) return bin(SLE, a->b, a->a); if (a->op == SLE) return bin(SLT, a->b, a->a); }
      break;
    case SHL: case LSHR: case ASHR: if (isC(b)) { if (b->k == 0) return a;
        if (op == SHL && a->op == SHL && isC(a->b)) { u64 t = a->b->k + b->k; return t >= (u64)w ? K(w, 0) : bin(SHL, a->a, K(w, t)); }
        if (op == LSHR && a->op == LSHR && isC(a->b)) { u64 t = a->b->k + b->k; return t >= (u64)w ? K(w, 0) : bin(LSHR, a->a, K(w, t)); }
        if (op == LSHR && a->op == SHL && isC(a->b) && a->b->k == b->k && a->a->hi <= (m >> b->k)) return a->a; }
      break;
    case EQ: if (a == b) return K(1, 1); if (a->hi < b->lo || b->hi < a->lo) return K(1, 0);
      if (isC(b)) { u64 k = b->k;
        if (a->w == 1) return k ? a : Not(a);
        if (a->op == ZEXT) return k > mask(a->a->w) ? K(1, 0) : bin(EQ, a->a, K(a->a->w, k));
        if (a->op == SEXT) { u64 t = k & mask(a->a->w); return ((u64)sx(t, a->a->w) & m) != k ? K(1, 0) : bin(EQ, a->a, K(a->a->w, t)); }
        if (a->op == ADD && isC(a->b)) return bin(EQ, a->a, K(a->w, k - a->b->k));
        if (a->op == XOR && isC(a->b)) return bin(EQ, a->a, K(a->w, k ^ a->b->k));
        if (a->op == CONCAT) return And(bin(EQ, a->a, K(a->a->w, k >> a->b->w)), bin(EQ, a->b, K(a->b->w, k)));
        if (a->op == ITE) { E t = bin(EQ, a->b, b), f = bin(EQ, a->c, b); if (isC(t) || isC(f)) return Ite(a->a, t, f); } }
      break;
    case ULT: if (a == b) return K(1, 0); if (a->hi < b->lo) return K(1, 1); if (a->lo >= b->hi) return K(1, 0);
      if (isC(b) && a->op == ZEXT) return bin(ULT, a->a, K(a->a->w, b->k)); // b->k <= a->hi here
      if (isC(a) && b->op == ZEXT) return bin(ULT, K(b->a->w, a->k), b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
      break;
    case ULE: if (a == b) return K(1, 1); if (a->hi <= b->lo) return K(1, 1); if (a->lo > b->hi) return K(1, 0);
      if (isC(b) && a->op == ZEXT) return bin(ULE, a->a, K(a->a->w, b->k));
      if (isC(a) && b->op == ZEXT) return bin(ULE, K(b->a->w, a->k), b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
      break;
    case SLT: case SLE: if (a == b) return K(1, op == SLE);
      { u64 sm = m >> 1; bool ap = a->hi <= sm, bp = b->hi <= sm, an = a->lo > sm, bn = b->lo > sm;
        if ((ap && bp) || (an && bn)) return bin(op == SLT ? ULT : ULE, a, b);
        if (ap && bn) return K(1, 0); if (an && bp) return K(1, 1); }
      break;
    default: break;
    }
    return mk(op, w, a, b, nullptr, 0);
  }
  E Ite(E c, E t, E f) {
    if (isC(c)) return c->k ? t : f; if (t == f) return t;
    if (isNot(c)) return Ite(c->a, f, t);
    if (c->op == TBL || t->op == TBL || f->op == TBL) { E r = tabulate(ITE, t->w, c, t, f, 0); if (r) return r; }
    if (t->w == 1) { if (isC(t)) return t->k ? Or(c, f) : And(Not(c), f); if (isC(f)) return f->k ? Or(Not(c), t) : And(c, t); }
    if (t->op == ITE && t->a == c) t = t->b; if (f->op == ITE && f->a == c) f = f->c; if (t == f) return t;
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if (f->op == ITE && f->b == t) return Ite(Or(c, f->a), t, f->c);
    return mk(ITE, t->w, c, t, f, 0);
  }
  E Zext(E a, int w) { if (a->w == w) return a; if (isC(a)) return K(w, a->k); if (a->op == ZEXT) return Zext(a->a, w); if (a->op == ITE && a->itec) return Ite(a->a, Zext(a->b, w), Zext(a->c, w)); if (a->op == TBL) { E r = tabulate(ZEXT, w, a, nullptr, nullptr, 0); if (r) return r; } return mk(ZEXT, w, a, nullptr, nullptr, 0); }
  E Sext(E a, int w) { if (a->w == w) return a; if (isC(a)) return K(w, (u64)sx(a->k, a->w)); if (a->hi <= (mask(a->w) >> 1)) return Zext(a, w); if (a->op == TBL) { E r = tabulate(SEXT, w, a, nullptr, nullptr, 0); if (r) return r; } if (a->op == SEXT) return Sext(a->a, w); if (a->op == ITE && a->itec) return Ite(a->a, Sext(a->b, w), Sext(a->c, w)); return mk(SEXT, w, a, nullptr, nullptr, 0); }
  E Extract(E a, int lo, int w) {
    if (lo == 0 && w == a->w) return a; if (isC(a)) return K(w, a->k >> lo);
    if (a->op == ITE && a->itec) return Ite(a->a, Extract(a->b, lo, w), Extract(a->c, lo, w));
    if (a->op == TBL) { E r = tabulate(EXTRACT, w, a, nullptr, nullptr, lo); if (r) return r; }
    if (a->op == EXTRACT) return Extract(a->a, lo + a->k, w);
    if (a->op == ZEXT) { if (lo >= a->a->w) return K(w, 0); if (lo + w <= a->a->w) return Extract(a->a, lo, w); if (lo == 0) return Zext(a->a, w); return Zext(Extract(a->a, lo, a->a->w - lo), w); }
    if (a->op == SEXT && lo + w <= a->a->w) return Extract(a->a, lo, w);
    if (a->op == CONCAT) { if (lo >= a->b->w) return Extract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return Extract(a->b, lo, w); return Concat(Extract(a->a, 0, lo + w - a->b->w), Extract(a->b, lo, a->b->w - lo)); }
    if (a->op == SHL && isC(a->b)) { u64 s = a->b->k; if ((u64)lo >= s) return Extract(a->a, lo - s, w); if ((u64)(lo + w) <= s) return K(w, 0); }
    if (a->op == LSHR && isC(a->b) && lo + w + a->b->k <= a->w) return Extract(a->a, lo + a->b->k, w);
    if (lo == 0 && (a->op == AND || a->op == OR || a->op == XOR || a->op == ADD) && (isC(a->b))) return bin(a->op, Extract(a->a, 0, w), Extract(a->b, 0, w));
    if (a->op == AND || a->op == OR || a->op == XOR) return bin(a->op, Extract(a->a, lo, w), Extract(a->b, lo, w));
    if (a->op == ITE) { E t = a->b, f = a->c; if (isC(t) || isC(f) || t->op == ZEXT || f->op == ZEXT) return Ite(a->a, Extract(t, lo, w), Extract(f, lo, w)); }
    return mk(EXTRACT, w, a, nullptr, nullptr, lo);
  }
  E Concat(E hi, E lo) { int w = hi->w + lo->w; if (isC(hi) && isC(lo)) return K(w, (hi->k << lo->w) | lo->k); if (isC(hi) && hi->k == 0) return Zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return Extract(hi->a, lo->k, w);
    if (hi->op == TBL || lo->op == TBL) { E r = tabulate(CONCAT, w, hi, lo, nullptr, 0); if (r) return r; }
    return mk(CONCAT, w, hi, lo, nullptr, 0); }
  // guard of an ITE inside an index expression; replacement of that ITE by one of its branches
  E findGuard(E e, int depth) { if (!e || depth > 12 || e->ns < 3) return nullptr; if (e->op == ITE) return e->a; if (e->op == TBL) return nullptr; E r = findGuard(e->a, depth + 1); if (!r && e->b) r = findGuard(e->b, depth + 1); return r; }
  E subst(E e, E g, bool pos, std::unordered_map<E, E> &m) {
    if (!e || isC(e) || e->op == SYM || e->op == TBL) return e; auto it = m.find(e); if (it != m.end()) return it->second; E r = e;
    if (e == g) r = K(1, pos); else switch (e->op) {
    case ITE: r = e->a == g ? subst(pos ? e->b : e->c, g, pos, m) : Ite(e->a, subst(e->b, g, pos, m), subst(e->c, g, pos, m)); break;
    case ZEXT: r = Zext(subst(e->a, g, pos, m), e->w); break; case SEXT: r = Sext(subst(e->a, g, pos, m), e->w); break;
    case EXTRACT: r = Extract(subst(e->a, g, pos, m), e->k, e->w); break; case CONCAT: r = Concat(subst(e->a, g, pos, m), subst(e->b, g, pos, m)); break;
    default: r = bin(e->op, subst(e->a, g, pos, m), subst(e->b, g, pos, m)); }
    return m[e] = r; }
  // table lookup; index values outside [lo, lo+n) never occur (checked by the caller)
  E Tbl(const std::string &key, int w, u64 lo, std::vector<u64> &&v, E idx) {
    int ix; auto it = tblIdx.find(key);
    if (it == tblIdx.end()) { Table *t = new Table; for (u64 x : v) if (x >> 32) { fprintf(stderr, "table values exceed 32 bits\n"); abort(); } t->v.assign(v.begin(), v.end()); t->lo = lo; t->w = w; t->mn = ~0ull; t->mx = 0; for (u64 x : t->v) { if (x < t->mn) t->mn = x; if (x > t->mx) t->mx = x; } ix = tables.size(); tables.push_back(t); tblIdx[key] = ix; }
    else ix = it->second;
    if (!noCanon && idx->ns == 3) { E g = findGuard(idx, 0); if (g) { std::unordered_map<E, E> m1, m2; E x = subst(idx, g, true, m1), y = subst(idx, g, false, m2); if (x->ns < 3 || y->ns < 3 || x->a != idx->a) { std::vector<u64> e1, e2; return Ite(g, Tbl(key, w, lo, std::move(e1), x), Tbl(key, w, lo, std::move(e2), y)); } } }
    if (isC(idx)) { u64 i = idx->k - lo; return K(w, i < tables[ix]->v.size() ? tables[ix]->v[i] : tables[ix]->v.back()); }
    Dom d; if (!noCanon && dom({idx}, d) && d.n <= 65536) {
      Key key{{((u64)TBL << 8) | (u64)w, (u64)idx, 0, 0, (u64)ix}}; auto f = tmemo.find(key); if (f != tmemo.end()) return f->second;
      Expr t; memset((void *)&t, 0, sizeof t); t.op = TBL; t.w = w; t.a = idx; t.k = ix; Vec x; vec(&t, d, x); E r = fromVec(d, w, x); if (r) return tmemo[key] = r; }
    return mk(TBL, w, idx, nullptr, nullptr, ix);
  }
  // ---- evaluation
  const u64 *model = nullptr; size_t modelN = 0;
  void newEval(const std::vector<u64> &m) { model = m.data(); modelN = m.size(); stampc++; }
  u64 eval(E e) {
    if (e->op == CONST) return e->k;
    if (e->stamp == stampc) return e->val;
    u64 r;
    switch (e->op) {
    case SYM: r = e->k < modelN ? model[e->k] : syms[e->k].lo; break;
    case ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
    case ZEXT: r = eval(e->a); break;
    case SEXT: r = (u64)sx(eval(e->a), e->a->w) & mask(e->w); break;
    case EXTRACT: r = (eval(e->a) >> e->k) & mask(e->w); break;
    case CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
    case TBL: { Table *t = tables[e->k]; u64 i = eval(e->a) - t->lo; r = i < t->v.size() ? t->v[i] : t->v.back(); break; }
    case AND: { u64 x = eval(e->a); r = x ? x & eval(e->b) : 0; break; }
    default: r = fold(e->op, e->w, eval(e->a), eval(e->b), e->a->w);
    }
    e->stamp = stampc; e->val = r; return r;
  }
  // ---- z3
  Z3_context z = nullptr; Z3_sort bvs[65];
  std::vector<Z3_ast> symz;
  u64 nTblNodes = 0;
  void zinit() { Z3_config cfg = Z3_mk_config(); z = Z3_mk_context(cfg); memset(bvs, 0, sizeof bvs); }
  Z3_sort bv(int w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(z, w); return bvs[w]; }
  Z3_ast zk(int w, u64 v) { return Z3_mk_unsigned_int64(z, v, bv(w)); }
  Z3_ast zand(Z3_ast x, Z3_ast y) { Z3_ast t[2] = {x, y}; return Z3_mk_and(z, 2, t); }
  Z3_ast symast(int ix) { while ((int)symz.size() <= ix) { int i = symz.size(); std::string n = "s" + std::to_string(i); symz.push_back(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), syms[i].w == 1 ? Z3_mk_bool_sort(z) : bv(syms[i].w))); } return symz[ix]; }
  Z3_ast tb(E e) { // Bool translation of a width-1 expression
    if (e->zb) return e->zb; Z3_ast r; 
    switch (e->op) {
    case CONST: r = e->k ? Z3_mk_true(z) : Z3_mk_false(z); break;
    case SYM: r = symast(e->k); break;
    case AND: { Z3_ast t[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_and(z, 2, t); break; }
    case OR: { Z3_ast t[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_or(z, 2, t); break; }
    case XOR: r = isNot(e) ? Z3_mk_not(z, tb(e->a)) : Z3_mk_xor(z, tb(e->a), tb(e->b)); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(z, tb(e->a), tb(e->b)) : Z3_mk_eq(z, tv(e->a), tv(e->b)); break;
    case ULT: r = Z3_mk_bvult(z, tv(e->a), tv(e->b)); break; case ULE: r = Z3_mk_bvule(z, tv(e->a), tv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(z, tv(e->a), tv(e->b)); break; case SLE: r = Z3_mk_bvsle(z, tv(e->a), tv(e->b)); break;
    case ITE: r = Z3_mk_ite(z, tb(e->a), tb(e->b), tb(e->c)); break;
    case TBL: r = tblb(e); break;
    default: r = Z3_mk_eq(z, tv(e), zk(1, 1));
    }
    return e->zb = r;
  }
  Z3_ast tv(E e) {
    if (e->z) return e->z; Z3_ast r;
    if (e->w == 1 && ((e->op >= EQ && e->op <= SLE) || e->op == AND || e->op == OR || e->op == XOR || e->op == ITE || e->op == SYM || e->op == TBL)) return e->z = Z3_mk_ite(z, tb(e), zk(1, 1), zk(1, 0));
    switch (e->op) {
    case CONST: r = zk(e->w, e->k); break; case SYM: r = symast(e->k); break;
    case ADD: r = Z3_mk_bvadd(z, tv(e->a), tv(e->b)); break; case SUB: r = Z3_mk_bvsub(z, tv(e->a), tv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(z, tv(e->a), tv(e->b)); break; case UDIV: r = Z3_mk_bvudiv(z, tv(e->a), tv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(z, tv(e->a), tv(e->b)); break; case UREM: r = Z3_mk_bvurem(z, tv(e->a), tv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(z, tv(e->a), tv(e->b)); break; case AND: r = Z3_mk_bvand(z, tv(e->a), tv(e->b)); break;
    case OR: r = Z3_mk_bvor(z, tv(e->a), tv(e->b)); break; case XOR: r = Z3_mk_bvxor(z, tv(e->a), tv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(z, tv(e->a), tv(e->b)); break; case LSHR: r = Z3_mk_bvlshr(z, tv(e->a), tv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(z, tv(e->a), tv(e->b)); break; case ITE: r = Z3_mk_ite(z, tb(e->a), tv(e->b), tv(e->c)); break;
    case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, tv(e->a)); break; case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, tv(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(z, e->k + e->w - 1, e->k, tv(e->a)); break; case CONCAT: r = Z3_mk_concat(z, tv(e->a), tv(e->b)); break;
    case TBL: r = tblz(e); break;
    default: fprintf(stderr, "tv op %d\n", e->op); abort();
    }
    return e->z = r;
  }
  Z3_ast tblb(E e) { // 1-bit table as a formula
    Table *t = tables[e->k]; E ix = e->a; u64 n = t->v.size();
    std::vector<std::pair<u64, u64>> rs; for (u64 i = 0; i < n && rs.size() < 9;) { if (!t->v[i]) { i++; continue; } u64 j = i; while (j + 1 < n && t->v[j + 1]) j++; rs.push_back({i, j}); i = j + 1; }
    if (rs.size() < 9) { std::vector<Z3_ast> o; for (auto &r : rs) { std::vector<Z3_ast> q; if (r.first == r.second) q.push_back(Z3_mk_eq(z, tv(ix), zk(ix->w, t->lo + r.first))); else { if (r.first > 0) q.push_back(Z3_mk_bvuge(z, tv(ix), zk(ix->w, t->lo + r.first))); if (r.second + 1 < n) q.push_back(Z3_mk_bvule(z, tv(ix), zk(ix->w, t->lo + r.second))); } o.push_back(q.size() == 1 ? q[0] : Z3_mk_and(z, q.size(), q.data())); } return o.size() == 1 ? o[0] : Z3_mk_or(z, o.size(), o.data()); }
    if (t->lo) ix = bin(SUB, ix, K(ix->w, t->lo));
    int nb = 0; while (nb < ix->w && (1ull << nb) < n) nb++;
    Z3_ast T = Z3_mk_true(z), F = Z3_mk_false(z); std::vector<Z3_ast> cur; for (u64 i = 0; i < n; i++) cur.push_back(t->v[i] ? T : F);
    for (int b = 0; b < nb; b++) {
      if (cur.size() & 1) cur.push_back(cur.back());
      Z3_ast bit = tb(Extract(ix, b, 1)), nbit = Z3_mk_not(z, bit); std::map<std::pair<Z3_ast, Z3_ast>, Z3_ast> memo; std::vector<Z3_ast> nx;
      for (size_t i = 0; i < cur.size(); i += 2) { Z3_ast l = cur[i], h = cur[i + 1]; if (l == h) { nx.push_back(l); continue; }
        auto k = std::make_pair(l, h); auto it = memo.find(k); if (it == memo.end()) { Z3_ast r, two[2]; if (l == F && h == T) r = bit; else if (l == T && h == F) r = nbit; else if (l == F) { two[0] = bit; two[1] = h; r = Z3_mk_and(z, 2, two); } else if (h == F) { two[0] = nbit; two[1] = l; r = Z3_mk_and(z, 2, two); } else if (l == T) { two[0] = nbit; two[1] = h; r = Z3_mk_or(z, 2, two); } else if (h == T) { two[0] = bit; two[1] = l; r = Z3_mk_or(z, 2, two); } else r = Z3_mk_ite(z, bit, h, l); it = memo.emplace(k, r).first; nTblNodes++; }
        nx.push_back(it->second); }
      cur.swap(nx); }
    return cur[0];
  }
  Z3_ast tblz(E e) {
    Table *t = tables[e->k]; E ix = e->a; u64 n = t->v.size();
    if (t->lo) ix = bin(SUB, ix, K(ix->w, t->lo));
    int nb = 0; while (nb < ix->w && (1ull << nb) < n) nb++;
    std::vector<Z3_ast> cur; std::unordered_map<u64, Z3_ast> kc;
    for (u64 i = 0; i < n; i++) { auto it = kc.find(t->v[i]); if (it == kc.end()) it = kc.emplace(t->v[i], zk(t->w, t->v[i])).first; cur.push_back(it->second); }
    for (int b = 0; b < nb; b++) {
      if (cur.size() & 1) cur.push_back(cur.back());
      E bitE = Extract(ix, b, 1); Z3_ast bit = tb(bitE);
      std::map<std::pair<Z3_ast, Z3_ast>, Z3_ast> memo; std::vector<Z3_ast> nx;
      for (size_t i = 0; i < cur.size(); i += 2) {
        if (cur[i] == cur[i + 1]) nx.push_back(cur[i]);
        else { auto k = std::make_pair(cur[i], cur[i + 1]); auto it = memo.find(k); if (it == memo.end()) { it = memo.emplace(k, Z3_mk_ite(z, bit, cur[i + 1], cur[i])).first; nTblNodes++; } nx.push_back(it->second); }
      }
      cur.swap(nx);
    }
    return cur[0];
  }
};
