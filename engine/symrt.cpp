// Run time of the symbolic executor: shadow memory, expressions, path conditions,
// polynomial normal forms, z3 queries and the path explorer.
#include <malloc.h>
#include <z3++.h>
#include <gmpxx.h>
#include <quadmath.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <random>
#include <deque>
#include <dlfcn.h>
#include <execinfo.h>

typedef __float128 f128;
static double nowMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }

// ---------------------------------------------------------------------------------
// options
// ---------------------------------------------------------------------------------
static bool inPrelude = false;
static bool REAL = true;
static int OPT_TIMEOUT = 2000;        // ms per solver query
static double OPT_BUDGET = 60;        // seconds
static int OPT_JOBS = 8;
static long OPT_MAXPATHS = 100000;
static long OPT_MAXBR = 4000;         // symbolic decisions per path
static unsigned OPT_SEED = 1;
static bool OPT_DIV0 = true;
static int OPT_DUMP = 0;
static int OPT_ENUM = 64;
static double OPT_PATHSEC = 60;

// ---------------------------------------------------------------------------------
// expressions
// ---------------------------------------------------------------------------------
enum Op : uint16_t { VAR, CST, // any sort
  IADD, ISUB, IMUL, IUDIV, ISDIV, IUREM, ISREM, ISHL, ILSHR, IASHR, IAND, IOR, IXOR, IZEXT, ISEXT, ITRUNC, ICONCAT, IEXTRACT, IITE, B2I, BITS, R2I, R2U,
  BNOT, BAND, BOR, BXOR, BITE, I2B, EQ, ULT, ULE, SLT, SLE, FEQ, FLT, FLE, FUNO,
  RADD, RSUB, RMUL, RDIV, RNEG, RABS, RSQRT, RUF, FROMBITS, S2R, U2R, REXT, RTRUNC };
enum Sort : uint8_t { SB, SI, SR };
struct RF;
struct Expr {
  uint16_t op; uint8_t sort; uint8_t w; uint32_t id;
  Expr *a, *b, *c; uint64_t imm;
  uint64_t v;            // value of Bool / BV; in FP mode: bits of the double value of a float
  f128 r;                // value of a float
  RF *rf; uint32_t mark; f128 er; uint64_t ev;
  int lv; int64_t off;   // integers: value = unknown lv (-1: none) + off exactly, without wrap; lv -2: no such form
};
typedef Expr *S;
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; Sort sort; unsigned w; double lo, hi; uint64_t ulo, uhi; int quat; /*-1 or group*/ int qidx; S e; };
static std::vector<VarInfo> vars;
static std::unordered_map<std::string, int> varByName;
struct Model { std::map<std::string, std::string> kv; };   // text: hex doubles / decimal integers
static std::map<std::string, double> inF; static std::map<std::string, uint64_t> inU;
static std::vector<std::string> ufNames;

struct Key { uint16_t op; uint8_t sort, w; S a, b, c; uint64_t imm;
  bool operator==(const Key &o) const { return op == o.op && sort == o.sort && w == o.w && a == o.a && b == o.b && c == o.c && imm == o.imm; } };
struct KeyH { size_t operator()(const Key &k) const { size_t h = k.op * 1000003u + k.sort * 31 + k.w; h = h * 0x9E3779B97F4A7C15ull ^ (size_t)k.a; h = h * 0x9E3779B97F4A7C15ull ^ (size_t)k.b; h = h * 0x9E3779B97F4A7C15ull ^ (size_t)k.c; h = h * 0x9E3779B97F4A7C15ull ^ k.imm; return h ^ (h >> 29); } };
static std::unordered_map<Key, S, KeyH> *pool;
static uint32_t nexprs = 0;
static std::vector<Expr *> chunks; static size_t chunkUsed = 0;
static Expr *allocExpr() {
  if (chunks.empty() || chunkUsed == 4096) { chunks.push_back((Expr *)calloc(4096, sizeof(Expr))); chunkUsed = 0; }
  return &chunks.back()[chunkUsed++];
}
static double asD(S e) { return (double)e->r; }
static double roundW(double d, unsigned w) { return w == 32 ? (double)(float)d : d; }
static f128 ufEval(const std::string &n, f128 a, f128 b) {
  if (n == "sin") return sinq(a); if (n == "cos") return cosq(a); if (n == "tan") return tanq(a);
  if (n == "asin") return asinq(a); if (n == "acos") return acosq(a); if (n == "atan") return atanq(a);
  if (n == "atan2") return atan2q(a, b); if (n == "exp") return expq(a); if (n == "log") return logq(a);
  if (n == "pow") return powq(a, b); if (n == "floor") return floorq(a); if (n == "ceil") return ceilq(a);
  if (n == "round") return roundq(a); if (n == "trunc") return truncq(a); if (n == "hypot") return hypotq(a, b); if (n == "fmod") return fmodq(a, b);
  if (n == "copysign") return copysignq(a, b); if (n == "rint" || n == "nearbyint") return rintq(a);
  return nanq("");
}
// value of a node from the values of its children (er/ev fields of the children)
static void evalNode(S e, f128 &r, uint64_t &v) {
  auto va = [&] { return e->a->ev; }; auto vb = [&] { return e->b->ev; };
  auto ra = [&] { return e->a->er; }; auto rb = [&] { return e->b->er; };
  uint64_t m = maskw(e->w);
  auto fr = [&](f128 x) { if (REAL) return x; return (f128)roundW((double)x, e->w); };
  switch (e->op) {
  case VAR: case CST: break;
  case IADD: v = (va() + vb()) & m; break; case ISUB: v = (va() - vb()) & m; break; case IMUL: v = (va() * vb()) & m; break;
  case IUDIV: v = vb() ? va() / vb() : m; break; case IUREM: v = vb() ? va() % vb() : va(); break;
  case ISDIV: { int64_t x = sx(va(), e->w), y = sx(vb(), e->w); v = y == 0 || y == -1 ? (uint64_t)(y ? -x : -1) & m : (uint64_t)(x / y) & m; break; }
  case ISREM: { int64_t x = sx(va(), e->w), y = sx(vb(), e->w); v = y == 0 ? va() : y == -1 ? 0 : (uint64_t)(x % y) & m; break; }
  case ISHL: v = vb() >= e->w ? 0 : (va() << vb()) & m; break; case ILSHR: v = vb() >= e->w ? 0 : va() >> vb(); break;
  case IASHR: v = (uint64_t)(sx(va(), e->w) >> std::min<uint64_t>(vb(), e->w - 1)) & m; break;
  case IAND: v = va() & vb(); break; case IOR: v = va() | vb(); break; case IXOR: v = va() ^ vb(); break;
  case IZEXT: v = va(); break; case ISEXT: v = (uint64_t)sx(va(), e->a->w) & m; break; case ITRUNC: v = va() & m; break;
  case ICONCAT: v = ((va() << e->b->w) | vb()) & m; break; case IEXTRACT: v = (va() >> e->imm) & m; break;
  case IITE: case BITE: v = va() ? e->b->ev : e->c->ev; break; case B2I: v = va(); break;
  case BITS: if (e->w == 32) { float f = (float)ra(); uint32_t u; memcpy(&u, &f, 4); v = u; } else { double d = (double)ra(); memcpy(&v, &d, 8); } break;
  case R2I: v = (uint64_t)(int64_t)(double)ra() & m; break; case R2U: v = (uint64_t)(double)ra() & m; break;
  case BNOT: v = !va(); break; case BAND: v = va() & vb(); break; case BOR: v = va() | vb(); break; case BXOR: v = va() ^ vb(); break; case I2B: v = va() & 1; break;
  case EQ: v = va() == vb(); break; case ULT: v = va() < vb(); break; case ULE: v = va() <= vb(); break;
  case SLT: v = sx(va(), e->a->w) < sx(vb(), e->a->w); break; case SLE: v = sx(va(), e->a->w) <= sx(vb(), e->a->w); break;
  case FEQ: case FLT: case FLE: {
    f128 x = ra(), y = rb();
    if (REAL) { f128 d = fabsq(x - y), sc = fabsq(x) + fabsq(y) + 1; if (d < sc * 1e-26Q) { v = e->op != FLT; break; } }
    v = e->op == FEQ ? x == y : e->op == FLT ? x < y : x <= y; break; }
  case FUNO: v = isnanq(ra()) || isnanq(rb()); break;
  case RADD: r = fr(ra() + rb()); break; case RSUB: r = fr(ra() - rb()); break; case RMUL: r = fr(ra() * rb()); break;
  case RDIV: r = fr(ra() / rb()); break; case RNEG: r = -ra(); break; case RABS: r = fabsq(ra()); break; case RSQRT: r = fr(sqrtq(ra())); break;
  case RUF: r = fr(ufEval(ufNames[e->imm], ra(), e->b ? rb() : 0)); break;
  case FROMBITS: if (e->w == 32) { uint32_t u = va(); float f; memcpy(&f, &u, 4); r = f; } else { uint64_t u = va(); double d; memcpy(&d, &u, 8); r = d; } break;
  case S2R: r = fr((f128)sx(va(), e->a->w)); break; case U2R: r = fr((f128)va()); break;
  case REXT: r = ra(); break; case RTRUNC: r = fr(ra()); break;
  }
}
static S cI(uint64_t v, unsigned w); static S cB(bool b); static S cR(double d, unsigned w);
static S foldTwo(uint16_t op, uint8_t sort, uint8_t w, S a, S b, S c, uint64_t imm);
// ids, sizes and indices: unknown plus constant
static const __int128 BIG = (__int128)1 << 62;
static void linRange(int lv, int64_t off, __int128 &lo, __int128 &hi) { lo = hi = off; if (lv >= 0) { lo += vars[lv].ulo; hi += vars[lv].uhi; } }
static int64_t sextC(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static bool linOf(uint16_t op, uint8_t w, S a, S b, uint64_t imm, int &lv, int64_t &off) {
  __int128 lo, hi, o; auto fits = [&](int l, __int128 f, unsigned bits) { if (f > BIG || f < -BIG) return false; linRange(l, (int64_t)f, lo, hi); return lo >= 0 && hi < BIG && (bits >= 62 || hi < ((__int128)1 << bits)); };
  switch (op) {
  case CST: if (imm >= (uint64_t)BIG) return false; lv = -1; off = imm; return true;
  case VAR: if (imm >= vars.size() || vars[imm].uhi >= (uint64_t)BIG) return false; lv = imm; off = 0; return true;
  case IADD: if (a->op == CST) std::swap(a, b); if (b->op != CST || a->lv < 0) return false; o = (__int128)a->off + sextC(b->v, w); if (!fits(a->lv, o, w)) return false; lv = a->lv; off = (int64_t)o; return true;
  case ISUB: if (b->op != CST || a->lv < 0) return false; o = (__int128)a->off - sextC(b->v, w); if (!fits(a->lv, o, w)) return false; lv = a->lv; off = (int64_t)o; return true;
  case IZEXT: if (a->lv == -2) return false; lv = a->lv; off = a->off; return true;
  case ISEXT: if (a->lv == -2 || !fits(a->lv, a->off, a->w - 1)) return false; lv = a->lv; off = a->off; return true;
  case IEXTRACT: if (imm) return false; /* fall through */
  case ITRUNC: if (a->lv == -2 || !fits(a->lv, a->off, w)) return false; lv = a->lv; off = a->off; return true;
  }
  return false;
}
static S cB(bool b); static S cI(uint64_t v, unsigned w);
static S foldLin(uint16_t op, uint8_t w, S a, S b) {
  if (!a || !b || a->sort != SI || b->sort != SI || a->lv == -2 || b->lv == -2 || (a->lv < 0 && b->lv < 0)) return nullptr;
  if (op == ISUB) return a->lv == b->lv ? cI((uint64_t)(a->off - b->off), w) : nullptr;
  if (op < EQ || op > SLE) return nullptr;
  __int128 l1, h1, l2, h2; linRange(a->lv, a->off, l1, h1); linRange(b->lv, b->off, l2, h2);
  if (op == SLT || op == SLE) { __int128 m = (__int128)1 << (a->w - 1); if (h1 >= m || h2 >= m) return nullptr; }
  if (a->lv == b->lv) { h1 = l1 = a->off; h2 = l2 = b->off; }
  switch (op) {
  case EQ: if (l1 == h1 && l2 == h2) return cB(l1 == l2); if (h1 < l2 || h2 < l1) return cB(false); return nullptr;
  case ULT: case SLT: if (h1 < l2) return cB(true); if (l1 >= h2) return cB(false); return nullptr;
  default: if (h1 <= l2) return cB(true); if (l1 > h2) return cB(false); return nullptr;
  }
}
static S mk(uint16_t op, uint8_t sort, uint8_t w, S a = nullptr, S b = nullptr, S c = nullptr, uint64_t imm = 0) {
  Key k{op, sort, w, a, b, c, imm};
  auto it = pool->find(k);
  if (it != pool->end()) return it->second;
  if (S f = foldLin(op, w, a, b)) { (*pool)[k] = f; return f; }
  if (S f = foldTwo(op, sort, w, a, b, c, imm)) { (*pool)[k] = f; return f; }
  S e = allocExpr();
  e->op = op; e->sort = sort; e->w = w; e->a = a; e->b = b; e->c = c; e->imm = imm; e->id = nexprs++; e->rf = nullptr; e->mark = 0; e->lv = -2; e->off = 0;
  if (sort == SI) { int lv; int64_t off; if (linOf(op, w, a, b, imm, lv, off)) { e->lv = lv; e->off = off; } }
  for (S x : {a, b, c}) if (x) { x->er = x->r; x->ev = x->v; }
  evalNode(e, e->r, e->v);
  if (a && op != VAR && op != CST && op != RUF && a->op == CST && (!b || b->op == CST) && (!c || c->op == CST) && (sort != SR || (f128)(double)e->r == e->r)) {
    S f = nullptr;
    if (sort == SI) f = cI(e->v, w); else if (sort == SB) f = cB(e->v); else f = cR((double)e->r, w);
    (*pool)[k] = f;
    return f;
  }
  (*pool)[k] = e;
  return e;
}
static S cI(uint64_t v, unsigned w) { v &= maskw(w); S e = mk(CST, SI, w, nullptr, nullptr, nullptr, v); e->v = v; return e; }
static S cB(bool b) { S e = mk(CST, SB, 1, nullptr, nullptr, nullptr, b); e->v = b; return e; }
static S cR(double d, unsigned w) { uint64_t u; memcpy(&u, &d, 8); S e = mk(CST, SR, w, nullptr, nullptr, nullptr, u); e->r = d; return e; }
static bool isC(S e) { return e->op == CST; }
static S toBV(S e, unsigned w);
static S bnot(S e) { if (isC(e)) return cB(!e->v); if (e->op == BNOT) return e->a; return mk(BNOT, SB, 1, e); }
// an operation on a value that is one of two constants, chosen by a condition
static bool twoVal(S e, S &cond, S &t, S &f) {
  if (!e) return false;
  if (e->op == B2I) { cond = e->a; t = cI(1, e->w); f = cI(0, e->w); return true; }
  if (e->op == IITE && isC(e->b) && isC(e->c)) { cond = e->a; t = e->b; f = e->c; return true; }
  return false;
}
static S foldTwo(uint16_t op, uint8_t sort, uint8_t w, S a, S b, S c, uint64_t imm) {
  if (!((op >= IADD && op <= IEXTRACT) || (op >= EQ && op <= SLE)) || c || !a) return nullptr;
  S q, t, f, q2, t2, f2; bool ta = twoVal(a, q, t, f), tb = twoVal(b, q2, t2, f2);
  if (ta && b && !tb && !isC(b)) return nullptr;
  if (tb && !ta && !isC(a)) return nullptr;
  if (!ta && !tb) return nullptr;
  if (ta && tb && q != q2) return nullptr;
  if (!ta) { q = q2; t = f = a; }
  S bt = tb ? t2 : b, bf = tb ? f2 : b;
  S T = mk(op, sort, w, t, bt, nullptr, imm), F = mk(op, sort, w, f, bf, nullptr, imm);
  if (T == F) return T;
  if (!isC(T) || !isC(F)) return nullptr;
  if (sort == SB) return T->v ? q : bnot(q);
  return mk(IITE, SI, w, q, T, F);
}
static S b2i(S e, unsigned w) { if (isC(e)) return cI(e->v, w); return mk(B2I, SI, w, e); }
static S band(S a, S b) { if (isC(a)) return a->v ? b : a; if (isC(b)) return b->v ? a : b; if (a == b) return a; return mk(BAND, SB, 1, a, b); }
static S bor(S a, S b) { if (isC(a)) return a->v ? a : b; if (isC(b)) return b->v ? b : a; if (a == b) return a; return mk(BOR, SB, 1, a, b); }
static S extract(S e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w && e->sort == SI) return e;
  if (isC(e)) return cI(e->v >> lo, w);
  if (e->op == IEXTRACT) return extract(e->a, lo + e->imm, w);
  if (e->op == ICONCAT) { if (lo + w <= e->b->w) return extract(e->b, lo, w); if (lo >= e->b->w) return extract(e->a, lo - e->b->w, w); }
  if (e->op == IZEXT) { if (lo + w <= e->a->w) return extract(e->a, lo, w); if (lo >= e->a->w) return cI(0, w); }
  if (e->op == B2I && lo >= 1) return cI(0, w);
  return mk(IEXTRACT, SI, w, e, nullptr, nullptr, lo);
}
static S concat(S hi, S lo) {
  if (isC(hi) && isC(lo)) return cI((hi->v << lo->w) | lo->v, hi->w + lo->w);
  if (isC(hi) && hi->v == 0) return mk(IZEXT, SI, hi->w + lo->w, lo);
  if (hi->op == IEXTRACT && lo->op == IEXTRACT && hi->a == lo->a && lo->imm + lo->w == hi->imm) return extract(lo->a, lo->imm, hi->w + lo->w);
  return mk(ICONCAT, SI, hi->w + lo->w, hi, lo);
}
static S rneg(S e) { if (isC(e)) return cR(-asD(e), e->w); if (e->op == RNEG) return e->a; return mk(RNEG, SR, e->w, e); }

// ---------------------------------------------------------------------------------
// run state
// ---------------------------------------------------------------------------------
struct PCE { S cond; bool dir; bool flip; /*explorable*/ bool conc; S cs; uint64_t cv; uint32_t site; };
static std::vector<PCE> pc;
struct Dec { uint8_t kind; uint64_t v; };
static std::vector<Dec> prefix; static size_t prefixLen = 0;
static std::vector<Dec> decs;
static int outFd = -1;
static std::map<std::string, long> notes;
static std::set<std::string> fnSeen;
static std::set<std::string> reached;
struct ChkStat { long proved = 0, undecided = 0, violated = 0, normal = 0; };
static std::map<std::string, ChkStat> chk;
static long nSat = 0, nUnsat = 0, nUnknown = 0; static double solverMs = 0;
static long nNormal = 0, nSos = 0, nLin = 0;
static bool inRt = false;
static std::unordered_map<S, bool> known;   // conditions decided on this path

static void note(const std::string &s) { notes[s]++; }
static void endPath(const char *why);

// shadow memory -----------------------------------------------------------------------
struct Page { S e[4096]; uint8_t off[4096]; uint8_t conc[4096]; };
static std::unordered_map<uint64_t, Page *> *pages;
__attribute__((constructor(101))) static void earlyInit() { pages = new std::unordered_map<uint64_t, Page *>(); }   // global constructors of the code under test run before main
static uint64_t lastPg = ~0ull; static Page *lastP = nullptr;
static Page *getPage(uint64_t a, bool create) {
  uint64_t p = a >> 12;
  if (p == lastPg && (lastP || !create)) return lastP;
  auto it = pages->find(p);
  Page *r = nullptr;
  if (it != pages->end()) r = it->second;
  else if (create) { r = (Page *)calloc(1, sizeof(Page)); (*pages)[p] = r; }
  lastPg = p; lastP = r;
  return r;
}
extern "C" {
void *__sym_args[128]; void *__sym_ret[128]; void *__sym_callee; void *__sym_retfn;
}
static void setByte(uint64_t addr, S e, uint8_t off, uint8_t conc) {
  Page *p = getPage(addr, e != nullptr);
  if (!p) return;
  unsigned i = addr & 4095;
  p->e[i] = e; p->off[i] = off; p->conc[i] = conc;
}
// byte i of expression s as (base expression, byte offset)
static void bytePiece(S s, unsigned i, S &b, uint8_t &off) {
  for (;;) {
    if (s->op == ICONCAT && s->b->w % 8 == 0) { unsigned lb = s->b->w / 8; if (i < lb) s = s->b; else { s = s->a; i -= lb; } continue; }
    if (s->op == IZEXT && s->a->w % 8 == 0) { unsigned lb = s->a->w / 8; if (i < lb) { s = s->a; continue; } b = nullptr; off = 0; return; }
    if (s->op == IEXTRACT && s->imm % 8 == 0 && s->w % 8 == 0) { i += s->imm / 8; s = s->a; continue; }
    if (s->op == B2I && i > 0) { b = nullptr; off = 0; return; }
    if (s->op == B2I) { s = s->a; continue; }
    if (s->op == FROMBITS || s->op == BITS) { s = s->a; continue; }
    if (s->op == CST) { b = nullptr; off = 0; return; }
    b = s; off = i; return;
  }
}
static unsigned nbytes(S s) { return s->sort == SB ? 1 : (s->w + 7) / 8; }
static S toBV(S e, unsigned w) {
  if (e->sort == SI) return e;
  if (e->sort == SB) return b2i(e, w);
  if (e->op == FROMBITS) return e->a;
  if (isC(e)) { uint64_t v; if (e->w == 32) { float f = (float)asD(e); uint32_t u; memcpy(&u, &f, 4); v = u; } else { double d = asD(e); memcpy(&v, &d, 8); } return cI(v, e->w); }
  return mk(BITS, SI, e->w, e);
}
static S toR(S e, unsigned w) {
  if (e->sort == SR) return e;
  if (e->op == BITS) return e->a;
  if (REAL && OPT_DUMP && !isC(e)) { std::function<void(S,int)> pr = [&](S x, int d) { if (!x || d > 5) return; fprintf(stderr, "%*sop=%d sort=%d w=%d imm=%llu\n", d*2, "", x->op, x->sort, x->w, (unsigned long long)x->imm); pr(x->a, d+1); pr(x->b, d+1); pr(x->c, d+1); }; pr(e, 0); { void *bt[30]; int n = backtrace(bt, 30); backtrace_symbols_fd(bt, n, 2); } }
  if (REAL) { if (!isC(e)) { note("float assembled from integer bits: value fixed"); } return nullptr; }
  return mk(FROMBITS, SR, w, e);
}
extern "C" void __sym_store(void *p, uint32_t size, S s) {
  uint64_t a = (uint64_t)p;
  if (!s) {
    if (((a & 4095) + size) <= 4096) { Page *pg = getPage(a, false); if (pg) memset(&pg->e[a & 4095], 0, size * sizeof(S)); }
    else for (unsigned i = 0; i < size; i++) setByte(a + i, nullptr, 0, 0);
    return;
  }
  unsigned n = nbytes(s);
  for (unsigned i = 0; i < size; i++) {
    S b = nullptr; uint8_t o = 0;
    if (i < n) bytePiece(s, i, b, o);
    setByte(a + i, b, o, ((uint8_t *)p)[i]);
  }
}
extern "C" S __sym_load(const void *p, uint32_t size, uint32_t kind, uint32_t w) {
  uint64_t a = (uint64_t)p;
  S be[8]; uint8_t bo[8]; bool any = false;
  Page *pg = getPage(a, false);
  if (!pg && ((a & 4095) + size) <= 4096) return nullptr;
  for (unsigned i = 0; i < size; i++) {
    Page *q = getPage(a + i, false); unsigned k = (a + i) & 4095;
    be[i] = nullptr; bo[i] = 0;
    if (q && q->e[k]) {
      if (q->conc[k] != ((const uint8_t *)p)[i]) { q->e[k] = nullptr; continue; }   // overwritten by code outside the analysis
      be[i] = q->e[k]; bo[i] = q->off[k]; any = true;
    }
  }
  if (!any) return nullptr;
  S r = nullptr;
  if (be[0] && bo[0] == 0 && nbytes(be[0]) == size) {
    bool same = true;
    for (unsigned i = 1; i < size; i++) same &= be[i] == be[0] && bo[i] == i;
    if (same) r = be[0];
  }
  if (!r) {
    unsigned i = 0;
    while (i < size) {
      S piece; unsigned len = 1;
      if (!be[i]) { piece = cI(((const uint8_t *)p)[i], 8); }
      else {
        while (i + len < size && be[i + len] == be[i] && bo[i + len] == bo[i] + len) len++;
        S bv = toBV(be[i], 8);
        piece = extract(bv, bo[i] * 8, len * 8);
      }
      r = r ? concat(piece, r) : piece;
      i += len;
    }
    if (isC(r)) return nullptr;
  }
  if (kind == 1) { r = r->sort == SR ? r : toR(toBV(r, w), w); return r && isC(r) ? nullptr : r; }
  if (w == 1) { if (r->sort == SB) return r; r = toBV(r, 8); if (r->op == B2I) return r->a; return mk(I2B, SB, 1, extract(r, 0, 8)); }
  r = toBV(r, w);
  if (r->w > w) r = extract(r, 0, w);
  return isC(r) ? nullptr : r;
}
extern "C" void __sym_memset(void *d, uint64_t n) {
  uint64_t a = (uint64_t)d;
  while (n) { uint64_t k = std::min<uint64_t>(n, 4096 - (a & 4095)); Page *p = getPage(a, false); if (p) memset(&p->e[a & 4095], 0, k * sizeof(S)); a += k; n -= k; }
}
extern "C" void __sym_memcpy(void *d, const void *s, uint64_t n) {
  if (!n || d == s) return;
  // quick exit when neither side has shadow pages
  bool any = false;
  for (uint64_t x = (uint64_t)s >> 12; x <= ((uint64_t)s + n - 1) >> 12; x++) any |= pages->count(x) > 0;
  if (!any) { __sym_memset(d, n); return; }
  std::vector<S> e(n); std::vector<uint8_t> o(n), c(n);
  for (uint64_t i = 0; i < n; i++) {
    Page *q = getPage((uint64_t)s + i, false); unsigned k = ((uint64_t)s + i) & 4095;
    if (q && q->e[k] && q->conc[k] == ((const uint8_t *)s)[i]) { e[i] = q->e[k]; o[i] = q->off[k]; c[i] = q->conc[k]; }
  }
  for (uint64_t i = 0; i < n; i++) setByte((uint64_t)d + i, e[i], o[i], c[i]);
}
extern "C" void __sym_byval(void *d, void *s, uint64_t n) { if (s) __sym_memcpy(d, s, n); else __sym_memset(d, n); }
extern "C" void *__sym_realloc(void *p, uint64_t n) {
  if (!p) { void *q = malloc(n); __sym_memset(q, n); return q; }
  extern size_t malloc_usable_size(void *) noexcept;
  size_t old = malloc_usable_size(p);
  void *q = malloc(n);
  size_t k = std::min<size_t>(old, n);
  __sym_memcpy(q, p, k); memcpy(q, p, k);
  if (n > k) __sym_memset((char *)q + k, n - k);
  free(p);
  return q;
}
extern "C" size_t malloc_usable_size(void *) noexcept;
extern "C" void __sym_fn(char *cell, const char *name) { if (!*cell) { *cell = 1; fnSeen.insert(name); } }

// ---------------------------------------------------------------------------------
// rational functions (REAL mode)
// ---------------------------------------------------------------------------------
typedef std::vector<uint32_t> Mono;        // (atom<<8 | exponent), sorted
struct MonoH { size_t operator()(const Mono &m) const { size_t h = 1469598103934665603ull; for (auto x : m) { h ^= x; h *= 1099511628211ull; } return h; } };
typedef std::unordered_map<Mono, mpq_class, MonoH> Poly;
struct TooBig {};
static size_t MAXMONO = 60000;
struct Atom { std::string name; int kind; /*0 var 1 sqrt 2 uf 3 quat w*/ Poly sq; bool hasRule = false; S var = nullptr; S node = nullptr; std::vector<int> deps; double lo = -INFINITY, hi = INFINITY; };
static std::deque<Atom> atoms;
static std::map<std::string, int> atomByKey;
static bool anyRule = false;
static Poly pConst(const mpq_class &c) { Poly p; if (c != 0) p[Mono{}] = c; return p; }
static Poly pAtom(int a) { Poly p; p[Mono{(uint32_t)a << 8 | 1}] = 1; return p; }
static void addTo(Poly &p, const Mono &m, const mpq_class &c) {
  auto it = p.find(m);
  if (it == p.end()) { if (c != 0) p.emplace(m, c); return; }
  it->second += c;
  if (it->second == 0) p.erase(it);
}
static Mono mMul(const Mono &a, const Mono &b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && (a[i] >> 8) < (b[j] >> 8))) r.push_back(a[i++]);
    else if (i == a.size() || (b[j] >> 8) < (a[i] >> 8)) r.push_back(b[j++]);
    else { r.push_back(a[i] + (b[j] & 255)); i++; j++; }
  }
  return r;
}
static Poly pMul(const Poly &a, const Poly &b);
static void reduceInto(Poly &out, const Mono &m, const mpq_class &c) {
  if (anyRule)
    for (size_t i = 0; i < m.size(); i++) {
      unsigned at = m[i] >> 8, ex = m[i] & 255;
      if (ex >= 2 && atoms[at].hasRule) {
        Mono rest;
        for (size_t j = 0; j < m.size(); j++) { if (j != i) rest.push_back(m[j]); else if (ex & 1) rest.push_back((uint32_t)at << 8 | 1); }
        Poly f; f[Mono{}] = c;
        for (unsigned k = 0; k < ex / 2; k++) f = pMul(f, atoms[at].sq);
        for (auto &t : f) reduceInto(out, mMul(rest, t.first), t.second);
        return;
      }
    }
  addTo(out, m, c);
  if (out.size() > MAXMONO) throw TooBig();
}
static Poly pMul(const Poly &a, const Poly &b) {
  Poly r;
  if (a.empty() || b.empty()) return r;
  if (a.size() == 1 && a.begin()->first.empty()) { r = b; for (auto &t : r) t.second *= a.begin()->second; return r; }
  if (b.size() == 1 && b.begin()->first.empty()) { r = a; for (auto &t : r) t.second *= b.begin()->second; return r; }
  for (auto &x : a) for (auto &y : b) reduceInto(r, mMul(x.first, y.first), x.second * y.second);
  return r;
}
static Poly pAdd(const Poly &a, const Poly &b, int sgn) {
  Poly r = a;
  for (auto &t : b) addTo(r, t.first, sgn > 0 ? t.second : mpq_class(-t.second));
  return r;
}
static bool pIsConst(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static mpq_class pConstVal(const Poly &p) { return p.empty() ? mpq_class(0) : p.begin()->second; }
static std::vector<std::pair<Mono, mpq_class>> sorted(const Poly &p) {
  std::vector<std::pair<Mono, mpq_class>> v(p.begin(), p.end());
  std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
  return v;
}
static std::string pKey(const Poly &p) {
  std::string s;
  for (auto &t : sorted(p)) { for (auto x : t.first) { s += std::to_string(x); s += ','; } s += ':'; s += t.second.get_str(); s += ';'; }
  return s;
}
// denominators: product of interned factors
static std::deque<Poly> factors; static std::map<std::string, int> factorByKey;
static int internFactor(Poly p, mpq_class &scale) {   // p = scale * factor
  auto v = sorted(p);
  scale = v.back().second;
  for (auto &t : p) t.second /= scale;
  std::string k = pKey(p);
  auto it = factorByKey.find(k);
  if (it != factorByKey.end()) return it->second;
  factors.push_back(p);
  return factorByKey[k] = factors.size() - 1;
}
typedef std::map<int, int> Den;
struct RF { Poly n; Den d; };
static Poly pPow(const Poly &p, int e) { Poly r = pConst(1); for (int i = 0; i < e; i++) r = pMul(r, p); return r; }
static void divideOut(RF &r);
static RF rfAdd(const RF &a, const RF &b, int sgn) {
  RF r;
  if (a.d == b.d) { r.n = pAdd(a.n, b.n, sgn); if (!r.n.empty()) { r.d = a.d; if (r.d.size()) divideOut(r); } return r; }
  if (a.n.empty()) { r = b; if (sgn < 0) for (auto &t : r.n) t.second = -t.second; return r; }
  if (b.n.empty()) return a;
  Poly x = a.n, y = b.n;
  r.d = a.d;
  for (auto &f : b.d) { int &e = r.d[f.first]; e = std::max(e, f.second); }
  for (auto &f : r.d) {
    auto ia = a.d.find(f.first), ib = b.d.find(f.first);
    int ea = ia == a.d.end() ? 0 : ia->second, eb = ib == b.d.end() ? 0 : ib->second;
    if (f.second > ea) x = pMul(x, pPow(factors[f.first], f.second - ea));
    if (f.second > eb) y = pMul(y, pPow(factors[f.first], f.second - eb));
  }
  r.n = pAdd(x, y, sgn);
  if (r.n.empty()) r.d.clear(); else divideOut(r);
  return r;
}
// exact division of a by b (lexicographic order); false when b does not divide a
struct LexLess { bool operator()(const Mono &a, const Mono &b) const {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { uint32_t x = a[i] >> 8, y = b[i] >> 8; if (x == y) return (a[i] & 255) < (b[i] & 255); return x > y; }
  return a.size() < b.size(); } };
static bool monoDiv(const Mono &a, const Mono &b, Mono &q) {
  q.clear(); size_t i = 0;
  for (size_t j = 0; j < b.size(); j++) {
    while (i < a.size() && (a[i] >> 8) < (b[j] >> 8)) q.push_back(a[i++]);
    if (i == a.size() || (a[i] >> 8) != (b[j] >> 8) || (a[i] & 255) < (b[j] & 255)) return false;
    if ((a[i] & 255) > (b[j] & 255)) q.push_back(a[i] - (b[j] & 255));
    i++;
  }
  while (i < a.size()) q.push_back(a[i++]);
  return true;
}
static bool polyDiv(const Poly &a, const Poly &b, Poly &q) {
  if (b.size() < 2 || a.size() < b.size() || a.size() > 20000 || b.size() > 2000) return false;
  std::map<Mono, mpq_class, LexLess> rem(a.begin(), a.end());
  const Mono *lm = nullptr; LexLess ll; for (auto &t : b) if (!lm || ll(*lm, t.first)) lm = &t.first;
  const mpq_class lc = b.at(*lm); q.clear();
  Mono m; size_t steps = 0;
  while (!rem.empty()) {
    auto top = std::prev(rem.end());
    if (!monoDiv(top->first, *lm, m) || ++steps > 4000) return false;
    mpq_class c = top->second / lc; q[m] = c;
    for (auto &t : b) { Mono k = mMul(m, t.first); mpq_class v = c * t.second; auto it = rem.find(k); if (it == rem.end()) rem.emplace(k, -v); else { it->second -= v; if (it->second == 0) rem.erase(it); } }
  }
  return true;
}
static void divideOut(RF &r) {     // s^2 in a denominator against its radicand in the numerator
  for (auto it = r.d.begin(); it != r.d.end();) {
    bool gone = false;
    if (it->second >= 2 && factors[it->first].size() == 1) {
      const Mono &fm = factors[it->first].begin()->first;
      if (fm.size() == 1 && (fm[0] & 255) == 1 && atoms[fm[0] >> 8].kind == 1) { Poly q; while (it->second >= 2 && polyDiv(r.n, atoms[fm[0] >> 8].sq, q)) { r.n = q; it->second -= 2; } if (!it->second) { it = r.d.erase(it); gone = true; } }
    }
    if (!gone) ++it;
  }
}
static void cancel(RF &r) {   // cancel denominator factors that are proportional to the numerator
  if (r.n.empty()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    bool did = false;
    if (factors[it->first].size() == r.n.size() && r.n.size() > 1) {
      mpq_class sc; Poly q = r.n; auto v = sorted(q); sc = v.back().second; for (auto &t : q) t.second /= sc;
      if (q == factors[it->first]) { r.n = pConst(sc); if (--it->second == 0) it = r.d.erase(it); did = true; break; }
    }
    // single atoms
    if (!did && factors[it->first].size() == 1) {
      const Mono &fm = factors[it->first].begin()->first;
      if (fm.size() == 1 && (fm[0] & 255) == 1) {
        uint32_t at = fm[0] >> 8; int mn = 255;
        for (auto &t : r.n) { int e = 0; for (auto x : t.first) if ((x >> 8) == at) e = x & 255; mn = std::min(mn, e); if (!mn) break; }
        int k = std::min(mn, it->second);
        if (k > 0) {
          Poly q;
          for (auto &t : r.n) { Mono m; for (auto x : t.first) { if ((x >> 8) == at) { if ((int)(x & 255) > k) m.push_back(x - k); } else m.push_back(x); } q[m] = t.second; }
          r.n = q; it->second -= k; if (!it->second) { it = r.d.erase(it); continue; }
        }
        if (it->second >= 2 && atoms[at].kind == 1) { Poly q; while (it->second >= 2 && polyDiv(r.n, atoms[at].sq, q)) { r.n = q; it->second -= 2; } if (!it->second) { it = r.d.erase(it); continue; } }
      }
    }
    ++it;
  }
}
static RF rfMul(const RF &a, const RF &b) {
  RF r; r.n = pMul(a.n, b.n);
  if (r.n.empty()) return r;
  r.d = a.d; for (auto &f : b.d) r.d[f.first] += f.second;
  if (r.d.size()) cancel(r);
  return r;
}
static RF rfInv(const RF &a) {
  RF r; mpq_class sc;
  Poly den = pConst(1);
  for (auto &f : a.d) den = pMul(den, pPow(factors[f.first], f.second));
  if (pIsConst(a.n)) { r.n = den; for (auto &t : r.n) t.second /= pConstVal(a.n); return r; }
  if (a.n.size() == 1) {
    r.n = den; for (auto &t : r.n) t.second /= a.n.begin()->second;
    for (auto x : a.n.begin()->first) { mpq_class s; r.d[internFactor(pAtom(x >> 8), s)] += x & 255; }
  } else {
    int f = internFactor(a.n, sc);
    r.n = den; for (auto &t : r.n) t.second /= sc;
    r.d[f] = 1;
  }
  cancel(r);
  return r;
}
static RF *rfOf(S e);
static mpq_class mpqOf(double d) { return mpq_class(d); }
static bool ratSqrt(const mpq_class &c, mpq_class &out) {
  if (c < 0) return false;
  mpz_class n = c.get_num(), d = c.get_den();
  if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) { out = mpq_class(sqrt(n), sqrt(d)); return true; }
  return false;
}
static int newAtom(const std::string &key, int kind) {
  auto it = atomByKey.find(key);
  if (it != atomByKey.end()) return it->second;
  Atom a; a.name = "t" + std::to_string(atoms.size()); a.kind = kind;
  atoms.push_back(a);
  return atomByKey[key] = atoms.size() - 1;
}
static std::vector<std::pair<int,int>> factorSigns;  // filled by rfOf for sqrt: factor, assumed sign
static f128 evalPoly(const Poly &p, const std::function<f128(int)> &val) {
  f128 s = 0;
  for (auto &t : p) { f128 m = t.second.get_d(); { mpf_class ff(t.second, 128); m = 0; double h = ff.get_d(); m = h; mpf_class rest = ff - h; m += rest.get_d(); }
    for (auto x : t.first) for (unsigned k = 0; k < (x & 255); k++) m *= val(x >> 8); s += m; }
  return s;
}
static f128 atomVal(int a) { return atoms[a].node->r; }
static std::map<int, std::vector<Poly>> squareKnown;  // (unused)
static RF *rfOf(S e) {
  if (e->rf) return e->rf;
  // children first, iteratively deep graphs are fine with recursion here (bounded by path length)
  RF r;
  switch (e->op) {
  case CST: r.n = pConst(mpqOf(asD(e))); break;
  case VAR: {
    VarInfo &vi = vars[e->imm];
    int a = newAtom("v" + std::to_string(e->imm), 0);
    atoms[a].node = e; atoms[a].var = e; atoms[a].lo = vi.lo; atoms[a].hi = vi.hi;
    if (vi.quat >= 0 && vi.qidx == 0 && !atoms[a].hasRule) {
      Poly sq = pConst(1);
      std::vector<int> deps;
      for (int k = 1; k < 4; k++) { S o = vars[e->imm + k].e; RF *ro = rfOf(o); sq = pAdd(sq, pMul(ro->n, ro->n), -1); deps.push_back(ro->n.begin()->first[0] >> 8); }
      atoms[a].sq = sq; atoms[a].hasRule = true; atoms[a].kind = 3; anyRule = true; atoms[a].deps = deps;
    }
    r.n = pAtom(a); break; }
  case RADD: r = rfAdd(*rfOf(e->a), *rfOf(e->b), 1); break;
  case RSUB: r = rfAdd(*rfOf(e->a), *rfOf(e->b), -1); break;
  case RMUL: r = rfMul(*rfOf(e->a), *rfOf(e->b)); break;
  case RDIV: { RF *d = rfOf(e->b); if (d->n.empty()) { r.n = pConst(0); note("division by an expression that is identically zero"); break; } RF inv = rfInv(*d); r = rfMul(*rfOf(e->a), inv); break; }
  case RNEG: r = *rfOf(e->a); for (auto &t : r.n) t.second = -t.second; break;
  case REXT: case RTRUNC: r = *rfOf(e->a); break;
  case RSQRT: {
    RF x = *rfOf(e->a);
    if (x.n.empty()) break;
    // move odd denominators up: sqrt(n/d) = sqrt(n*d_odd)/|d'|
    RF out; Poly n = x.n; bool neg = false; 
    for (auto &f : x.d) {
      if (f.second & 1) n = pMul(n, factors[f.first]);
      int ex = (f.second + 1) / 2;
      out.d[f.first] += ex;
      f128 fv = evalPoly(factors[f.first], atomVal);
      factorSigns.push_back({f.first, fv > 0 ? 1 : -1});
      if (fv < 0 && (ex & 1)) neg = !neg;
    }
    if (pIsConst(n)) {
      mpq_class q;
      if (ratSqrt(pConstVal(n), q)) { out.n = pConst(neg ? mpq_class(-q) : q); r = out; cancel(r); break; }
      // irrational constant: keep as a rational constant close to it (documented)
      f128 sv = sqrtq((f128)pConstVal(n).get_d()); mpq_class c1((double)sv); mpq_class c2((double)(sv - (f128)(double)sv)); c1 += c2;
      out.n = pConst(neg ? mpq_class(-c1) : c1); r = out; cancel(r); break;
    }
    auto v = sorted(n); mpq_class c = abs(v.back().second), q;
    Poly arg = n;
    mpq_class sc = 1;
    if (ratSqrt(c, q)) { for (auto &t : arg) t.second /= c; sc = q; }
    else { // scale to keep one canonical atom: sqrt(c*p) with p primitive -> fold rational square part only
      for (auto &t : arg) t.second /= c; f128 sv = sqrtq((f128)c.get_d()); mpf_class cf(c, 256); mpf_class sq = sqrt(cf); sc = mpq_class(sq); (void)sv; }
    // perfect square monomial of nonnegative unknowns, e.g. sqrt(x^2) with x >= 0
    if (arg.size() == 1) {
      bool sqr = true; Mono root;
      for (auto x2 : arg.begin()->first) { if ((x2 & 1) || !(atoms[x2 >> 8].lo >= 0) || atoms[x2 >> 8].hasRule && atoms[x2 >> 8].kind != 1) sqr = false; root.push_back((x2 & ~255u) | ((x2 & 255) / 2)); }
      if (sqr) { out.n.clear(); out.n[root] = neg ? mpq_class(-sc) : sc; cancel(out); r = out; break; }
    }
    int a = newAtom("s" + pKey(arg), 1);
    if (!atoms[a].hasRule) {
      atoms[a].sq = arg; atoms[a].hasRule = true; anyRule = true; atoms[a].lo = 0;
      S nd = allocExpr(); memset(nd, 0, sizeof *nd); nd->op = CST; nd->sort = SR; nd->w = 64; 
      nd->r = sqrtq(evalPoly(arg, atomVal)); atoms[a].node = nd;
      std::set<int> ds; for (auto &t : arg) for (auto x2 : t.first) ds.insert(x2 >> 8);
      atoms[a].deps.assign(ds.begin(), ds.end());
    }
    out.n = pAtom(a); for (auto &t : out.n) t.second *= (neg ? mpq_class(-sc) : sc);
    cancel(out);
    r = out; break; }
  default: {
    // uninterpreted: same function of the same normalised arguments is the same atom
    std::string key = "u" + std::to_string(e->op) + "_" + std::to_string(e->imm);
    std::set<int> ds;
    for (S x : {e->a, e->b}) if (x) {
      if (x->sort == SR) { RF *rx = rfOf(x); key += "(" + pKey(rx->n) + "/"; for (auto &f : rx->d) key += std::to_string(f.first) + "^" + std::to_string(f.second) + " "; key += ")";
        for (auto &t : rx->n) for (auto x2 : t.first) ds.insert(x2 >> 8); for (auto &f : rx->d) for (auto &t : factors[f.first]) for (auto x2 : t.first) ds.insert(x2 >> 8); }
      else key += "#" + std::to_string(x->id);
    }
    int a = newAtom(key, 2);
    atoms[a].node = e; atoms[a].deps.assign(ds.begin(), ds.end());
    if (e->op == RUF) {
      const std::string &n = ufNames[e->imm];
      if (n == "sin" || n == "cos") { atoms[a].lo = -1; atoms[a].hi = 1; }
      if (n == "exp") atoms[a].lo = 0;
      if (n == "acos") { atoms[a].lo = 0; atoms[a].hi = 3.15; }
    }
    r.n = pAtom(a); }
  }
  e->rf = new RF(std::move(r));
  return e->rf;
}
// polynomial whose sign is the sign of a-b
static Poly signPoly(S a, S b) {
  RF d = rfAdd(*rfOf(a), *rfOf(b), -1);
  Poly p = d.n;
  for (auto &f : d.d) if (f.second & 1) {
    // skip factors known to be positive
    if (factors[f.first].size() == 1) { auto &m = factors[f.first].begin()->first; if (m.size() == 1 && atoms[m[0] >> 8].kind == 1) continue; }
    p = pMul(p, factors[f.first]);
  }
  return p;
}

// Sum-of-squares certificate: p >= 0 everywhere (strict: p > 0). Square roots count as squares of
// a nonnegative unknown. Gram matrix over the roots of the even monomials, exact LDL^T.
static bool sosTry(const Poly &p, bool strict, bool signs) {
  std::map<Mono, mpq_class> q;
  for (auto &t : p) { Mono m; for (auto x : t.first) { unsigned e = x & 255; if (atoms[x >> 8].kind == 1 || (signs && atoms[x >> 8].kind == 0 && atoms[x >> 8].lo >= 0)) e *= 2; if (e > 255) return false; m.push_back((x & ~255u) | e); } q[m] = t.second; }
  std::vector<Mono> basis; std::vector<mpq_class> diag; std::map<Mono, int> idx;
  auto isSq = [](const Mono &m) { for (auto x : m) if (x & 1) return false; return true; };
  auto root = [](const Mono &m) { Mono r; for (auto x : m) r.push_back((x & ~255u) | ((x & 255) / 2)); return r; };
  for (auto &t : q) if (isSq(t.first) && t.second > 0) { Mono b = root(t.first); idx[b] = basis.size(); basis.push_back(b); diag.push_back(t.second); }
  int n = basis.size(); if (!n || n > 80) return false;
  std::vector<std::vector<mpq_class>> G(n, std::vector<mpq_class>(n));
  for (int i = 0; i < n; i++) G[i][i] = diag[i];
  for (auto &t : q) if (!isSq(t.first) || t.second < 0) {
    std::vector<std::pair<int, int>> pr;
    for (int i = 0; i < n; i++) { Mono m; if (!monoDiv(t.first, basis[i], m)) continue; auto it = idx.find(m); if (it != idx.end() && it->second > i) pr.push_back({i, it->second}); }
    if (pr.empty()) return false;
    mpq_class each = t.second / (2 * (int)pr.size());
    for (auto &x : pr) { G[x.first][x.second] += each; G[x.second][x.first] += each; }
  }
  if (strict) { auto it = idx.find(Mono{}); if (it == idx.end()) return false; G[it->second][it->second] *= mpq_class(999999, 1000000); }
  for (int k = 0; k < n; k++) {
    if (G[k][k] < 0) return false;
    if (G[k][k] == 0) { for (int j = k + 1; j < n; j++) if (G[k][j] != 0) return false; continue; }
    for (int i = k + 1; i < n; i++) if (G[i][k] != 0) { mpq_class f = G[i][k] / G[k][k]; for (int j = k + 1; j < n; j++) if (G[k][j] != 0) G[i][j] -= f * G[k][j]; }
  }
  return true;
}
static bool sosPositive(const Poly &p, bool strict) {
  if (p.size() > 400) return false;
  return sosTry(p, strict, true) || sosTry(p, strict, false);
}
static bool sosRefutes(S c, bool dir) {      // the condition c == dir is impossible whatever the inputs
  if (c->op == BNOT) { c = c->a; dir = !dir; }
  if (c->op != FEQ && c->op != FLT && c->op != FLE) return false;
  try {
    Poly p = signPoly(c->a, c->b), m; for (auto &t : p) m[t.first] = -t.second;
    if (c->op == FEQ) return dir && (sosPositive(p, true) || sosPositive(m, true));
    if (dir) return sosPositive(p, c->op == FLE);
    return sosPositive(m, c->op == FLT);
  } catch (TooBig &) { return false; }
}

// ---------------------------------------------------------------------------------
// z3
// ---------------------------------------------------------------------------------
static z3::context *zc;
static std::unordered_map<S, z3::expr> *zmemo;
static std::map<int, z3::expr> *zatom;
static z3::sort zFP(unsigned w) { return w == 32 ? zc->fpa_sort<32>() : zc->fpa_sort<64>(); }
static std::string mpqStr(const mpq_class &q) { return q.get_str(); }
static z3::expr zPoly(const Poly &p) {
  z3::expr_vector sum(*zc);
  for (auto &t : sorted(p)) {
    z3::expr_vector pr(*zc);
    if (t.second != 1 || t.first.empty()) pr.push_back(zc->real_val(mpqStr(t.second).c_str()));
    for (auto x : t.first) {
      int at = x >> 8;
      auto it = zatom->find(at);
      if (it == zatom->end()) it = zatom->emplace(at, zc->real_const(atoms[at].name.c_str())).first;
      for (unsigned k = 0; k < (x & 255); k++) pr.push_back(it->second);
    }
    Z3_ast a[64]; unsigned n = std::min<unsigned>(pr.size(), 64);
    for (unsigned i = 0; i < n; i++) a[i] = pr[i];
    sum.push_back(n == 1 ? pr[0] : z3::expr(*zc, Z3_mk_mul(*zc, n, a)));
  }
  if (sum.empty()) return zc->real_val(0);
  std::vector<Z3_ast> a; for (unsigned i = 0; i < sum.size(); i++) a.push_back(sum[i]);
  return a.size() == 1 ? sum[0] : z3::expr(*zc, Z3_mk_add(*zc, a.size(), a.data()));
}
struct CV { std::set<int> atoms; std::set<int> bvars; };    // variables of a condition
static z3::expr zE(S e);
static z3::expr zVar(S e) {
  VarInfo &vi = vars[e->imm];
  if (vi.sort == SI) return zc->bv_const(vi.name.c_str(), vi.w);
  if (REAL) return zPoly(rfOf(e)->n);
  return zc->constant(vi.name.c_str(), zFP(vi.w));
}
static z3::expr zE(S e) {
  auto it = zmemo->find(e);
  if (it != zmemo->end()) return it->second;
  auto A = [&] { return zE(e->a); }; auto B = [&] { return zE(e->b); };
  auto mkx = [&](Z3_ast a) { zc->check_error(); return z3::expr(*zc, a); };
  Z3_context c = *zc;
  auto rm = [&] { return mkx(Z3_mk_fpa_rne(c)); };
  z3::expr r(*zc);
  switch (e->op) {
  case CST: if (e->sort == SI) r = zc->bv_val((uint64_t)e->v, e->w); else if (e->sort == SB) r = zc->bool_val(e->v != 0);
    else if (REAL) r = zc->real_val(mpqStr(mpqOf(asD(e))).c_str()); else r = mkx(e->w == 32 ? Z3_mk_fpa_numeral_float(c, (float)asD(e), zFP(32)) : Z3_mk_fpa_numeral_double(c, asD(e), zFP(64))); break;
  case VAR: r = zVar(e); break;
  case IADD: r = A() + B(); break; case ISUB: r = A() - B(); break; case IMUL: r = A() * B(); break;
  case IUDIV: r = z3::udiv(A(), B()); break; case ISDIV: r = A() / B(); break; case IUREM: r = z3::urem(A(), B()); break; case ISREM: r = z3::srem(A(), B()); break;
  case ISHL: r = z3::shl(A(), B()); break; case ILSHR: r = z3::lshr(A(), B()); break; case IASHR: r = z3::ashr(A(), B()); break;
  case IAND: r = A() & B(); break; case IOR: r = A() | B(); break; case IXOR: r = A() ^ B(); break;
  case IZEXT: r = z3::zext(A(), e->w - e->a->w); break; case ISEXT: r = z3::sext(A(), e->w - e->a->w); break;
  case ITRUNC: r = A().extract(e->w - 1, 0); break; case ICONCAT: r = z3::concat(A(), B()); break; case IEXTRACT: r = A().extract(e->imm + e->w - 1, e->imm); break;
  case IITE: case BITE: r = z3::ite(A(), B(), zE(e->c)); break;
  case B2I: r = z3::ite(A(), zc->bv_val(1, e->w), zc->bv_val(0, e->w)); break;
  case I2B: r = A().extract(0, 0) == zc->bv_val(1, 1); break;
  case BITS: if (REAL) r = zc->bv_const(("bits" + std::to_string(e->id)).c_str(), e->w); else r = mkx(Z3_mk_fpa_to_ieee_bv(c, A())); break;
  case R2I: if (REAL) r = zc->bv_const(("r2i" + std::to_string(e->id)).c_str(), e->w); else r = mkx(Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), A(), e->w)); break;
  case R2U: if (REAL) r = zc->bv_const(("r2i" + std::to_string(e->id)).c_str(), e->w); else r = mkx(Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), A(), e->w)); break;
  case BNOT: r = !A(); break; case BAND: r = A() && B(); break; case BOR: r = A() || B(); break; case BXOR: r = A() != B(); break;
  case EQ: r = A() == B(); break; case ULT: r = z3::ult(A(), B()); break; case ULE: r = z3::ule(A(), B()); break; case SLT: r = A() < B(); break; case SLE: r = A() <= B(); break;
  case FEQ: case FLT: case FLE:
    if (REAL) { Poly p = signPoly(e->a, e->b); if (pIsConst(p)) { mpq_class v = pConstVal(p); r = zc->bool_val(e->op == FEQ ? v == 0 : e->op == FLT ? v < 0 : v <= 0); }
      else { z3::expr x = zPoly(p), z = zc->real_val(0); r = e->op == FEQ ? x == z : e->op == FLT ? x < z : x <= z; } }
    else r = mkx(e->op == FEQ ? Z3_mk_fpa_eq(c, A(), B()) : e->op == FLT ? Z3_mk_fpa_lt(c, A(), B()) : Z3_mk_fpa_leq(c, A(), B()));
    break;
  case FUNO: if (REAL) r = zc->bool_val(false); else r = mkx(Z3_mk_fpa_is_nan(c, A())) || mkx(Z3_mk_fpa_is_nan(c, B())); break;
  case RADD: r = mkx(Z3_mk_fpa_add(c, rm(), A(), B())); break; case RSUB: r = mkx(Z3_mk_fpa_sub(c, rm(), A(), B())); break;
  case RMUL: r = mkx(Z3_mk_fpa_mul(c, rm(), A(), B())); break; case RDIV: r = mkx(Z3_mk_fpa_div(c, rm(), A(), B())); break;
  case RNEG: r = mkx(Z3_mk_fpa_neg(c, A())); break; case RABS: r = mkx(Z3_mk_fpa_abs(c, A())); break; case RSQRT: r = mkx(Z3_mk_fpa_sqrt(c, rm(), A())); break;
  case FROMBITS: r = mkx(Z3_mk_fpa_to_fp_bv(c, A(), zFP(e->w))); break;
  case S2R: r = mkx(Z3_mk_fpa_to_fp_signed(c, rm(), A(), zFP(e->w))); break; case U2R: r = mkx(Z3_mk_fpa_to_fp_unsigned(c, rm(), A(), zFP(e->w))); break;
  case REXT: case RTRUNC: r = mkx(Z3_mk_fpa_to_fp_float(c, rm(), A(), zFP(e->w))); break;
  case RUF: { z3::sort s = zFP(e->w); z3::func_decl f = z3::function((ufNames[e->imm] + std::to_string(e->w)).c_str(), s, s, s); r = f(A(), e->b ? B() : A()); break; }
  default: throw std::runtime_error("zE");
  }
  zmemo->emplace(e, r);
  return r;
}
// variables of a condition, closed over atom dependencies
static std::unordered_map<S, CV> cvMemo;
static void atomsOfPoly(const Poly &p, std::set<int> &out) {
  std::vector<int> st;
  for (auto &t : p) for (auto x : t.first) if (out.insert(x >> 8).second) st.push_back(x >> 8);
  while (!st.empty()) { int a = st.back(); st.pop_back(); for (int d : atoms[a].deps) if (out.insert(d).second) st.push_back(d); }
}
static const CV &cvOf(S e) {
  auto it = cvMemo.find(e);
  if (it != cvMemo.end()) return it->second;
  CV cv;
  std::set<S> seen; std::vector<S> st{e};
  while (!st.empty()) {
    S x = st.back(); st.pop_back();
    if (!x || !seen.insert(x).second) continue;
    if (x->op == VAR) {
      if (x->sort == SI || !REAL) cv.bvars.insert(x->imm);
      continue;
    }
    if (REAL && (x->op == FEQ || x->op == FLT || x->op == FLE)) {
      try { Poly p = signPoly(x->a, x->b); atomsOfPoly(p, cv.atoms); } catch (TooBig &) { note("condition too large to normalise"); }
      continue;
    }
    if (REAL && x->sort == SR) { try { RF *r = rfOf(x); atomsOfPoly(r->n, cv.atoms); } catch (TooBig &) {} continue; }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->c);
  }
  return cvMemo[e] = cv;
}
static int quatOfAtom(int a) { S v = atoms[a].var; if (!v) return -1; VarInfo &vi = vars[v->imm]; return vi.quat; }
struct Query { std::vector<std::pair<S, bool>> conds; std::vector<z3::expr> extra; };

// model values
typedef std::map<std::string, std::string> MV;
static std::string dstr(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static MV currentModel() {
  MV m;
  for (auto &v : vars) { if (v.sort == SI) m[v.name] = std::to_string(v.e->v); else m[v.name] = dstr((double)v.e->r); }
  return m;
}
static bool setFromZ3(z3::model &m, const std::set<int> &at, const std::set<int> &bv, MV &out) {
  std::set<int> quats;
  for (int a : at) {
    S v = atoms[a].var;
    if (!v) continue;
    VarInfo &vi = vars[v->imm];
    auto it = zatom->find(a);
    if (it == zatom->end()) continue;
    z3::expr x = m.eval(it->second, false);
    double d;
    if (x.is_numeral()) { std::string num = x.numerator().get_decimal_string(0), den = x.denominator().get_decimal_string(0); mpq_class q(num + "/" + den); q.canonicalize(); d = q.get_d(); }
    else if (x.is_algebraic()) d = strtod(x.get_decimal_string(25).c_str(), nullptr);
    else continue;
    if (vi.w == 32) d = (float)d;
    out[vi.name] = dstr(d);
    if (vi.quat >= 0) quats.insert(vi.quat);
  }
  for (int b : bv) {
    VarInfo &vi = vars[b];
    z3::expr x = m.eval(zVar(vi.e), true);
    if (vi.sort == SI) { uint64_t u = 0; if (Z3_get_numeral_uint64(*zc, x, &u)) out[vi.name] = std::to_string(u); }
    else {
      z3::expr b2 = m.eval(z3::expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, x)), true); uint64_t u = 0;
      Z3_get_numeral_uint64(*zc, b2, &u);
      double d; if (vi.w == 32) { uint32_t w = u; float f; memcpy(&f, &w, 4); d = f; } else memcpy(&d, &u, 8);
      out[vi.name] = dstr(d);
    }
  }
  return true;
}
// evaluate a condition under a different model -----------------------------------------
static uint32_t evalGen = 0;
static std::vector<f128> altR; static std::vector<uint64_t> altV;
static void evalAlt(S root) {
  std::vector<std::pair<S, int>> st{{root, 0}};
  while (!st.empty()) {
    auto &[e, ph] = st.back();
    if (e->mark == evalGen) { st.pop_back(); continue; }
    if (ph == 0) { ph = 1; S ee = e; for (S x : {ee->a, ee->b, ee->c}) if (x && x->mark != evalGen) st.push_back({x, 0}); continue; }
    S x = e; st.pop_back();
    x->er = x->r; x->ev = x->v;
    if (x->op == VAR) { x->er = altR[x->imm]; x->ev = altV[x->imm]; }
    else if (x->op == CST) {}
    else { f128 r = 0; uint64_t v = 0; evalNode(x, r, v); x->er = r; x->ev = v; }
    x->mark = evalGen;
  }
}
static void loadAlt(const MV &m) {
  evalGen++;
  altR.assign(vars.size(), 0); altV.assign(vars.size(), 0);
  for (size_t i = 0; i < vars.size(); i++) {
    auto it = m.find(vars[i].name);
    if (vars[i].sort == SI) altV[i] = it == m.end() ? vars[i].e->v : strtoull(it->second.c_str(), nullptr, 10);
    else altR[i] = it == m.end() ? vars[i].e->r : (f128)strtod(it->second.c_str(), nullptr);
  }
  for (size_t i = 0; i < vars.size(); i++) if (vars[i].quat >= 0 && vars[i].qidx == 0) {
    f128 n = 0; for (int k = 0; k < 4; k++) n += altR[i + k] * altR[i + k];
    n = sqrtq(n); if (n > 0) for (int k = 0; k < 4; k++) altR[i + k] /= n; else altR[i] = 1;
  }
}
static std::mt19937_64 rng;
static double rnd01() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static void randomVar(const VarInfo &vi, MV &m) {
  if (vi.sort == SI) { uint64_t span = vi.uhi - vi.ulo; m[vi.name] = std::to_string(vi.ulo + (span == ~0ull ? rng() : rng() % (span + 1))); return; }
  if (vi.quat >= 0) { m[vi.name] = dstr((float)(rnd01() * 2 - 1)); return; }
  double lo = vi.lo, hi = vi.hi, d = lo + (hi - lo) * rnd01();
  double step = std::ldexp(1.0, (int)std::floor(std::log2(std::max(hi - lo, 1e-30))) - 8);
  double g = std::floor(d / step) * step; if (g >= lo && g <= hi) d = g;
  if (vi.w == 32) d = (float)d;
  m[vi.name] = dstr(d);
}
enum Res { SAT, UNSAT, UNKNOWN };
// condition built of linear comparisons over plain variables
static std::unordered_map<S, bool> linMemo;
static bool linearCond(S e) {
  auto it = linMemo.find(e);
  if (it != linMemo.end()) return it->second;
  bool r = false;
  switch (e->op) {
  case CST: r = true; break;
  case BNOT: r = linearCond(e->a); break;
  case BAND: case BOR: case BXOR: r = linearCond(e->a) && linearCond(e->b); break;
  case FEQ: case FLT: case FLE: {
    r = true;
    Poly p = signPoly(e->a, e->b);
    for (auto &t : p) { if (t.first.size() > 1 || (t.first.size() == 1 && (t.first[0] & 255) > 1)) { r = false; break; }
      if (t.first.size() == 1) { Atom &a = atoms[t.first[0] >> 8]; if (!a.var || a.hasRule || vars[a.var->imm].quat >= 0) { r = false; break; } } }
    break; }
  default: break;
  }
  return linMemo[e] = r;
}
static z3::solver *linSolver = nullptr;
// Linear weakening of a query: every product of unknowns is an unknown of its own, bounded by the
// intervals of its factors; whatever is not a real comparison is an arbitrary truth value. If even
// this has no solution the query has none.
struct LinAbs {
  std::map<Mono, z3::expr> mono; std::map<S, z3::expr> bools; z3::expr_vector side; int n = 0;
  LinAbs() : side(*zc) {}
  z3::expr num(const mpq_class &q) { return zc->real_val(mpqStr(q).c_str()); }
  static void range(int a, double &lo, double &hi) { Atom &t = atoms[a]; lo = t.lo; hi = t.hi; if (t.kind == 3) { lo = -1; hi = 1; } if (lo < -1e300) lo = -INFINITY; if (hi > 1e300) hi = INFINITY; }
  z3::expr term(const Mono &m) {
    auto it = mono.find(m); if (it != mono.end()) return it->second;
    z3::expr x = zc->real_const(("m" + std::to_string(n++)).c_str()); mono.emplace(m, x);
    mpq_class lo = 1, hi = 1; bool bl = true, bh = true;          // interval product
    bool allEven = true, allNonneg = true;
    for (auto f : m) { double l, h; range(f >> 8, l, h); unsigned e = f & 255; if (e & 1) allEven = false; if ((e & 1) && !(l >= 0)) allNonneg = false;
      if (!std::isfinite(l) || !std::isfinite(h)) { bl = bh = false; continue; }
      mpq_class a = mpqOf(l), b = mpqOf(h), pl = 1, ph = 1;
      for (unsigned k = 0; k < e; k++) { mpq_class c[4] = {pl * a, pl * b, ph * a, ph * b}; pl = *std::min_element(c, c + 4); ph = *std::max_element(c, c + 4); }
      if (!(e & 1) && pl < 0) pl = 0;
      mpq_class c[4] = {lo * pl, lo * ph, hi * pl, hi * ph}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
    if (bl) side.push_back(x >= num(lo)); else if (allEven || allNonneg) side.push_back(x >= 0);
    if (bh) side.push_back(x <= num(hi));
    return x;
  }
  z3::expr poly(const Poly &p) {
    z3::expr r = zc->real_val(0); std::vector<Z3_ast> a; std::vector<z3::expr> keep;
    for (auto &t : sorted(p)) { z3::expr e = t.first.empty() ? num(t.second) : t.second == 1 ? term(t.first) : num(t.second) * term(t.first); keep.push_back(e); }
    for (auto &e : keep) a.push_back(e);
    return a.empty() ? r : a.size() == 1 ? keep[0] : z3::expr(*zc, Z3_mk_add(*zc, a.size(), a.data()));
  }
  z3::expr cond(S e) {
    switch (e->op) {
    case CST: return zc->bool_val(e->v != 0);
    case BNOT: return !cond(e->a);
    case BAND: return cond(e->a) && cond(e->b);
    case BOR: return cond(e->a) || cond(e->b);
    case BXOR: return cond(e->a) != cond(e->b);
    case FEQ: case FLT: case FLE: {
      Poly p = signPoly(e->a, e->b); if (p.size() > 600) break;
      z3::expr x = poly(p), z = zc->real_val(0); return e->op == FEQ ? x == z : e->op == FLT ? x < z : x <= z; }
    default: break;
    }
    auto it = bools.find(e); if (it == bools.end()) it = bools.emplace(e, zc->bool_const(("b" + std::to_string(n++)).c_str())).first;
    return it->second;
  }
  // unit quaternions: squares of the components, and the products they bound
  void quats() {
    std::set<int> base;
    for (auto &m : mono) for (auto f : m.first) { S v = atoms[f >> 8].var; if (v && vars[v->imm].quat >= 0) base.insert(v->imm - vars[v->imm].qidx); }
    for (int b : base) {
      Poly q[4]; for (int k = 0; k < 4; k++) q[k] = rfOf(vars[b + k].e)->n;
      for (int i = 0; i < 4; i++) { side.push_back(poly(pMul(q[i], q[i])) >= 0); for (int j = 0; j < i; j++) { Poly s2 = pAdd(pMul(q[i], q[i]), pMul(q[j], q[j]), 1), x = pMul(q[i], q[j]); for (auto &t : x) t.second *= 2; side.push_back(poly(pAdd(s2, x, 1)) >= 0); side.push_back(poly(pAdd(s2, x, -1)) >= 0); } }
    }
  }
};
static z3::solver *absSolver = nullptr;
static bool linearlyImpossible(const std::vector<std::pair<S, bool>> &all, const std::vector<char> &in) {
  LinAbs L; z3::expr_vector cs(*zc);
  for (size_t i = 0; i < all.size(); i++) if (in[i]) { z3::expr x = L.cond(all[i].first); cs.push_back(all[i].second ? x : !x); }
  L.quats();
  if (!absSolver) absSolver = new z3::solver(*zc, "QF_LRA");
  z3::params p(*zc); p.set("timeout", 1000u); absSolver->set(p);
  absSolver->push();
  for (unsigned i = 0; i < cs.size(); i++) absSolver->add(cs[i]);
  for (unsigned i = 0; i < L.side.size(); i++) absSolver->add(L.side[i]);
  z3::check_result cr = absSolver->check();
  absSolver->pop();
  return cr == z3::unsat;
}
static volatile sig_atomic_t softStop = 0;
static bool noHard = false;             // out of time: no more queries that may take long
static MV parseMV(const std::string &s);
static std::string mvText(const MV &m);
// z3 does not reliably obey its time limit on nonlinear arithmetic: such a query runs in a process of its own
static Res hardCheck(z3::solver &s, int ms, const std::function<void(z3::model &)> &onSat, MV *out) {
  if (noHard) return UNKNOWN;
  int pf[2]; if (pipe(pf)) return UNKNOWN;
  pid_t pid = fork();
  if (pid < 0) { close(pf[0]); close(pf[1]); return UNKNOWN; }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(0); close(pf[0]);
    std::string r = "?";
    try {
      z3::check_result cr = s.check();
      if (cr == z3::unsat) r = "U"; else if (cr == z3::sat) { z3::model m = s.get_model(); onSat(m); r = "S" + (out ? mvText(*out) : std::string()); }
    } catch (z3::exception &) { r = "?"; }
    size_t o = 0; while (o < r.size()) { ssize_t k = write(pf[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  close(pf[1]);
  std::string r; double end = nowMs() + ms * 1.25 + 100; bool eof = false;
  while (!eof) {
    double left = end - nowMs(); if (left <= 0) break;
    pollfd p{pf[0], POLLIN, 0}; int k = poll(&p, 1, (int)left + 1);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) continue;
    char b[4096]; ssize_t n = read(pf[0], b, sizeof b); if (n > 0) r.append(b, n); else if (n == 0) eof = true; else if (errno != EINTR) break;
  }
  close(pf[0]); if (!eof) kill(pid, SIGKILL);
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!eof || r.empty()) return UNKNOWN;
  if (r[0] == 'U') return UNSAT;
  if (r[0] == 'S') { if (out) *out = parseMV(r.substr(1)); return SAT; }
  return UNKNOWN;
}
// solve conjunction; `must` are conditions, sliced by shared variables starting from the last one
static z3::solver *bvSolver = nullptr;
static Res solve(const std::vector<std::pair<S, bool>> &all, size_t focus, MV &out, const std::function<void(std::vector<z3::expr> &)> *extra = nullptr, const CV *extraCV = nullptr, int timeout = 0, bool trySample = true) {
  // slice
  CV need = extraCV ? *extraCV : CV{};
  std::vector<char> in(all.size(), 0);
  auto addCV = [&](const CV &c) { need.atoms.insert(c.atoms.begin(), c.atoms.end()); need.bvars.insert(c.bvars.begin(), c.bvars.end()); };
  auto closeQuat = [&] {
    std::set<int> more;
    for (int a : need.atoms) { S v = atoms[a].var; if (v && vars[v->imm].quat >= 0) { int base = v->imm - vars[v->imm].qidx; for (int k = 0; k < 4; k++) { RF *r = rfOf(vars[base + k].e); more.insert(r->n.begin()->first[0] >> 8); } } }
    need.atoms.insert(more.begin(), more.end());
  };
  if (focus < all.size()) { addCV(cvOf(all[focus].first)); in[focus] = 1; }
  if (REAL) closeQuat();
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < all.size(); i++) if (!in[i]) {
      const CV &c = cvOf(all[i].first);
      bool hit = false;
      for (int a : c.atoms) if (need.atoms.count(a)) { hit = true; break; }
      if (!hit) for (int b : c.bvars) if (need.bvars.count(b)) { hit = true; break; }
      if (hit) { in[i] = 1; addCV(c); if (REAL) closeQuat(); ch = true; }
    }
  }
  out = currentModel();
  // sampling first: a witness is a witness; only "no" needs the solver
  std::vector<int> mv;
  for (int a : need.atoms) if (atoms[a].var) mv.push_back(atoms[a].var->imm);
  for (int b : need.bvars) mv.push_back(b);
  if (trySample && REAL && !extra) {
    for (int k = 0; k < 40; k++) {
      MV m = out;
      for (int v : mv) if (k < 20 || (rng() & 1)) randomVar(vars[v], m);
      loadAlt(m);
      bool ok = true;
      for (size_t i = 0; i < all.size() && ok; i++) if (in[i]) { evalAlt(all[i].first); ok = (all[i].first->ev != 0) == all[i].second; }
      if (ok) { for (size_t i = 0; i < vars.size(); i++) if (vars[i].quat >= 0) m[vars[i].name] = dstr((float)altR[i]); out = m; nSat++; return SAT; }
    }
  }
  double t0 = nowMs();
  Res res = UNKNOWN;
  if (REAL && !extra && focus < all.size() && sosRefutes(all[focus].first, all[focus].second)) { nUnsat++; nSos++; solverMs += nowMs() - t0; return UNSAT; }
  try {
    std::vector<z3::expr> cs;
    for (size_t i = 0; i < all.size(); i++) if (in[i]) { z3::expr x = zE(all[i].first); cs.push_back(all[i].second ? x : !x); }
    if (extra) (*extra)(cs);
    // domain constraints
    std::set<int> qdone;
    for (int a : need.atoms) {
      Atom &at = atoms[a];
      auto it = zatom->find(a);
      if (it == zatom->end()) it = zatom->emplace(a, zc->real_const(at.name.c_str())).first;
      if (at.lo > -1e300) cs.push_back(it->second >= zc->real_val(mpqStr(mpqOf(at.lo)).c_str()));
      if (at.hi < 1e300) cs.push_back(it->second <= zc->real_val(mpqStr(mpqOf(at.hi)).c_str()));
      if (at.hasRule) { z3::expr sq = it->second * it->second; cs.push_back(sq == zPoly(at.sq)); }
    }
    for (int b : need.bvars) {
      VarInfo &vi = vars[b];
      if (vi.sort == SI) {
        z3::expr x = zVar(vi.e);
        if (vi.ulo > 0) cs.push_back(z3::uge(x, zc->bv_val((uint64_t)vi.ulo, vi.w)));
        if (vi.uhi < maskw(vi.w)) cs.push_back(z3::ule(x, zc->bv_val((uint64_t)vi.uhi, vi.w)));
      } else {
        S lo = cR(vi.lo, vi.w), hi = cR(vi.hi, vi.w);
        cs.push_back(z3::expr(*zc, Z3_mk_fpa_leq(*zc, zE(lo), zE(vi.e)))); cs.push_back(z3::expr(*zc, Z3_mk_fpa_leq(*zc, zE(vi.e), zE(hi))));
      }
    }
    if (need.atoms.empty() && need.bvars.empty()) for (auto &c : cs) if (c.simplify().is_false()) { nUnsat++; solverMs += nowMs() - t0; return UNSAT; }
    bool real = !need.atoms.empty(), bits = !need.bvars.empty();
    bool lin = real && !bits && !extra;
    for (size_t i = 0; i < all.size() && lin; i++) if (in[i]) lin = linearCond(all[i].first);
    if (bits && !real && REAL) {
      if (!bvSolver) bvSolver = new z3::solver(*zc, "QF_BV");
      z3::params p(*zc); p.set("timeout", (unsigned)(timeout ? timeout : OPT_TIMEOUT)); bvSolver->set(p);
      bvSolver->push();
      for (auto &c : cs) bvSolver->add(c);
      z3::check_result cr = bvSolver->check();
      if (cr == z3::unsat) { res = UNSAT; nUnsat++; }
      else if (cr == z3::sat) { z3::model m = bvSolver->get_model(); setFromZ3(m, need.atoms, need.bvars, out); res = SAT; nSat++; }
      bvSolver->pop();
      if (OPT_DUMP) fprintf(stderr, "bv query n=%zu -> %d %.0fms\n", cs.size(), (int)cr, nowMs() - t0);
      if (res != UNKNOWN) { solverMs += nowMs() - t0; return res; }
    }
    if (lin) {
      if (!linSolver) linSolver = new z3::solver(*zc, "QF_LRA");
      z3::params p(*zc); p.set("timeout", (unsigned)(timeout ? timeout : OPT_TIMEOUT)); linSolver->set(p);
      linSolver->push();
      for (auto &c : cs) linSolver->add(c);
      z3::check_result cr = linSolver->check();
      if (cr == z3::unsat) { res = UNSAT; nUnsat++; }
      else if (cr == z3::sat) { z3::model m = linSolver->get_model(); setFromZ3(m, need.atoms, need.bvars, out); res = SAT; nSat++; }
      linSolver->pop();
      if (OPT_DUMP) fprintf(stderr, "linear query n=%zu -> %d %.0fms\n", cs.size(), (int)cr, nowMs() - t0);
      if (res != UNKNOWN) { solverMs += nowMs() - t0; return res; }
    }
    if (REAL && real && !extra && !lin && linearlyImpossible(all, in)) { nUnsat++; nLin++; solverMs += nowMs() - t0; return UNSAT; }
    z3::solver s = real && !bits ? z3::tactic(*zc, "qfnra-nlsat").mk_solver() : z3::solver(*zc);
    if (real && !bits) { s = (z3::tactic(*zc, "simplify") & z3::tactic(*zc, "purify-arith") & z3::tactic(*zc, "propagate-values") & z3::tactic(*zc, "solve-eqs") & z3::tactic(*zc, "elim-uncnstr") & z3::tactic(*zc, "qfnra-nlsat")).mk_solver(); }
    else if (bits && !real && !REAL) { s = z3::tactic(*zc, "qffp").mk_solver(); }
    z3::params p(*zc); p.set("timeout", (unsigned)(timeout ? timeout : OPT_TIMEOUT)); s.set(p);
    if (OPT_DUMP > 1) for (auto &c : cs) fprintf(stderr, "  assert %s\n", c.to_string().c_str());
    for (auto &c : cs) s.add(c);
    res = hardCheck(s, timeout ? timeout : OPT_TIMEOUT, [&](z3::model &m) { setFromZ3(m, need.atoms, need.bvars, out); }, &out);
    if (OPT_DUMP) fprintf(stderr, "query n=%zu -> %d %.0fms\n", cs.size(), (int)res, nowMs() - t0);
    if (res == UNSAT) nUnsat++;
    else if (res == SAT) nSat++;
    else { nUnknown++; if (OPT_DUMP > 2) { fprintf(stderr, "UNKNOWN (%s):\n", s.reason_unknown().c_str()); for (auto &c : cs) fprintf(stderr, "  assert %s\n", c.to_string().substr(0, 400).c_str()); } }
  } catch (TooBig &) { nUnknown++; note("query too large to normalise"); }
  catch (z3::exception &e) { nUnknown++; note(std::string("z3: ") + e.msg()); }
  solverMs += nowMs() - t0;
  return res;
}

// ---------------------------------------------------------------------------------
// messages child -> parent
// ---------------------------------------------------------------------------------
static std::string obuf;
static void put(const std::string &s) { uint32_t n = s.size(); obuf.append((char *)&n, 4); obuf += s; }
static void flushOut() {
  size_t o = 0;
  while (o < obuf.size()) { ssize_t k = write(outFd, obuf.data() + o, obuf.size() - o); if (k <= 0) break; o += k; }
  obuf.clear();
}
static std::string mvText(const MV &m) { std::string s; for (auto &x : m) s += x.first + "=" + x.second + "\n"; return s; }
static std::string decText(const std::vector<Dec> &d, size_t n) { std::string s; for (size_t i = 0; i < n; i++) { s += std::to_string(d[i].kind) + ":" + std::to_string(d[i].v) + " "; } return s; }
static void spawn(const MV &m, const std::vector<Dec> &d) { put("I"); put(mvText(m)); put(decText(d, d.size())); }
static void candidate(const std::string &label, const MV &m, const std::string &how) { put("V"); put(label); put(mvText(m)); put(how); flushOut(); }

static std::vector<std::pair<S, bool>> pcConds(size_t n) {
  std::vector<std::pair<S, bool>> v;
  for (size_t i = 0; i < n; i++) v.push_back({pc[i].cond, pc[i].dir});
  return v;
}
static std::vector<size_t> decAt;   // pc index -> number of decisions before it
static void exploreFlips() {
  int unknowns = 0;
  for (size_t i = 0; i < pc.size(); i++) {
    if (!pc[i].flip) continue;
    if (softStop) noHard = true;
    size_t di = decAt[i];
    if (di < prefixLen) continue;
    if (pc[i].conc && pc[i].cs->op == VAR && pc[i].cs->sort == SI) {   // an unconstrained choice: every value is possible
      VarInfo &vi = vars[pc[i].cs->imm];
      bool free = vi.uhi - vi.ulo < 256;
      for (size_t j = 0; j < i && free; j++) free = !cvOf(pc[j].cond).bvars.count((int)pc[i].cs->imm);
      if (free) {
        for (uint64_t v = vi.ulo; v <= vi.uhi; v++) if (v != pc[i].cs->v) { MV m = currentModel(); m[vi.name] = std::to_string(v); std::vector<Dec> d(decs.begin(), decs.begin() + di); d.push_back({1, v}); spawn(m, d); }
        continue;
      }
    }
    if (pc[i].conc) {   // enumerate the other values
      std::vector<std::pair<S, bool>> base = pcConds(i);
      base.push_back({pc[i].cond, false});
      int n = 0;
      for (;;) {
        MV m; Res r = solve(base, base.size() - 1, m, nullptr, nullptr, 0, false);
        if (r == UNKNOWN) { note("undecided branch"); break; }
        if (r == UNSAT) break;
        loadAlt(m); evalAlt(pc[i].cs);
        uint64_t nv = pc[i].cs->ev;
        std::vector<Dec> d(decs.begin(), decs.begin() + di); d.push_back({1, nv});
        spawn(m, d);
        if (++n >= OPT_ENUM) { note("more than " + std::to_string(OPT_ENUM) + " values at one concretisation"); break; }
        base.push_back({mk(EQ, SB, 1, pc[i].cs, cI(nv, pc[i].cs->w)), false});
      }
      continue;
    }
    std::vector<std::pair<S, bool>> q = pcConds(i);
    q.push_back({pc[i].cond, !pc[i].dir});
    MV m;
    if (OPT_DUMP > 3) { std::set<S> seen; std::vector<S> st{pc[i].cond}; std::string vs; while (!st.empty()) { S x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; if (x->op == VAR) vs += " " + vars[x->imm].name; else if (!x->a) vs += " [" + std::to_string((int)x->op) + ":" + std::to_string((int)x->sort) + ":" + std::to_string((double)x->r) + "]"; st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); } if (seen.size() < 30) { std::function<std::string(S)> tx = [&](S x) -> std::string { if (!x) return ""; std::string r = "(" + std::to_string((int)x->op); if (!x->a) r += ":" + std::to_string((double)x->r); return r + tx(x->a) + tx(x->b) + ")"; }; vs += " TREE " + tx(pc[i].cond); }
    fprintf(stderr, "branch site %u op %d nodes %zu:%s\n", pc[i].site, (int)pc[i].cond->op, seen.size(), vs.c_str()); }
    Res r = solve(q, q.size() - 1, m, nullptr, nullptr, unknowns ? std::max(200, OPT_TIMEOUT / (1 + unknowns)) : 0);
    if (r == SAT) { std::vector<Dec> d(decs.begin(), decs.begin() + di); d.push_back({0, (uint64_t)!pc[i].dir}); spawn(m, d); }
    else if (r == UNKNOWN) { unknowns++; note("undecided branch"); }
  }
}
static bool ending = false;
// What the parent can still read after this process crashed: number of decisions, inputs so far.
struct Shared { volatile uint64_t decs, len; char text[1]; };
static const size_t SHARED = 1 << 18;
static Shared *shared = nullptr;
static size_t stopAt = 0;               // end the path at this decision (its continuation crashed)
static void onAlarm(int) { softStop = 1; signal(SIGALRM, SIG_DFL); alarm((unsigned)(OPT_PATHSEC / 2 + 3)); }
static void logInput(const std::string &n, const std::string &v) {
  if (!shared || shared->len + n.size() + v.size() + 3 + sizeof(Shared) > SHARED) return;
  char *q = shared->text + shared->len; memcpy(q, n.data(), n.size()); q += n.size(); *q++ = '='; memcpy(q, v.data(), v.size()); q += v.size(); *q++ = '\n'; shared->len = q - shared->text;
}
static void endPath(const char *why);
static void checkpoint() {
  if (shared) shared->decs = decs.size();
  if (ending) return;
  if (stopAt && decs.size() >= stopAt) endPath("cut");
  if (softStop) endPath("slow");
}
static void finishMessages(const char *why) {
  put("E"); put(why);
  std::string s;
  for (auto &n : notes) s += n.first + "\t" + std::to_string(n.second) + "\n";
  put(s); s.clear();
  for (auto &f : fnSeen) s += f + "\n";
  put(s); s.clear();
  for (auto &f : reached) s += f + "\n";
  put(s); s.clear();
  for (auto &c : chk) s += c.first + "\t" + std::to_string(c.second.proved) + "\t" + std::to_string(c.second.undecided) + "\t" + std::to_string(c.second.violated) + "\t" + std::to_string(c.second.normal) + "\n";
  put(s);
  put(std::to_string(nSat) + " " + std::to_string(nUnsat) + " " + std::to_string(nUnknown) + " " + std::to_string(solverMs) + " " + std::to_string(nNormal) + " " + std::to_string(decs.size()));
  put(mvText(currentModel()));
  flushOut();
}
static void endPath(const char *why) {
  if (ending) _exit(0);
  ending = true; flushOut();
  try { exploreFlips(); } catch (std::exception &e) { note(std::string("explore: ") + e.what()); } catch (...) { note("explore failed"); }
  finishMessages(why);
  _exit(0);
}

// ---------------------------------------------------------------------------------
// operations called by instrumented code
// ---------------------------------------------------------------------------------
static bool pushPC(S cond, bool dir, bool flip, uint32_t site, bool conc = false, S cs = nullptr, uint64_t cv = 0) {
  pc.push_back({cond, dir, flip, conc, cs, cv, site});
  decAt.push_back(decs.size());
  return dir;
}
// counts of real comparisons (if-converted code): decide the comparisons rather than mix them with bit vectors
static void realAtoms(S e, std::vector<S> &out, std::unordered_map<S, int> &seen, bool &arith, bool &ivar) {
  if (!e || e->op == CST || seen.count(e)) return;
  seen[e] = 1;
  if (e->op == FEQ || e->op == FLT || e->op == FLE) { out.push_back(e); return; }
  if (e->sort == SR || e->op == BITS) { ivar = true; return; }
  if (e->op == VAR) { ivar = true; return; }
  if (e->op >= IADD && e->op <= IXOR) arith = true;
  realAtoms(e->a, out, seen, arith, ivar); realAtoms(e->b, out, seen, arith, ivar); realAtoms(e->c, out, seen, arith, ivar);
}
static bool decide(S c, uint32_t site, bool flip = true) {
  bool neg = false;
  if (REAL && flip) {
    S k = c->op == BNOT ? c->a : c;
    if ((k->op == EQ || k->op == ULT || k->op == ULE || k->op == SLT || k->op == SLE || k->op == BAND || k->op == BOR || k->op == BXOR || k->op == BITE) && !known.count(k)) {
      std::vector<S> at; std::unordered_map<S, int> seen; bool arith = false, ivar = false; realAtoms(k, at, seen, arith, ivar);
      if (arith && !at.empty()) { for (S x : at) decide(x, site); if (!ivar) known[k] = k->v != 0; }
    }
  }
  S k = c;
  if (k->op == BNOT) { k = k->a; neg = true; }
  if (isC(k)) return neg ? !k->v : k->v;
  auto it = known.find(k);
  if (it != known.end()) return neg ? !it->second : it->second;
  if (REAL && (k->op == FEQ || k->op == FLT || k->op == FLE)) {
    // conditions that are constant after normalisation are no decisions
    f128 x = k->a->r, y = k->b->r;
    if (fabsq(x - y) < (fabsq(x) + fabsq(y) + 1e-9Q) * 1e-20Q) {
      try { Poly p = signPoly(k->a, k->b); if (pIsConst(p)) { mpq_class v = pConstVal(p); bool d = k->op == FEQ ? v == 0 : k->op == FLT ? v < 0 : v <= 0; known[k] = d; return neg ? !d : d; } } catch (TooBig &) {}
    }
  }
  if (flip && decs.size() >= (size_t)OPT_MAXBR) { note("decision bound reached"); endPath("bound"); }
  bool d = k->v != 0;
  if (flip) {
    if (decs.size() < prefixLen) { if (prefix[decs.size()].kind != 0) note("replay diverged"); d = prefix[decs.size()].v; }
    pushPC(k, d, true, site);
    decs.push_back({0, (uint64_t)d});
    known[k] = d; checkpoint();
  } else pushPC(k, d, false, site);
  known[k] = d;
  return neg ? !d : d;
}
extern "C" bool __sym_branch(S c, bool cc, uint32_t site) {
  if (!c) return cc;
  return decide(c, site);
}
extern "C" void __sym_concretize(S s, uint64_t c, uint32_t w) {
  if (!s || isC(s)) return;
  if (s->sort == SB) { decide(s, 0); return; }
  s = toBV(s, w);
  if (s->op == BITS && REAL) { note("float bits used as an integer: value fixed"); return; }
  if (s->op == R2I && REAL) { note("float to integer conversion: value fixed"); return; }
  S cond = mk(EQ, SB, 1, s, cI(c, s->w));
  if (isC(cond) || known.count(cond)) return;
  uint64_t v = s->v;
  if (v != c) { note("concrete run and symbolic values diverged"); }
  if (decs.size() >= (size_t)OPT_MAXBR) { note("decision bound reached"); endPath("bound"); }
  if (decs.size() < prefixLen && (prefix[decs.size()].kind != 1 || prefix[decs.size()].v != c)) note("replay diverged");
  pushPC(cond, true, true, 0, true, s, c);
  decs.push_back({1, c});
  known[cond] = true; checkpoint();
}
extern "C" void __sym_memread(const void *p, uint64_t n) {
  for (uint64_t i = 0; i < n;) {
    unsigned k = 1; S s = nullptr;
    for (unsigned sz : {8u, 4u, 1u}) if (n - i >= sz && ((uint64_t)p + i) % sz == 0) { s = __sym_load((const char *)p + i, sz, 0, sz * 8); k = sz; if (s || sz == 1 || true) break; }
    if (s) { uint64_t v = 0; memcpy(&v, (const char *)p + i, k); __sym_concretize(s, v, k * 8); }
    i += k;
  }
}
extern "C" void __sym_escape(S s, double c, uint32_t) { (void)c; if (s && !isC(s)) note("float passed to an external function: value fixed"); }
static S liftI(S s, uint64_t c, unsigned w) { if (!s) return w == 1 ? cB(c & 1) : cI(c, w); return s; }
static S liftR(S s, double c, unsigned w) { return s ? s : cR(c, w); }
static S icmpE(unsigned pred, S a, S b) {
  if (isC(a) && isC(b)) {}
  switch (pred) {
  case 32: return a == b ? cB(true) : mk(EQ, SB, 1, a, b); case 33: return a == b ? cB(false) : bnot(mk(EQ, SB, 1, a, b));
  case 34: return mk(ULT, SB, 1, b, a); case 35: return mk(ULE, SB, 1, b, a); case 36: return mk(ULT, SB, 1, a, b); case 37: return mk(ULE, SB, 1, a, b);
  case 38: return mk(SLT, SB, 1, b, a); case 39: return mk(SLE, SB, 1, b, a); case 40: return mk(SLT, SB, 1, a, b); case 41: return mk(SLE, SB, 1, a, b);
  }
  return nullptr;
}
enum { LAdd = 13, LFAdd, LSub, LFSub, LMul, LFMul, LUDiv, LSDiv, LFDiv, LURem, LSRem, LFRem, LShl, LLShr, LAShr, LAnd, LOr, LXor };
static S fin(S e) { return e && isC(e) ? nullptr : e; }
static S rabs(S x) {
  if (!REAL) return mk(RABS, SR, x->w, x);
  bool nonneg = decide(mk(FLE, SB, 1, cR(0, x->w), x), 1);
  return nonneg ? x : rneg(x);
}
// a product is zero when one of its factors is
static bool divisorIsZero(S b, uint32_t w) {
  if (!OPT_DIV0) return false;
  if (isC(b)) return b->r == 0;
  switch (b->op) {
  case RMUL: return divisorIsZero(b->a, w) || (b->b != b->a && divisorIsZero(b->b, w));
  case RNEG: case REXT: case RTRUNC: case RSQRT: case RDIV: return divisorIsZero(b->a, b->a->w);
  default: return decide(mk(FEQ, SB, 1, b, cR(0, b->w)), 2);
  }
}
extern "C" S __sym_bin(uint32_t op, S a, uint64_t ca, S b, uint64_t cb, uint32_t w) {
  a = liftI(a, ca, w); b = liftI(b, cb, w);
  if (w == 1) {
    if (op == LAnd) return fin(band(a, b));
    if (op == LOr) return fin(bor(a, b));
    if (op == LXor) { if (isC(b)) return fin(b->v ? bnot(a) : a); if (isC(a)) return fin(a->v ? bnot(b) : b); return mk(BXOR, SB, 1, a, b); }
    decide(a, 0); decide(b, 0); return nullptr;
  }
  a = toBV(a, w); b = toBV(b, w);
  if (REAL && (a->op == BITS || b->op == BITS)) {
    S f = a->op == BITS ? a : b, k = f == a ? b : a;
    uint64_t sign = 1ull << (w - 1);
    if (isC(k) && op == LXor && k->v == sign) return mk(BITS, SI, w, rneg(f->a));
    if (isC(k) && op == LAnd && k->v == sign - 1) return mk(BITS, SI, w, rabs(f->a));
    note("float bits used as an integer: value fixed"); return nullptr;
  }
  // light simplification
  if (isC(b)) {
    if (b->v == 0 && (op == LAdd || op == LSub || op == LOr || op == LXor || op == LShl || op == LLShr || op == LAShr)) return fin(a);
    if (b->v == 0 && (op == LMul || op == LAnd)) return nullptr;
    if (b->v == 1 && (op == LMul || op == LUDiv || op == LSDiv)) return fin(a);
    if (op == LLShr && b->v < w && b->v % 8 == 0) return fin(concat(cI(0, b->v), extract(a, b->v, w - b->v)));
    if (op == LShl && b->v < w && b->v % 8 == 0) return fin(concat(extract(a, 0, w - b->v), cI(0, b->v)));
    if (op == LAnd && b->v == maskw(w)) return fin(a);
    for (unsigned k : {8u, 16u, 32u}) if (op == LAnd && k < w && b->v == maskw(k)) return fin(concat(cI(0, w - k), extract(a, 0, k)));
  }
  if (isC(a)) { if (a->v == 0 && (op == LAdd || op == LOr || op == LXor)) return fin(b); if (a->v == 0 && (op == LMul || op == LAnd)) return nullptr; }
  if (op == LOr) {   // disjoint halves
    auto half = [&](S hi, S lo) -> S { if (hi->op == ICONCAT && isC(hi->b) && hi->b->v == 0 && lo->op == IZEXT && lo->a->w <= hi->b->w) {
        S l = lo->a->w < hi->b->w ? (S)mk(IZEXT, SI, hi->b->w, lo->a) : lo->a; return concat(hi->a, l); } return nullptr; };
    if (S r = half(a, b)) return fin(r); if (S r = half(b, a)) return fin(r);
    if (a->op == ICONCAT && isC(a->b) && a->b->v == 0 && isC(b) && b->v < (1ull << a->b->w)) return fin(concat(a->a, cI(b->v, a->b->w)));
  }
  uint16_t o;
  switch (op) {
  case LAdd: o = IADD; break; case LSub: o = ISUB; break; case LMul: o = IMUL; break; case LUDiv: o = IUDIV; break; case LSDiv: o = ISDIV; break;
  case LURem: o = IUREM; break; case LSRem: o = ISREM; break; case LShl: o = ISHL; break; case LLShr: o = ILSHR; break; case LAShr: o = IASHR; break;
  case LAnd: o = IAND; break; case LOr: o = IOR; break; case LXor: o = IXOR; break; default: return nullptr;
  }
  if (a == b && (o == ISUB || o == IXOR)) return nullptr;
  return fin(mk(o, SI, w, a, b));
}
extern "C" S __sym_fbin(uint32_t op, S a, double ca, S b, double cb, uint32_t w) {
  if (REAL) {   // non finite operands have no real value
    if ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb))) {
      if (op == LFDiv && !b && std::isinf(cb)) return nullptr;
      note("arithmetic with a non finite value"); return nullptr; }
  }
  a = liftR(a, ca, w); b = liftR(b, cb, w);
  if (isC(a) && isC(b)) return nullptr;      // constants are computed as the program computes them
  if (REAL || true) {
    bool za = isC(a) && a->r == 0, zb = isC(b) && b->r == 0, ob = isC(b) && b->r == 1, oa = isC(a) && a->r == 1;
    if (REAL) {
      if (op == LFAdd) { if (za) return fin(b); if (zb) return fin(a); }
      if (op == LFSub) { if (zb) return fin(a); if (za) return fin(rneg(b)); if (a == b) return nullptr; }
      if (op == LFMul) { if (za || zb) return nullptr; }
    }
    if (op == LFMul) { if (ob) return fin(a); if (oa) return fin(b); }
    if (op == LFDiv && ob) return fin(a);
  }
  switch (op) {
  case LFAdd: return fin(mk(RADD, SR, w, a, b));
  case LFSub: return fin(mk(RSUB, SR, w, a, b));
  case LFMul: return fin(mk(RMUL, SR, w, a, b));
  case LFDiv:
    if (REAL) {
      if (!isC(b)) {
        if (divisorIsZero(b, w)) return nullptr;
        S z = mk(FEQ, SB, 1, b, cR(0, w)); (void)z;
        if (!OPT_DIV0) { if (!known.count(z)) { if (z->v) { endPath("division by zero (not explored)"); } pushPC(z, false, false, 2); known[z] = false; } }
      } else if (b->r == 0) return nullptr;
      if (isC(a) && a->r == 0) return nullptr;
    }
    return fin(mk(RDIV, SR, w, a, b));
  default: note("frem: value fixed"); return nullptr;
  }
}
extern "C" S __sym_fneg(S a, uint32_t) { return a ? fin(rneg(a)) : nullptr; }
extern "C" S __sym_icmp(uint32_t pred, S a, uint64_t ca, S b, uint64_t cb, uint32_t w) {
  a = liftI(a, ca, w); b = liftI(b, cb, w);
  if (w == 1) {
    if (pred == 32) { if (isC(b)) return fin(b->v ? a : bnot(a)); if (isC(a)) return fin(a->v ? b : bnot(b)); return bnot(mk(BXOR, SB, 1, a, b)); }
    if (pred == 33) { if (isC(b)) return fin(b->v ? bnot(a) : a); if (isC(a)) return fin(a->v ? bnot(b) : b); return mk(BXOR, SB, 1, a, b); }
    a = b2i(a, 8); b = b2i(b, 8);
    if (pred >= 38) { note("signed i1 compare"); }
  }
  a = toBV(a, w); b = toBV(b, w);
  if (REAL && (a->op == BITS || b->op == BITS)) {
    // sign test of a float
    S f = a->op == BITS ? a : b;
    if (a->op == BITS && isC(b) && pred == 40 && b->v == 0) return mk(FLT, SB, 1, a->a, cR(0, a->a->w));
    (void)f; note("float bits used as an integer: value fixed"); return nullptr;
  }
  // comparing a zero extended bool with constants
  if (a->op == B2I && isC(b)) { if (pred == 32) return b->v == 0 ? fin(bnot(a->a)) : b->v == 1 ? a->a : nullptr; if (pred == 33) return b->v == 0 ? a->a : b->v == 1 ? fin(bnot(a->a)) : nullptr; }
  return fin(icmpE(pred, a, b));
}
extern "C" S __sym_fcmp(uint32_t pred, S a, double ca, S b, double cb, uint32_t w) {
  if (REAL && ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb)))) {
    // comparison with inf/nan has a fixed outcome for every real value
    return nullptr;
  }
  a = liftR(a, ca, w); b = liftR(b, cb, w);
  bool un = pred & 8; unsigned base = pred & 7;
  S r;
  switch (base) {
  case 0: r = cB(false); break;
  case 1: r = mk(FEQ, SB, 1, a, b); break;
  case 2: r = mk(FLT, SB, 1, b, a); break;
  case 3: r = mk(FLE, SB, 1, b, a); break;
  case 4: r = mk(FLT, SB, 1, a, b); break;
  case 5: r = mk(FLE, SB, 1, a, b); break;
  case 6: r = bnot(mk(FEQ, SB, 1, a, b)); break;
  default: r = cB(true); break;
  }
  if (REAL) return fin(r);
  S uno = isC(a) && !isnanq(a->r) && isC(b) && !isnanq(b->r) ? cB(false) : mk(FUNO, SB, 1, a, b);
  if (base == 7) return fin(un ? cB(true) : bnot(uno));
  if (base == 0) return fin(un ? uno : cB(false));
  if (base == 6) return fin(un ? r : band(bnot(uno), r));     // one / une
  return fin(un ? bor(uno, r) : r);
}
extern "C" S __sym_cast(uint32_t op, S a, uint64_t ca, uint32_t fk, uint32_t fw, uint32_t tk, uint32_t tw) {
  if (!a) return nullptr;
  switch (op) {
  case 38: // trunc
    if (a->sort == SB) return a;
    a = toBV(a, fw);
    if (REAL && a->op == BITS) { note("float bits used as an integer: value fixed"); return nullptr; }
    if (tw == 1) { if (a->op == B2I) return a->a; return mk(I2B, SB, 1, a); }
    return fin(extract(a, 0, tw));
  case 39: // zext
    if (a->sort == SB) return fin(b2i(a, tw));
    a = toBV(a, fw);
    return fin(a->op == B2I ? b2i(a->a, tw) : a->op == IZEXT ? mk(IZEXT, SI, tw, a->a) : mk(IZEXT, SI, tw, a));
  case 40: // sext
    if (a->sort == SB) return fin(mk(IITE, SI, tw, a, cI(~0ull, tw), cI(0, tw)));
    a = toBV(a, fw);
    if (REAL && a->op == BITS) { note("float bits used as an integer: value fixed"); return nullptr; }
    return fin(mk(ISEXT, SI, tw, a));
  case 41: case 42: // fptoui, fptosi
    if (REAL) { note("float to integer conversion: value fixed"); return nullptr; }
    return fin(mk(op == 41 ? R2U : R2I, SI, tw, a));
  case 43: case 44: // uitofp, sitofp
    if (a->sort == SB) a = b2i(a, 8);
    if (REAL) { __sym_concretize(a, a->v, a->w); return nullptr; }
    return fin(mk(op == 43 ? U2R : S2R, SR, tw, toBV(a, fw)));
  case 45: case 46: {
    if (a->sort == SR && a->w == tw) return a;
    if (REAL && (a->op == RTRUNC || a->op == REXT) && a->a->w == tw) return a->a;
    return fin(mk(op == 45 ? RTRUNC : REXT, SR, tw, a)); }
  case 49: // bitcast
    if (fk == tk) return a;
    if (tk == 1) return fin(toR(a->sort == SR ? a : toBV(a, fw), tw));
    return fin(toBV(a, tw));
  case 47: // ptrtoint
  case 48: default:
    if (fk == 0) __sym_concretize(a, ca, fw); else __sym_escape(a, 0, 0);
    return nullptr;
  }
}
// integers chosen by a nonlinear comparison are branched on: z3's nonlinear solver takes no bit-vectors
static bool nonlinearCond(S c) {
  switch (c->op) {
  case BNOT: return nonlinearCond(c->a);
  case BAND: case BOR: case BXOR: return nonlinearCond(c->a) || nonlinearCond(c->b);
  case FEQ: case FLT: case FLE: try { return !linearCond(c); } catch (TooBig &) { return true; }
  default: return false;
  }
}
extern "C" S __sym_select(S c, bool cc, S a, uint64_t ca, S b, uint64_t cb, uint32_t w) {
  if (!c) return cc ? a : b;
  if (isC(c)) return c->v ? a : b;
  S x = liftI(a, ca, w), y = liftI(b, cb, w);
  if (x == y) return fin(x);
  if (w == 1) {
    if (isC(x) && isC(y)) return x->v ? c : bnot(c);
    if (isC(x)) return fin(x->v ? bor(c, y) : band(bnot(c), y));
    if (isC(y)) return fin(y->v ? bor(bnot(c), x) : band(c, x));
    return mk(BITE, SB, 1, c, x, y);
  }
  x = toBV(x, w); y = toBV(y, w);
  if (isC(x) && isC(y) && x->v == 1 && y->v == 0) return b2i(c, w);
  if (isC(x) && isC(y) && x->v == 0 && y->v == 1) return b2i(bnot(c), w);
  if (REAL && (x->op == BITS || y->op == BITS || nonlinearCond(c))) { bool d = decide(c, 0); return fin(d ? x : y); }
  return mk(IITE, SI, w, c, x, y);
}
static int ufId(const std::string &n) { for (size_t i = 0; i < ufNames.size(); i++) if (ufNames[i] == n) return i; ufNames.push_back(n); return ufNames.size() - 1; }
extern "C" S __sym_libm(const char *nm, S a, double ca, S b, double cb, uint32_t w) {
  std::string n = nm;
  if (!a && !b) return nullptr;
  if (REAL && ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb)))) return nullptr;
  a = liftR(a, ca, w);
  bool two = n == "atan2" || n == "pow" || n == "hypot" || n == "fmod" || n == "copysign" || n == "fmin" || n == "fmax" || n == "minnum" || n == "maxnum";
  if (two) b = liftR(b, cb, w); else b = nullptr;
  if (n == "fabs") return fin(rabs(a));
  if (n == "sqrt") {
    if (REAL) {
      if (a->r < 0 && a->r > -1e-20Q) { try { if (rfOf(a)->n.empty()) return nullptr; } catch (TooBig &) {} }
      if (a->r < 0) return nullptr;
      // sqrt(x*x) = |x|
      if (a->op == RMUL && a->a == a->b) return fin(rabs(a->a));
      if (isC(a)) return nullptr;
      return mk(RSQRT, SR, w, a);
    }
    return mk(RSQRT, SR, w, a);
  }
  if (n == "fmin" || n == "minnum") { bool lt = decide(mk(FLT, SB, 1, a, b), 3); return fin(lt ? a : b); }
  if (n == "fmax" || n == "maxnum") { bool lt = decide(mk(FLT, SB, 1, a, b), 3); return fin(lt ? b : a); }
  if (REAL) {       // a constant argument: the library's own value
    try { RF *x = rfOf(a), *y = b ? rfOf(b) : nullptr; if (x->d.empty() && pIsConst(x->n) && (!y || y->d.empty() && pIsConst(y->n))) return nullptr; } catch (TooBig &) {}
  }
  return mk(RUF, SR, w, a, b, nullptr, ufId(n));
}

// ---------------------------------------------------------------------------------
// harness interface
// ---------------------------------------------------------------------------------
static uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull ^ (OPT_SEED * 0x9E3779B97F4A7C15ull); for (char c : s) { h ^= (uint8_t)c; h *= 1099511628211ull; } h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; return h; }
static S newVar(const std::string &name, Sort so, unsigned w, double lo, double hi, uint64_t ulo, uint64_t uhi, int quat = -1, int qidx = 0) {
  auto it = varByName.find(name);
  if (it != varByName.end()) return vars[it->second].e;
  VarInfo vi{name, so, w, lo, hi, ulo, uhi, quat, qidx, nullptr};
  S e = mk(VAR, so, w, nullptr, nullptr, nullptr, vars.size());
  vi.e = e;
  varByName[name] = vars.size();
  auto h = hashStr(name);
  if (so == SI) {
    auto f = inU.find(name);
    uint64_t span = uhi - ulo;
    e->v = f != inU.end() ? f->second : ulo + (span == ~0ull ? h : h % (span + 1));
    if (e->v < ulo || e->v > uhi) e->v = ulo;          // a value from a path on which the range was another
  } else {
    auto f = inF.find(name);
    if (f != inF.end()) e->r = f->second;
    else {
      MV m; std::mt19937_64 sv = rng; rng.seed(h); randomVar(vi, m); rng = sv;
      e->r = strtod(m[name].c_str(), nullptr);
    }
  }
  vars.push_back(vi); if (so == SI && uhi < (uint64_t)BIG) { e->lv = (int)vars.size() - 1; e->off = 0; }
  if (quat < 0) logInput(name, so == SI ? std::to_string(e->v) : dstr((double)e->r));
  return e;
}
static void ret1(void *fn, S e) { __sym_retfn = fn; __sym_ret[0] = e; }
extern "C" {
float symi_f32(const char *name, float lo, float hi) { S e = newVar(name, SR, 32, lo, hi, 0, 0); ret1((void *)symi_f32, e); return (float)e->r; }
double symi_f64(const char *name, double lo, double hi) { S e = newVar(name, SR, 64, lo, hi, 0, 0); ret1((void *)symi_f64, e); return (double)e->r; }
uint32_t symi_u32(const char *name, uint32_t lo, uint32_t hi) { S e = newVar(name, SI, 32, 0, 0, lo, hi); ret1((void *)symi_u32, e); return (uint32_t)e->v; }
uint64_t symi_u64(const char *name, uint64_t lo, uint64_t hi) { S e = newVar(name, SI, 64, 0, 0, lo, hi); ret1((void *)symi_u64, e); return e->v; }
void symi_unit_quat(const char *name, float *q) {
  static const char *cc[4] = {".w", ".x", ".y", ".z"};
  S e[4]; bool fresh = !varByName.count(std::string(name) + ".w"); int g = vars.size();
  for (int k = 0; k < 4; k++) e[k] = newVar(std::string(name) + cc[k], SR, 32, -1, 1, 0, 0, g, k);
  if (fresh) {
    f128 n = 0; for (int k = 0; k < 4; k++) n += e[k]->r * e[k]->r;
    if (n == 0) { e[0]->r = 1; n = 1; }
    n = sqrtq(n);
    for (int k = 0; k < 4; k++) { e[k]->r /= n; logInput(std::string(name) + cc[k], dstr((double)e[k]->r)); }
  }
  for (int k = 0; k < 4; k++) { q[k] = (float)e[k]->r; __sym_store(&q[k], 4, e[k]); }
}
uint32_t symi_choice(const char *name, uint32_t n) {
  if (inPrelude) { ret1((void *)symi_choice, nullptr); return 0; }
  S e = newVar(name, SI, 32, 0, 0, 0, n - 1);
  __sym_concretize(e, e->v, 32);
  ret1((void *)symi_choice, nullptr);
  return (uint32_t)e->v;
}
float symi_peek(float x) { return x; }
int symi_native(void) { return 0; }
void symi_note(const char *) {}
void symi_reach(const char *label) { reached.insert(label); }
void symi_assume(bool c) {
  S s = __sym_callee == (void *)symi_assume ? (S)__sym_args[0] : nullptr;
  if (!s) { if (!c) endPath("assume"); return; }
  if (s->sort != SB) s = mk(I2B, SB, 1, toBV(s, 8));
  bool val = s->v != 0;
  bool neg = false; S k = s; if (k->op == BNOT) { k = k->a; neg = true; }
  if (isC(k)) { if (!val) endPath("assume"); return; }
  auto it = known.find(k);
  if (it != known.end()) { bool d = neg ? !it->second : it->second; if (!d) endPath("assume"); return; }
  if (!val && decs.size() < prefixLen) val = true;      // inside a forced prefix the assumption was part of the query
  if (!val) {
    std::vector<std::pair<S, bool>> q = pcConds(pc.size());
    q.push_back({s, true});
    MV m; Res r = solve(q, q.size() - 1, m);
    if (r == SAT) { std::vector<Dec> d = decs; put("A"); put(mvText(m)); put(decText(d, d.size())); }
    else if (r == UNKNOWN) note("undecided assumption");
    endPath("assume");
  }
  pushPC(k, !neg, false, 0);
  known[k] = !neg;
}
}
static std::vector<std::pair<S, bool>> withPC(S c, bool v) { auto q = pcConds(pc.size()); q.push_back({c, v}); return q; }
extern "C" void symi_check(bool c, const char *label) {
  S s = __sym_callee == (void *)symi_check ? (S)__sym_args[0] : nullptr;
  if (softStop && !ending) endPath("slow");
  ChkStat &st = chk[label];
  if (s && s->sort != SB) s = mk(I2B, SB, 1, toBV(s, 8));
  if (!s || isC(s)) {
    bool v = s ? s->v : c;
    if (v) { st.proved++; nNormal++; } else { st.violated++; candidate(label, currentModel(), "path"); }
    return;
  }
  S k = s; bool neg = false; if (k->op == BNOT) { k = k->a; neg = true; }
  if (REAL) { std::vector<S> at; std::unordered_map<S, int> seen; bool arith = false, ivar = false; realAtoms(k, at, seen, arith, ivar); if (arith && !at.empty() && !ivar) { for (S x : at) decide(x, 0); known[k] = k->v != 0; } }
  auto it = known.find(k);
  if (it != known.end() && (neg ? !it->second : it->second)) { st.proved++; nNormal++; return; }
  MV m;
  auto q = withPC(s, false);
  Res r = solve(q, q.size() - 1, m);
  // the input of this path makes it false: a candidate too, unless only rounding does (exact arithmetic says it holds)
  if (!s->v && (r != UNSAT || !REAL)) candidate(label, currentModel(), "model");
  if (r == UNSAT) st.proved++;
  else if (r == SAT) { st.violated++; candidate(label, m, "solver"); }
  else st.undecided++;
}
// upper bound of |p| over the intervals of its unknowns (huge: none)
static mpq_class boundOf(const Poly &p) {
  mpq_class sum = 0;
  for (auto &t : p) { mpq_class m = abs(t.second);
    for (auto f : t.first) { double l, h; LinAbs::range(f >> 8, l, h); if (!std::isfinite(l) || !std::isfinite(h)) return mpq_class(1e300); mpq_class x = mpqOf(std::max(std::fabs(l), std::fabs(h))); for (unsigned k = 0; k < (f & 255); k++) m *= x; }
    sum += m; }
  return sum;
}
// A sample of the equalities settled by normal form is put to z3 as well, from the expressions as
// recorded: input ranges, unit quaternions, nonzero divisors and square roots as constraints.
static long nConfirmTried = 0;
static void confirm(S a, S b, const char *label) {
  if (!REAL || nConfirmTried >= 2) return;
  uint64_t hv = 1469598103934665603ull; for (const char *p = label; *p; p++) hv = (hv ^ (unsigned char)*p) * 1099511628211ull; for (auto &d : decs) hv = (hv ^ d.v ^ d.kind) * 1099511628211ull;
  if (decs.size() > 4 && (hv >> 17) % 16) return;
  static std::set<std::string> seen; if (!seen.insert(label).second) return;
  nConfirmTried++;
  std::map<S, z3::expr> memo; std::vector<z3::expr> side; bool exact = true; int left = 1500;
  std::function<z3::expr(S)> go = [&](S e) -> z3::expr {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (--left < 0) throw TooBig();
    z3::expr r = zc->real_val(0); auto fresh = [&]() { return zc->real_const(("q" + std::to_string(e->id)).c_str()); };
    switch (e->op) {
    case CST: r = zc->real_val(mpqStr(mpqOf(asD(e))).c_str()); break;
    case VAR: { VarInfo &v = vars[e->imm]; r = zc->real_const(("x" + std::to_string(e->imm)).c_str()); memo.emplace(e, r); if (v.sort == SR) { side.push_back(r >= zc->real_val(mpqStr(mpqOf(v.lo)).c_str())); side.push_back(r <= zc->real_val(mpqStr(mpqOf(v.hi)).c_str())); }
      if (v.quat >= 0 && v.qidx == 0) { z3::expr q = r * r; for (int k = 1; k < 4; k++) { z3::expr o = go(vars[e->imm + k].e); q = q + o * o; } side.push_back(q == 1); } break; }
    case RADD: r = go(e->a) + go(e->b); break;
    case RSUB: r = go(e->a) - go(e->b); break;
    case RMUL: r = go(e->a) * go(e->b); break;
    case RDIV: { z3::expr d = go(e->b); side.push_back(d != 0); r = go(e->a) / d; break; }
    case RNEG: r = -go(e->a); break;
    case REXT: case RTRUNC: r = go(e->a); break;
    case RSQRT: { z3::expr x = go(e->a); r = fresh(); side.push_back(r >= 0); side.push_back(r * r == x); break; }
    default: r = fresh(); exact = false;
    }
    memo.emplace(e, r); return r;
  };
  try {
    z3::expr x = go(a), y = go(b); double t0 = nowMs();
    z3::solver sv(*zc); z3::params p(*zc); p.set("timeout", 400u); sv.set(p); for (auto &c : side) sv.add(c); sv.add(x != y);
    Res cr = hardCheck(sv, 400, [](z3::model &) {}, nullptr); solverMs += nowMs() - t0;
    if (cr == UNSAT) { nUnsat++; note("equalities by normal form confirmed by z3"); }
    else if (cr == UNKNOWN) note("confirmation by z3 timed out");
    else if (exact) note("NORMAL FORM NOT CONFIRMED by z3"); else note("confirmation by z3 inconclusive");
  } catch (TooBig &) { note("too large to confirm by z3"); } catch (z3::exception &) { note("confirmation by z3 failed"); }
}
static void checkEq(S a, S b, double ca, double cb, double tol, unsigned w, const char *label) {
  if (softStop && !ending) endPath("slow");
  ChkStat &st = chk[label];
  if ((!a || isC(a)) && (!b || isC(b))) {
    double x = a ? asD(a) : ca, y = b ? asD(b) : cb;
    if (std::fabs(x - y) <= tol * (1 + std::fabs(y)) || x == y) { st.proved++; nNormal++; } else { st.violated++; candidate(label, currentModel(), "path"); }
    return;
  }
  if (a == b) { st.proved++; nNormal++; st.normal++; confirm(a, b, label); return; }
  if (REAL && ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb)))) { st.violated++; candidate(label, currentModel(), "non finite value"); return; }
  a = liftR(a, ca, w); b = liftR(b, cb, w);
  if (!REAL) {
    S d = tol == 0 ? mk(FEQ, SB, 1, a, b) : nullptr;
    if (!d) { S df = mk(RABS, SR, w, mk(RSUB, SR, w, a, b)); S sc = mk(RMUL, SR, w, cR(roundW(tol, w), w), mk(RADD, SR, w, cR(1, w), mk(RABS, SR, w, b))); d = mk(FLE, SB, 1, df, sc); }
    auto q = withPC(d, false); MV m;
    Res r = solve(q, q.size() - 1, m);
    if (r == UNSAT) st.proved++; else if (r == SAT) { st.violated++; candidate(label, m, "solver"); } else st.undecided++;
    return;
  }
  auto bad = [&](f128 x, f128 y) { return !(fabsq(x - y) <= (f128)tol * 1.5Q * (1 + fabsq(y))); };
  try {
    RF d = rfAdd(*rfOf(a), *rfOf(b), -1);
    if (d.n.empty()) { st.proved++; st.normal++; nNormal++; confirm(a, b, label); return; }
    // rounding of concrete constants: every coefficient negligible against the compared values' own
    mpq_class big = 0, bigd = 0;
    auto maxc = [](const Poly &p) { mpq_class m = 0; for (auto &t : p) { mpq_class x = abs(t.second); if (x > m) m = x; } return m; };
    bigd = maxc(d.n);
    { RF *ra = rfOf(a), *rb = rfOf(b); RF x = rfAdd(*ra, RF{}, 1); Poly pa = ra->n, pb = rb->n;
      for (auto &f : d.d) { auto ia = ra->d.find(f.first); int e = f.second - (ia == ra->d.end() ? 0 : ia->second); if (e > 0) pa = pMul(pa, pPow(factors[f.first], e));
                            auto ib = rb->d.find(f.first); e = f.second - (ib == rb->d.end() ? 0 : ib->second); if (e > 0) pb = pMul(pb, pPow(factors[f.first], e)); }
      big = std::max(maxc(pa), maxc(pb)); }
    if (bigd.get_d() <= 1e-6 * big.get_d()) {
      st.proved++; st.normal++; nNormal++; note("equality up to rounding of constants");
      // a sample goes to z3: no input in range makes the difference exceed the tolerance
      static std::set<std::string> seen;
      if (nConfirmTried < 2 && pc.size() < 400 && seen.insert(label).second) {
        nConfirmTried++; CV cv; atomsOfPoly(d.n, cv.atoms); for (auto &f : d.d) atomsOfPoly(factors[f.first], cv.atoms);
        Poly den = pConst(1); for (auto &f : d.d) den = pMul(den, pPow(factors[f.first], f.second));
        std::function<void(std::vector<z3::expr> &)> ex = [&](std::vector<z3::expr> &cs) { z3::expr n = zPoly(d.n), dd = zPoly(den), t = zc->real_val(mpqStr(mpqOf(tol > 0 ? tol : 1e-6)).c_str()); cs.push_back(d.d.empty() ? n > t || n < -t : n * n > t * t * dd * dd); cs.push_back(dd != 0); };
        long u0 = nUnknown; MV m; std::vector<std::pair<S, bool>> none; unsigned keep = OPT_TIMEOUT; OPT_TIMEOUT = std::min(OPT_TIMEOUT, 400); Res r = solve(none, 0, m, &ex, &cv); OPT_TIMEOUT = keep; nUnknown = u0;
        if (r == UNSAT) note("rounding-level equalities confirmed by z3"); else if (r == SAT) note("rounding-level equality NOT CONFIRMED by z3"); else note("confirmation by z3 timed out");
      }
      return; }
    if (bad(a->r, b->r)) { st.violated++; candidate(label, currentModel(), "model"); }
    else if (d.d.empty() && boundOf(d.n) <= mpqOf(tol)) st.proved++;      // the difference is within the tolerance on the whole box of inputs
    else {
      // witness search over the path's domain, then the solver
      auto base = pcConds(pc.size());
      std::set<int> at; atomsOfPoly(d.n, at);
      MV cur = currentModel();
      for (int k = 0; k < 60; k++) {
        MV m = cur;
        for (auto &v : vars) if (k < 20 || (rng() & 1)) randomVar(v, m);
        loadAlt(m);
        evalAlt(a); evalAlt(b);
        if (!bad(a->er, b->er)) continue;
        bool ok = true;
        for (auto &c : base) { evalAlt(c.first); if ((c.first->ev != 0) != c.second) { ok = false; break; } }
        if (ok) { for (size_t i = 0; i < vars.size(); i++) if (vars[i].quat >= 0) m[vars[i].name] = dstr((float)altR[i]); st.violated++; candidate(label, m, "sampled witness of a refuted identity"); return; }
      }
      // exact query: |n| > tol*(1+|b|)*|d|  (b's magnitude dropped: stronger candidate first)
      CV cv; cv.atoms = at; for (auto &f : d.d) atomsOfPoly(factors[f.first], cv.atoms);
      Poly den = pConst(1); for (auto &f : d.d) den = pMul(den, pPow(factors[f.first], f.second));
      std::function<void(std::vector<z3::expr> &)> ex = [&](std::vector<z3::expr> &cs) {
        z3::expr n = zPoly(d.n), dd = zPoly(den), t = zc->real_val(mpqStr(mpqOf(tol)).c_str());
        z3::expr n2 = n * n, t2 = t * t * dd * dd;
        cs.push_back(n2 > t2); cs.push_back(dd != 0);
      };
      MV m; Res r = solve(base, base.size(), m, &ex, &cv);
      if (r == UNSAT) st.proved++;
      else if (r == SAT) { loadAlt(m); evalAlt(a); evalAlt(b); if (bad(a->er, b->er)) { st.violated++; candidate(label, m, "solver"); } else st.undecided++; }
      else st.undecided++;
    }
  } catch (TooBig &) {
    if (bad(a->r, b->r)) { st.violated++; candidate(label, currentModel(), "model"); } else { st.undecided++; note("check too large to normalise"); }
  }
}
extern "C" void symi_check_eq(float a, float b, float tol, const char *label) {
  bool t = __sym_callee == (void *)symi_check_eq;
  if (t && __sym_args[2] && !isC((S)__sym_args[2])) { chk[label].undecided++; note("symbolic tolerance: not decided"); return; }
  checkEq(t ? (S)__sym_args[0] : nullptr, t ? (S)__sym_args[1] : nullptr, a, b, tol, 32, label);
}
extern "C" void symi_check_eq64(double a, double b, double tol, const char *label) {
  bool t = __sym_callee == (void *)symi_check_eq64;
  if (t && __sym_args[2] && !isC((S)__sym_args[2])) { chk[label].undecided++; note("symbolic tolerance: not decided"); return; }
  checkEq(t ? (S)__sym_args[0] : nullptr, t ? (S)__sym_args[1] : nullptr, a, b, tol, 64, label);
}

// ---------------------------------------------------------------------------------
// explorer
// ---------------------------------------------------------------------------------
struct Item { MV m; std::vector<Dec> d; bool assume = false; int retries = 0; size_t stop = 0; int cuts = 0; };
static MV parseMV(const std::string &s) { MV m; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); size_t q = l.find('='); if (q != std::string::npos) m[l.substr(0, q)] = l.substr(q + 1); p = e + 1; } return m; }
static std::vector<Dec> parseDec(const std::string &s) { std::vector<Dec> d; const char *p = s.c_str(); while (*p) { char *e; unsigned long k = strtoul(p, &e, 10); unsigned long long v = strtoull(e + 1, &e, 10); d.push_back({(uint8_t)k, v}); p = e; while (*p == ' ') p++; } return d; }
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
// other instances in the process before the check starts (the harness' symi_prelude): concrete, run once
// and inherited by every path; in each path's own process if it does not end well
static void (*prelude)();
static void runPrelude() { inPrelude = true; int o = dup(1), dn = open("/dev/null", O_WRONLY); if (!getenv("SYMI_STDOUT")) dup2(dn, 1); prelude(); fflush(stdout); dup2(o, 1); close(o); close(dn); inPrelude = false; }
static bool preludeEnds() { pid_t p = fork(); if (!p) { alarm(20); runPrelude(); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
static void childRun(const Item &it, void (*entry)(), int fd) {
  outFd = fd;
  int dn = open("/dev/null", O_WRONLY); if (!getenv("SYMI_STDOUT")) dup2(dn, 1); 
  prefix = it.d; prefixLen = prefix.size();
  for (auto &x : it.m) {
    if (x.second.find('x') != std::string::npos || x.second.find("inf") != std::string::npos || x.second.find("nan") != std::string::npos) inF[x.first] = strtod(x.second.c_str(), nullptr);
    else inU[x.first] = strtoull(x.second.c_str(), nullptr, 10);
  }
  rng.seed(OPT_SEED * 7919 + prefixLen);
  pool = new std::unordered_map<Key, S, KeyH>(); pool->reserve(1 << 14);
  pages = new std::unordered_map<uint64_t, Page *>();
  if (!zc) zc = new z3::context(); zmemo = new std::unordered_map<S, z3::expr>(); zatom = new std::map<int, z3::expr>();
  stopAt = it.stop; signal(SIGALRM, onAlarm);
  alarm((unsigned)OPT_PATHSEC);
  if (prelude) runPrelude();
  entry();
  endPath("done");
}
int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0x3A);       // fresh memory is never zero by accident
  std::string entryName, outFile = "/dev/stdout";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&] { return a.substr(a.find('=') + 1); };
    if (a.rfind("--entry=", 0) == 0) entryName = val();
    else if (a.rfind("--mode=", 0) == 0) REAL = val() == "real";
    else if (a.rfind("--budget=", 0) == 0) OPT_BUDGET = atof(val().c_str());
    else if (a.rfind("--timeout=", 0) == 0) OPT_TIMEOUT = atoi(val().c_str());
    else if (a.rfind("--jobs=", 0) == 0) OPT_JOBS = atoi(val().c_str());
    else if (a.rfind("--maxpaths=", 0) == 0) OPT_MAXPATHS = atol(val().c_str());
    else if (a.rfind("--maxbr=", 0) == 0) OPT_MAXBR = atol(val().c_str());
    else if (a.rfind("--seed=", 0) == 0) OPT_SEED = atoi(val().c_str());
    else if (a.rfind("--div0=", 0) == 0) OPT_DIV0 = atoi(val().c_str());
    else if (a.rfind("--enum=", 0) == 0) OPT_ENUM = atoi(val().c_str());
    else if (a.rfind("--pathsec=", 0) == 0) OPT_PATHSEC = atof(val().c_str());
    else if (a.rfind("--dump=", 0) == 0) OPT_DUMP = atoi(val().c_str());
    else if (a.rfind("--out=", 0) == 0) outFile = val();
  }
  void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, entryName.c_str());
  if (!entry) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 2; }
  // the solver is set up once and inherited by every path's process
  zc = new z3::context(); bvSolver = new z3::solver(*zc, "QF_BV"); linSolver = new z3::solver(*zc, "QF_LRA");
  prelude = (void (*)())dlsym(RTLD_DEFAULT, "symi_prelude");
  if (prelude) { pool = new std::unordered_map<Key, S, KeyH>(); pages = new std::unordered_map<uint64_t, Page *>(); if (preludeEnds()) { runPrelude(); prelude = nullptr; } }
  double t0 = nowMs();
  std::deque<Item> queue; queue.push_back({});
  struct Run { pid_t pid; int fd; std::string buf; Item it; double t; Shared *sh; };
  std::vector<Run> runs;
  long paths = 0, done = 0, crashed = 0, timeouts = 0, assumeEnds = 0, boundEnds = 0, spawned = 0;
  std::map<std::string, long> nt; std::set<std::string> fns, rch; std::map<std::string, ChkStat> cks;
  long sat = 0, unsat = 0, unk = 0, norm = 0, maxdec = 0; double sms = 0;
  struct Cand { std::string label, how; MV m; };
  std::vector<Cand> cands; std::map<std::string, int> candCount; std::vector<MV> crashModels, slowModels, pathModels;
  bool truncated = false;
  auto consume = [&](Run &r, bool crash) {
    size_t p = 0; bool ended = false;
    auto get = [&](std::string &s) { if (p + 4 > r.buf.size()) return false; uint32_t n; memcpy(&n, r.buf.data() + p, 4); if (p + 4 + n > r.buf.size()) return false; s = r.buf.substr(p + 4, n); p += 4 + n; return true; };
    std::string k;
    while (get(k)) {
      if (k == "I" || k == "A") { std::string m, d; if (!get(m) || !get(d)) break; Item it; it.m = parseMV(m); it.d = parseDec(d); it.assume = k == "A"; it.retries = r.it.retries + (it.assume ? 1 : 0); if (it.assume && it.retries > 12) { nt["assumption not reached"]++; continue; } if (!it.assume) it.retries = 0; queue.push_back(it); spawned++; }
      else if (k == "V") { std::string l, m, h; if (!get(l) || !get(m) || !get(h)) break; if (candCount[l]++ < 6) cands.push_back({l, h, parseMV(m)}); }
      else if (k == "E") {
        std::string why, a, b, c, d, e, m; if (!get(why) || !get(a) || !get(b) || !get(c) || !get(d) || !get(e) || !get(m)) break;
        ended = true;
        if (why == "done") done++; else if (why == "cut") nt["siblings of a crashed path recovered"]++; else if (why == "slow") { timeouts++; if (slowModels.size() < 4) slowModels.push_back(parseMV(m)); } else if (why == "assume") assumeEnds++; else { boundEnds++; nt["path cut: " + why]++; }
        auto lines = [](const std::string &s, const std::function<void(const std::string &)> &f) { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); f(s.substr(p, e - p)); p = e + 1; } };
        lines(a, [&](const std::string &l) { size_t t = l.rfind('\t'); nt[l.substr(0, t)] += atol(l.c_str() + t + 1); });
        lines(b, [&](const std::string &l) { fns.insert(l); });
        lines(c, [&](const std::string &l) { rch.insert(l); });
        lines(d, [&](const std::string &l) { char nm[512]; long x, y, z, w; size_t t = l.find('\t'); strncpy(nm, l.substr(0, t).c_str(), 511); nm[511] = 0; if (sscanf(l.c_str() + t + 1, "%ld\t%ld\t%ld\t%ld", &x, &y, &z, &w) == 4) { auto &s = cks[nm]; s.proved += x; s.undecided += y; s.violated += z; s.normal += w; } });
        long s1, s2, s3, s5, s6; double s4; if (sscanf(e.c_str(), "%ld %ld %ld %lf %ld %ld", &s1, &s2, &s3, &s4, &s5, &s6) == 6) { sat += s1; unsat += s2; unk += s3; sms += s4; norm += s5; maxdec = std::max(maxdec, s6); }
        if (why == "done" && pathModels.size() < 4000) pathModels.push_back(parseMV(m));
      }
    }
    if (!ended) {
      MV m = r.it.m; for (auto &x : parseMV(std::string(r.sh->text, r.sh->len))) m[x.first] = x.second;
      if (r.it.cuts == 0) { if (crash) { crashed++; if (crashModels.size() < 20) crashModels.push_back(m); } else { timeouts++; if (slowModels.size() < 4) slowModels.push_back(m); } }
      // the alternatives along the crashed path: run up to the last decision (or fewer)
      uint64_t n = r.it.cuts == 0 ? (uint64_t)r.sh->decs : r.it.cuts == 1 ? r.it.stop - 1 : r.it.d.size() + (r.it.stop - r.it.d.size()) / 2;
      if (n > r.it.d.size() && r.it.cuts < 6) { Item it = r.it; it.stop = n; it.cuts++; queue.push_back(it); }
    }
  };
  while (!queue.empty() || !runs.empty()) {
    double el = (nowMs() - t0) / 1000;
    bool stop = el > OPT_BUDGET || paths >= OPT_MAXPATHS;
    if (stop && !queue.empty()) { truncated = true; nt["unexplored work items"] += queue.size(); queue.clear(); }
    while ((int)runs.size() < OPT_JOBS && !queue.empty()) {
      Item it = queue.front(); queue.pop_front();
      int pf[2]; if (pipe(pf)) return 2;
      Shared *sh = (Shared *)mmap(nullptr, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sh == MAP_FAILED) return 2;
      pid_t pid = fork();
      if (pid == 0) { close(pf[0]); for (auto &r : runs) close(r.fd); shared = sh; childRun(it, entry, pf[1]); _exit(0); }
      close(pf[1]); paths++;
      runs.push_back({pid, pf[0], "", it, nowMs(), sh});
    }
    if (runs.empty()) break;
    std::vector<pollfd> pfs; for (auto &r : runs) pfs.push_back({r.fd, POLLIN, 0});
    poll(pfs.data(), pfs.size(), 500);
    for (size_t i = runs.size(); i-- > 0;) {
      if (pfs[i].revents) {
        char b[65536]; ssize_t k = read(runs[i].fd, b, sizeof b);
        if (k > 0) { runs[i].buf.append(b, k); continue; }
        int st; waitpid(runs[i].pid, &st, 0); close(runs[i].fd);
        bool crash = WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL;
        if (WIFEXITED(st) && WEXITSTATUS(st) != 0) crash = true;
        consume(runs[i], crash); munmap(runs[i].sh, SHARED);
        runs.erase(runs.begin() + i);
      } else if (nowMs() - runs[i].t > OPT_PATHSEC * 1500 + 8000 || (el > OPT_BUDGET + 15)) { kill(runs[i].pid, SIGKILL); }
    }
  }
  FILE *o = fopen(outFile.c_str(), "w");
  auto jm = [&](const MV &m) { std::string s = "{"; bool f = true; for (auto &x : m) { if (!f) s += ","; f = false; s += jstr(x.first) + ":" + jstr(x.second); } return s + "}"; };
  fprintf(o, "{\"entry\":%s,\"mode\":\"%s\",\"paths\":%ld,\"completed\":%ld,\"assume_ended\":%ld,\"bound_ended\":%ld,\"crashed\":%ld,\"timeouts\":%ld,\"truncated\":%s,\n", jstr(entryName).c_str(), REAL ? "real" : "fp", paths, done, assumeEnds, boundEnds, crashed, timeouts, truncated ? "true" : "false");
  fprintf(o, "\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"normal_form\":%ld,\"solver_ms\":%.0f,\"wall_ms\":%.0f,\"max_decisions\":%ld,\n", sat, unsat, unk, norm, sms, nowMs() - t0, maxdec);
  auto set2 = [&](const std::set<std::string> &s) { std::string r = "["; bool f = true; for (auto &x : s) { if (!f) r += ","; f = false; r += jstr(x); } return r + "]"; };
  fprintf(o, "\"functions\":%s,\n\"reached\":%s,\n\"notes\":{", set2(fns).c_str(), set2(rch).c_str());
  { bool f = true; for (auto &n : nt) { fprintf(o, "%s%s:%ld", f ? "" : ",", jstr(n.first).c_str(), n.second); f = false; } }
  fprintf(o, "},\n\"checks\":{");
  { bool f = true; for (auto &c : cks) { fprintf(o, "%s%s:{\"proved\":%ld,\"by_normal_form\":%ld,\"undecided\":%ld,\"violated\":%ld}", f ? "" : ",\n", jstr(c.first).c_str(), c.second.proved, c.second.normal, c.second.undecided, c.second.violated); f = false; } }
  fprintf(o, "},\n\"candidates\":[");
  { bool f = true; for (auto &c : cands) { fprintf(o, "%s{\"label\":%s,\"how\":%s,\"model\":%s}", f ? "" : ",\n", jstr(c.label).c_str(), jstr(c.how).c_str(), jm(c.m).c_str()); f = false; } }
  fprintf(o, "],\n\"crash_models\":[");
  { bool f = true; for (auto &c : crashModels) { fprintf(o, "%s%s", f ? "" : ",", jm(c).c_str()); f = false; } }
  fprintf(o, "],\n\"slow_models\":[");
  { bool f = true; for (auto &c : slowModels) { fprintf(o, "%s%s", f ? "" : ",", jm(c).c_str()); f = false; } }
  fprintf(o, "],\n\"path_models\":[");
  { bool f = true; for (auto &c : pathModels) { fprintf(o, "%s%s", f ? "" : ",\n", jm(c).c_str()); f = false; } }
  fprintf(o, "]}\n");
  fclose(o);
  return 0;
}
