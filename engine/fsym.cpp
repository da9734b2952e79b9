// fsym: symbolic executor for LLVM bitcode (C programs), with exact-real, IEEE and abstracted-IEEE floating point domains.
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstring>
#include <complex>
#include <cinttypes>
using namespace llvm;
typedef std::complex<double> cd;
// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<uint64_t> paths, forks, qsat, qunsat, qunk, instrs, solver_us, viol, pruned, asserts, proved, unsupported, infeasible, samples, interval_decided;
  std::atomic<int> stop;
};
static Shared* SH;
static int logfd = -1;
static int tokR = -1, tokW = -1;
static bool holdsToken = false;
static int nparallel = 0;
static double deadline = 0;
static uint64_t maxPaths = 1000000, maxInstr = 400000000, nInstr = 0;
static int maxViol = 10;
static uint64_t maxSamples = 4;
enum FpMode { REAL, IEEE, ABS };
static FpMode mode = REAL;
static bool genericMode = true;
static unsigned rlimitMain = 3000000;
static bool verbose = false;
static double now() { timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void logLine(const std::string& s) { std::string t = s + "\n"; if (logfd >= 0) { ssize_t r = write(logfd, t.data(), t.size()); (void)r; } }
// ------------------------------------------------------------------ values
static z3::context* C;
struct Node { int rc = 0; virtual ~Node() {} };
struct PolyNode : Node { Poly p; };
struct ZNode : Node { z3::expr e; ZNode(z3::expr x) : e(x) {} };
struct Val;
struct AggNode;
enum VK : uint8_t { UNDEF, INT, FP, AGG, SINT, SFP };
struct Val {
  VK k = UNDEF; uint8_t w = 0; union { uint64_t i; double d; }; Node* n = nullptr;
  Val() { i = 0; }
  Val(const Val& o) : k(o.k), w(o.w), i(o.i), n(o.n) { if (n) n->rc++; }
  Val(Val&& o) noexcept : k(o.k), w(o.w), i(o.i), n(o.n) { o.n = nullptr; }
  Val& operator=(const Val& o) { if (o.n) o.n->rc++; drop(); k = o.k; w = o.w; i = o.i; n = o.n; return *this; }
  Val& operator=(Val&& o) noexcept { if (this != &o) { drop(); k = o.k; w = o.w; i = o.i; n = o.n; o.n = nullptr; } return *this; }
  ~Val() { drop(); }
  void drop() { if (n && --n->rc == 0) delete n; n = nullptr; }
  void set(Node* x) { n = x; x->rc++; }
};
struct AggNode : Node { std::vector<Val> v; };
static Val vInt(uint64_t x, int w) { Val v; v.k = INT; v.w = w; v.i = w >= 64 ? x : (x & ((1ULL << w) - 1)); return v; }
static Val vFP(double d) { Val v; v.k = FP; v.d = d; return v; }
static Val vAgg(std::vector<Val> e) { Val v; v.k = AGG; auto* a = new AggNode; a->v = std::move(e); v.set(a); return v; }
static double pruneTol = 0; // --prune: drop terms below this magnitude and round coefficients to doubles (rounding errors are outside the real domain anyway)
static Val vPoly(Poly p) {
  if (pruneTol > 0 && p.t.size() > 1) {
    size_t w = 0;
    for (auto& t : p.t) { double c = t.c.get_d(); Itv b = mBound(t.m); double M = std::max(std::fabs(b.lo), std::fabs(b.hi)) * std::fabs(c); if (M < pruneTol) continue; Term u; u.m = t.m; u.c = mpz_cmp_ui(t.c.get_den_mpz_t(), 1) == 0 ? t.c : mpq_class(c); p.t[w++] = u; }
    p.t.resize(w);
  }
  if (p.isConst()) return vFP(p.constVal().get_d());
  Val v; v.k = SFP; auto* a = new PolyNode; a->p = std::move(p); v.set(a); return v;
}
static Val vZ(z3::expr e) { // symbolic int or IEEE double
  Val v; v.set(new ZNode(e));
  if (e.is_fpa()) v.k = SFP; else if (e.is_bool()) { v.k = SINT; v.w = 1; } else { v.k = SINT; v.w = e.get_sort().bv_size(); }
  return v;
}
static const Poly& polyOf(const Val& v) { return static_cast<PolyNode*>(v.n)->p; }
static z3::expr& zOf(const Val& v) { return static_cast<ZNode*>(v.n)->e; }
static bool isSym(const Val& v) { return v.k == SINT || v.k == SFP; }
static Poly toPoly(const Val& v);
// ------------------------------------------------------------------ inputs / path state
struct Input { std::string name, kind; uint64_t cval = 0; Val sym; double lo = 0, hi = 0; int atom = -1; };
static std::vector<Input> inputs;
struct RCon { Poly p; int op; }; // op: 0 p>=0, 1 p>0, 2 p==0, 3 p!=0
static std::vector<RCon> rpc;
static std::vector<z3::expr>* zpc;
struct AbsDef { z3::expr v, def; };
static std::vector<AbsDef>* absDefs;
static std::set<std::string> reached;
static std::set<const Function*> fnSeen;
static std::vector<std::string> outv;
static std::string curLoc();
static std::vector<const char*> pathNotes;
[[noreturn]] static void finishPath(const char* how);
[[noreturn]] static void unsupported(const std::string& msg);
static void reportViolation(const std::string& kind, const std::string& msg, const std::vector<RCon>& extraR, const std::vector<z3::expr>& extraZ, const Poly* resid = nullptr, double tol = 0);
// ------------------------------------------------------------------ process forking
static bool tryToken() { if (tokR < 0) return false; char c; return read(tokR, &c, 1) == 1; }
static void giveToken() { char c = 'x'; ssize_t r = write(tokW, &c, 1); (void)r; }
static std::vector<pid_t> kids;
static void checkStop() {
  if (SH->stop.load() || now() > deadline || SH->paths.load() > maxPaths) { SH->stop = 1; finishPath("budget"); }
}
// returns index chosen for this process
static size_t forkAlternatives(size_t n) {
  checkStop();
  for (size_t k = 0; k + 1 < n; k++) {
    SH->forks++;
    bool par = tryToken();
    pid_t p = fork();
    if (p < 0) { if (par) giveToken(); unsupported("fork failed"); }
    if (p == 0) { holdsToken = par; kids.clear(); nInstr = 0; return k; }
    if (par) kids.push_back(p);
    else { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) logLine("{\"t\":\"crash\",\"status\":" + std::to_string(st) + "}"); checkStop(); }
  }
  return n - 1;
}
static std::set<const Function*> fnLogged;
static void finishPath(const char* how) {
  SH->instrs += nInstr;
  SH->paths++;
  std::string s = std::string("{\"t\":\"end\",\"how\":\"") + how + "\"";
  if (!reached.empty()) { s += ",\"reach\":["; bool f = true; for (auto& r : reached) { if (!f) s += ","; f = false; s += "\"" + jesc(r) + "\""; } s += "]"; }
  s += ",\"fn\":["; bool f = true;
  for (auto* F : fnSeen) { if (!f) s += ","; f = false; s += "\"" + F->getName().str() + "\""; }
  s += "]}";
  static std::set<std::string>* dummy = nullptr; (void)dummy;
  logLine(s);
  if (holdsToken) { giveToken(); holdsToken = false; }
  for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) logLine("{\"t\":\"crash\",\"status\":" + std::to_string(st) + "}"); }
  _exit(0);
}
static void unsupported(const std::string& msg) {
  SH->unsupported++;
  logLine("{\"t\":\"unsupported\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(curLoc()) + "\"}");
  finishPath("unsupported");
}
// ------------------------------------------------------------------ z3 helpers
static z3::expr ratExpr(const mpq_class& c) { return C->real_val(c.get_str().c_str()); }
static std::map<int, z3::expr>* atomZ;
static z3::expr atomExpr(int a) { auto it = atomZ->find(a); if (it != atomZ->end()) return it->second; z3::expr e = C->real_const(("a" + std::to_string(a)).c_str()); atomZ->emplace(a, e); return e; }
static z3::expr polyExpr(const Poly& p, std::set<int>& used) {
  z3::expr_vector sum(*C);
  for (auto& t : p.t) {
    z3::expr_vector f(*C); if (t.c != 1 || t.m == 0) f.push_back(ratExpr(t.c));
    for (auto& q : monos[t.m].v) { used.insert(q.first); for (int k = 0; k < q.second; k++) f.push_back(atomExpr(q.first)); }
    if (f.size() == 1) sum.push_back(f[0]); else { z3::expr e = f[0]; for (unsigned i = 1; i < f.size(); i++) e = e * f[i]; sum.push_back(e); }
  }
  if (sum.empty()) return C->real_val(0);
  return sum.size() == 1 ? sum[0] : z3::sum(sum);
}
static z3::expr conExpr(const RCon& c, std::set<int>& used) {
  z3::expr e = polyExpr(c.p, used), z = C->real_val(0);
  switch (c.op) { case 0: return e >= z; case 1: return e > z; case 2: return e == z; default: return e != z; }
}
static mpq_class dq(double d) { return mpq_class(d); }
static void addDefs(z3::solver& s, std::set<int>& used) {
  std::set<int> done;
  while (true) {
    std::vector<int> todo; for (int a : used) if (!done.count(a)) todo.push_back(a);
    if (todo.empty()) break;
    for (int a : todo) {
      done.insert(a); Atom& A = atoms[a];
      if (std::isfinite(A.b.lo)) s.add(atomExpr(a) >= ratExpr(dq(A.b.lo)));
      if (std::isfinite(A.b.hi)) s.add(atomExpr(a) <= ratExpr(dq(A.b.hi)));
      z3::expr x = atomExpr(a);
      switch (A.kind) {
        case A_SQRT: s.add(x * x == polyExpr(A.a1, used)); s.add(x >= 0); break;
        case A_CSQ_RE: { z3::expr y = atomExpr(A.partner); used.insert(A.partner); s.add(x * x - y * y == polyExpr(A.a1, used)); s.add(2 * x * y == polyExpr(A.a2, used)); break; }
        case A_COS: { z3::expr y = atomExpr(A.partner); used.insert(A.partner); s.add(x * x + y * y == 1); break; }
        case A_COSH: { z3::expr y = atomExpr(A.partner); used.insert(A.partner); s.add(x * x - y * y == 1); break; }
        case A_INV: s.add(x * polyExpr(A.a1, used) == 1); break;
        default: break;
      }
    }
  }
}
static int runSolver(z3::solver& s) {
  double t0 = now(); z3::check_result r;
  try { r = s.check(); } catch (z3::exception& e) { r = z3::unknown; }
  SH->solver_us += (uint64_t)((now() - t0) * 1e6);
  if (r == z3::sat) { SH->qsat++; return 1; } if (r == z3::unsat) { SH->qunsat++; return 0; } SH->qunk++; return -1;
}
// 1 sat, 0 unsat, -1 unknown
static unsigned rlimitFeas = 400000;
static void closeAtoms(std::set<int>& at) { // add the atoms of the arguments and partners
  std::vector<int> w(at.begin(), at.end());
  while (!w.empty()) { int a = w.back(); w.pop_back(); Atom& A = atoms[a];
    auto addp = [&](const Poly& p) { for (auto& t : p.t) for (auto& q : monos[t.m].v) if (at.insert(q.first).second) w.push_back(q.first); };
    addp(A.a1); addp(A.a2); if (A.partner >= 0 && at.insert(A.partner).second) w.push_back(A.partner); }
}
static int feasR(const RCon& c) {
  // constraints connected to c through shared atoms (dropping the others is a sound relaxation for unsat answers)
  std::set<int> mine; for (auto& t : c.p.t) for (auto& q : monos[t.m].v) mine.insert(q.first);
  closeAtoms(mine);
  z3::solver s(*C, "QF_NRA"); z3::params pr(*C); pr.set("rlimit", rlimitFeas); s.set(pr);
  std::set<int> used; s.add(conExpr(c, used));
  size_t big = c.p.t.size(); std::vector<char> in(rpc.size(), 0);
  for (int round = 0; round < 2; round++) {
    std::set<int> more;
    for (size_t i = 0; i < rpc.size(); i++) { if (in[i] || big + rpc[i].p.t.size() > 400) continue; auto& k = rpc[i];
      std::set<int> ka; for (auto& t : k.p.t) for (auto& q : monos[t.m].v) ka.insert(q.first); closeAtoms(ka);
      bool sh = false; for (int x : ka) if (mine.count(x)) { sh = true; break; }
      if (sh) { in[i] = 1; s.add(conExpr(k, used)); big += k.p.t.size(); more.insert(ka.begin(), ka.end()); } }
    mine.insert(more.begin(), more.end());
  }
  if (c.p.t.size() > 400) return -1;
  addDefs(s, used);
  return runSolver(s);
}
static z3::expr zbool(const Val& v) { z3::expr e = zOf(v); if (e.is_bool()) return e; return e == C->bv_val(1, 1); }
static int feasZ(const z3::expr& c, z3::model* mo = nullptr) {
  z3::solver s(*C); z3::params pr(*C); pr.set("rlimit", rlimitMain); s.set(pr);
  for (auto& e : *zpc) s.add(e);
  s.add(c);
  int r = runSolver(s);
  if (r == 1 && mo) *mo = s.get_model();
  return r;
}
// ------------------------------------------------------------------ deciding conditions
// rewrite a comparison with zero of c*log2(x)+k, c*sqrt(P)+k or c*sqrt(P)+e*sqrt(Q); returns 1/0 if decided, -1 otherwise
static bool singleAtom(const Term& t, AtomKind k, int& at) { if (t.m == 0 || monos[t.m].v.size() != 1 || monos[t.m].v[0].second != 1) return false; at = monos[t.m].v[0].first; return atoms[at].kind == k; }
static Poly simplifyCmp(Poly p) {
  for (int it = 0; it < 3; it++) {
    if (p.t.empty() || p.t.size() > 2) return p;
    int a, b;
    if (p.t[0].m == 0 && p.t.size() == 2) {
      const mpq_class k = p.t[0].c, c = p.t[1].c;
      if (singleAtom(p.t[1], A_LOG2, a)) { double th = std::exp2(-k.get_d() / c.get_d()); if (!std::isfinite(th)) return p; Poly d = pSub(atoms[a].a1, pConst(mpq_class(th))); p = c < 0 ? pScale(d, -1) : d; continue; }
      if (singleAtom(p.t[1], A_SQRT, a)) { if ((k > 0) == (c > 0)) return pConst(c > 0 ? 1 : -1); mpq_class q = k / c; Poly d = pSub(atoms[a].a1, pConst(q * q)); p = c < 0 ? pScale(d, -1) : d; continue; }
      return p;
    }
    if (p.t.size() == 1) { if (singleAtom(p.t[0], A_LOG2, a)) { Poly d = pSub(atoms[a].a1, pConst(1)); p = p.t[0].c < 0 ? pScale(d, -1) : d; continue; } return p; }
    if (singleAtom(p.t[0], A_SQRT, a) && singleAtom(p.t[1], A_SQRT, b) && sgn(p.t[0].c) != sgn(p.t[1].c)) { mpq_class c = p.t[0].c, e = p.t[1].c; Poly d = pSub(pScale(atoms[a].a1, c * c), pScale(atoms[b].a1, e * e)); p = c < 0 ? pScale(d, -1) : d; continue; }
    return p;
  }
  return p;
}
static bool decideR(Poly p, int op) { // truth of "p op 0" (op 0 >=, 1 >, 2 ==, 3 !=); forks if undecided
  p = simplifyCmp(std::move(p));
  if (p.isConst()) { int s = sgn(p.constVal()); return op == 0 ? s >= 0 : op == 1 ? s > 0 : op == 2 ? s == 0 : s != 0; }
  Itv b = pBound(p);
  if (b.lo > 0) { SH->interval_decided++; return op != 2; }
  if (b.hi < 0) { SH->interval_decided++; return op == 3; }
  if (op == 0 && b.lo >= 0) { SH->interval_decided++; return true; }
  if (op == 1 && b.hi <= 0) { SH->interval_decided++; return false; }
  if (genericMode && op >= 2) { SH->pruned++; rpc.push_back({p, 3}); return op == 3; }
  if (genericMode && b.lo >= 0 && op == 1) { SH->pruned++; return true; }
  if (genericMode && b.hi <= 0 && op == 0) { SH->pruned++; return false; }
  { // sign information recorded earlier for the same polynomial, up to a constant factor
    int mask = 7; const mpq_class l = p.t[0].c;
    for (auto& k : rpc) { if (k.p.t.size() != p.t.size() || k.p.t[0].m != p.t[0].m) continue; mpq_class f = k.p.t[0].c / l; bool same = true;
      for (size_t i = 1; i < p.t.size() && same; i++) same = k.p.t[i].m == p.t[i].m && k.p.t[i].c == f * p.t[i].c;
      if (!same) continue; int m = k.op == 0 ? 6 : k.op == 1 ? 4 : k.op == 2 ? 2 : 5; if (f < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); mask &= m; }
    int yes = op == 0 ? 6 : op == 1 ? 4 : op == 2 ? 2 : 5;
    if (mask && (mask & ~yes) == 0) return true; if (mask && (mask & yes) == 0) return false; }
  RCon t{p, op}, f;
  if (op == 0) f = {pScale(p, -1), 1}; else if (op == 1) f = {pScale(p, -1), 0}; else f = {p, op == 2 ? 3 : 2};
  int a = feasR(t), bb = a == 0 ? 1 : feasR(f);
  if (a == 0) { rpc.push_back(f); return false; }
  if (bb == 0) { rpc.push_back(t); return true; }
  size_t ch = forkAlternatives(2);
  rpc.push_back(ch == 0 ? t : f); return ch == 0;
}
static bool decideZ(const z3::expr& c0) {
  z3::expr c = c0.simplify();
  if (c.is_true()) return true; if (c.is_false()) return false;
  int a = feasZ(c); 
  int b = a == 0 ? 1 : feasZ(!c);
  if (a == 0) { zpc->push_back(!c); return false; }
  if (b == 0) { zpc->push_back(c); return true; }
  size_t ch = forkAlternatives(2);
  zpc->push_back(ch == 0 ? c : !c); return ch == 0;
}
static bool decide(const Val& v) { // i1 value
  if (v.k == INT) return v.i & 1;
  if (v.k == UNDEF) { reportViolation("uninit-branch", "branch depends on uninitialised value", {}, {}); finishPath("violation"); }
  return decideZ(zbool(v));
}
static uint64_t concretise(const Val& v) {
  if (v.k == INT) return v.i;
  if (v.k == UNDEF) { reportViolation("uninit-use", "address, size or index depends on uninitialised value", {}, {}); finishPath("violation"); }
  if (v.k != SINT) unsupported("concretise non-int");
  z3::expr e = zOf(v); if (e.is_bool()) return decideZ(e);
  z3::expr s = e.simplify(); if (s.is_numeral()) { uint64_t r; s.is_numeral_u64(r); return r; }
  std::vector<uint64_t> vals;
  z3::solver sv(*C); for (auto& x : *zpc) sv.add(x);
  z3::expr t = C->bv_const("conc!", v.w); sv.add(t == e);
  while (vals.size() < 3000) {
    int r = runSolver(sv); if (r < 0) unsupported("unknown while concretising"); if (r == 0) break;
    z3::model m = sv.get_model(); z3::expr q = m.eval(t, true); uint64_t u = 0; q.is_numeral_u64(u); vals.push_back(u);
    sv.add(t != C->bv_val((uint64_t)u, v.w));
  }
  if (vals.empty()) finishPath("infeasible");
  std::sort(vals.begin(), vals.end());
  size_t ch = forkAlternatives(vals.size());
  zpc->push_back(e == C->bv_val((uint64_t)vals[ch], v.w));
  return vals[ch];
}
// ------------------------------------------------------------------ memory
enum OK : uint8_t { O_STACK, O_HEAP, O_GLOBAL, O_FUNC };
struct SymCell { Val v; uint8_t size; };
struct Obj { uint64_t size = 0; std::vector<uint8_t> d, in; std::map<uint32_t, SymCell>* sym = nullptr; OK kind = O_STACK; bool alive = true, ro = false; std::string site; const Function* fn = nullptr; ~Obj() { delete sym; } };
static std::vector<Obj*> objs;
static const uint64_t BIAS = 0x40000000ULL;
static uint64_t addrOf(uint32_t id, uint64_t off = 0) { return ((uint64_t)id << 32) + BIAS + off; }
static uint32_t newObj(uint64_t size, OK kind) {
  Obj* o = new Obj; o->size = size; o->kind = kind; o->d.resize(size); o->in.assign(size, 0); objs.push_back(o); return objs.size() - 1;
}
static long liveHeap = 0;
[[noreturn]] static void memViol(const char* kind, const std::string& msg) { reportViolation(kind, msg, {}, {}); finishPath("violation"); }
static Obj* derefM(uint64_t a, uint64_t size, uint64_t& off, bool wr) {
  uint32_t id = a >> 32;
  if (id == 0 || id >= objs.size()) memViol("null-deref", a < 0x100000000ULL && a < 4096 ? "null pointer access" : "wild pointer access");
  Obj* o = objs[id];
  if (!o || !o->alive) memViol("use-after-free", wr ? "write to freed object" : "read of freed object");
  if (o->kind == O_FUNC) memViol("oob", "access to function object");
  int64_t so = (int64_t)(a & 0xffffffffULL) - (int64_t)BIAS;
  if (so < 0 || (uint64_t)so + size > o->size) memViol(wr ? "oob-write" : "oob-read", "offset " + std::to_string(so) + " size " + std::to_string(size) + " in object of " + std::to_string(o->size) + " bytes" + (o->site.empty() ? "" : " allocated at " + o->site));
  if (wr && o->ro) memViol("const-write", "write to constant");
  off = so; return o;
}
static void clearSym(Obj* o, uint64_t off, uint64_t size) {
  if (!o->sym || o->sym->empty()) return;
  auto it = o->sym->lower_bound(off >= 8 ? off - 7 : 0);
  while (it != o->sym->end() && it->first < off + size) { if (it->first + it->second.size > off) it = o->sym->erase(it); else ++it; }
}
static const DataLayout* DL;
static void storeVal(uint64_t a, Type* ty, const Val& v);
static Val loadVal(uint64_t a, Type* ty);
static void storeScalar(uint64_t a, unsigned size, const Val& v) {
  uint64_t off; Obj* o = derefM(a, size, off, true);
  clearSym(o, off, size);
  if (v.k == UNDEF) { memset(&o->in[off], 0, size); return; }
  memset(&o->in[off], 1, size);
  if (v.k == INT) memcpy(&o->d[off], &v.i, size > 8 ? 8 : size);
  else if (v.k == FP) { if (size == 8) memcpy(&o->d[off], &v.d, 8); else if (size == 4) { float f = v.d; memcpy(&o->d[off], &f, 4); } else unsupported("store fp size"); }
  else { if (!o->sym) o->sym = new std::map<uint32_t, SymCell>; (*o->sym)[off] = SymCell{v, (uint8_t)size}; }
}
static Val loadScalar(uint64_t a, unsigned size, bool fp, unsigned w) {
  uint64_t off; Obj* o = derefM(a, size, off, false);
  if (o->sym && !o->sym->empty()) {
    auto it = o->sym->lower_bound(off >= 8 ? off - 7 : 0);
    for (; it != o->sym->end() && it->first < off + size; ++it) if (it->first + it->second.size > off) {
      if (it->first == off && it->second.size == size) {
        Val r = it->second.v;
        if (fp && r.k == SFP) return r;
        if (!fp && r.k == SINT) { if (r.w == w || (size == 1 && w <= 8)) { if (r.w != w) { z3::expr e = zOf(r); if (e.is_bool()) e = z3::ite(e, C->bv_val(1, 1), C->bv_val(0, 1)); unsigned ew = e.get_sort().bv_size(); return vZ(ew < w ? z3::zext(e, w - ew) : e.extract(w - 1, 0)); } return r; } }
        if (!fp && r.k == SFP && mode != REAL && w == 64) { return vZ(zOf(r).mk_to_ieee_bv()); }
      } else if (it->second.v.k == SINT && !fp && off >= it->first && off + size <= it->first + it->second.size) {
        unsigned lo = (off - it->first) * 8; z3::expr e = zOf(it->second.v); return vZ(e.extract(lo + size * 8 - 1, lo));
      }
      unsupported("partial access to symbolic memory");
    }
  }
  for (unsigned k = 0; k < size; k++) if (!o->in[off + k]) return Val();
  if (fp) { if (size == 8) { double d; memcpy(&d, &o->d[off], 8); return vFP(d); } if (size == 4) { float f; memcpy(&f, &o->d[off], 4); return vFP(f); } unsupported("load fp size"); }
  uint64_t x = 0; memcpy(&x, &o->d[off], size > 8 ? 8 : size); return vInt(x, w);
}
static void storeVal(uint64_t a, Type* ty, const Val& v) {
  if (ty->isStructTy()) { auto* st = cast<StructType>(ty); auto* sl = DL->getStructLayout(st);
    for (unsigned k = 0; k < st->getNumElements(); k++) storeVal(a + sl->getElementOffset(k), st->getElementType(k), v.k == AGG ? static_cast<AggNode*>(v.n)->v[k] : Val()); return; }
  if (ty->isArrayTy() || ty->isVectorTy()) { Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType(); unsigned n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements(); uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned k = 0; k < n; k++) storeVal(a + k * es, et, v.k == AGG ? static_cast<AggNode*>(v.n)->v[k] : Val()); return; }
  if (ty->isIntegerTy() && ty->getIntegerBitWidth() > 64) unsupported("wide int");
  storeScalar(a, DL->getTypeStoreSize(ty), v);
}
static Val loadVal(uint64_t a, Type* ty) {
  if (ty->isStructTy()) { auto* st = cast<StructType>(ty); auto* sl = DL->getStructLayout(st); std::vector<Val> r;
    for (unsigned k = 0; k < st->getNumElements(); k++) r.push_back(loadVal(a + sl->getElementOffset(k), st->getElementType(k))); return vAgg(r); }
  if (ty->isArrayTy() || ty->isVectorTy()) { Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType(); unsigned n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements(); uint64_t es = DL->getTypeAllocSize(et); std::vector<Val> r;
    for (unsigned k = 0; k < n; k++) r.push_back(loadVal(a + k * es, et)); return vAgg(r); }
  unsigned w = ty->isPointerTy() ? 64 : ty->isIntegerTy() ? ty->getIntegerBitWidth() : 0;
  if (w > 64) unsupported("wide int");
  return loadScalar(a, DL->getTypeStoreSize(ty), ty->isFloatingPointTy(), w);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  uint64_t so, dof; Obj* S = derefM(s, n, so, false); Obj* D = derefM(d, n, dof, true);
  std::vector<uint8_t> bd(S->d.begin() + so, S->d.begin() + so + n), bi(S->in.begin() + so, S->in.begin() + so + n);
  std::vector<std::pair<uint32_t, SymCell>> cells;
  if (S->sym) for (auto it = S->sym->lower_bound(so >= 8 ? so - 7 : 0); it != S->sym->end() && it->first < so + n; ++it) {
    if (it->first + it->second.size <= so) continue;
    if (it->first < so || it->first + it->second.size > so + n) unsupported("memcpy splits symbolic cell");
    cells.push_back({(uint32_t)(it->first - so), it->second});
  }
  clearSym(D, dof, n);
  memcpy(&D->d[dof], bd.data(), n); memcpy(&D->in[dof], bi.data(), n);
  if (!cells.empty()) { if (!D->sym) D->sym = new std::map<uint32_t, SymCell>; for (auto& c : cells) (*D->sym)[dof + c.first] = c.second; }
}
static void freeObj(uint64_t a) {
  if (!a) return;
  uint32_t id = a >> 32;
  if (id == 0 || id >= objs.size() || !objs[id]) memViol("bad-free", "free of wild or stale pointer");
  Obj* o = objs[id];
  if (o->kind != O_HEAP) memViol("bad-free", "free of non-heap pointer");
  if (!o->alive) memViol("double-free", "double free");
  if ((a & 0xffffffffULL) != BIAS) memViol("bad-free", "free of interior pointer");
  o->alive = false; o->d.clear(); o->d.shrink_to_fit(); o->in.clear(); o->in.shrink_to_fit(); delete o->sym; o->sym = nullptr; liveHeap--;
}
static bool allocFailOn = false, allocFailed = false; static uint64_t allocCount = 0;
static uint64_t doAlloc(uint64_t size, bool zero) {
  if (size > 0x20000000ULL) return 0;
  if (allocFailOn && !allocFailed) {
    uint64_t idx = allocCount;
    size_t ch = forkAlternatives(2);
    if (ch == 0) { allocFailed = true; Input in; in.name = "allocfail@" + curLoc(); in.kind = "allocfail"; in.cval = idx; inputs.push_back(in); allocCount++; return 0; }
  }
  if (allocFailOn) allocCount++;
  uint32_t id = newObj(size, O_HEAP); objs[id]->site = curLoc(); if (zero) std::fill(objs[id]->in.begin(), objs[id]->in.end(), 1);
  liveHeap++; return addrOf(id);
}
// ------------------------------------------------------------------ floating point ops
static z3::expr fpv(double d) {
  static z3::sort* fs = nullptr; (void)fs;
  if (std::isnan(d)) return C->fpa_nan(C->fpa_sort<64>());
  uint64_t b; memcpy(&b, &d, 8);
  return z3::expr(*C, Z3_mk_fpa_to_fp_bv(*C, C->bv_val(b, 64), C->fpa_sort<64>()));
}
static z3::expr toZ(const Val& v) { if (v.k == FP) return fpv(v.d); return zOf(v); }
static Poly toPoly(const Val& v) {
  if (v.k == SFP) return polyOf(v);
  if (v.k == FP) { if (!std::isfinite(v.d)) unsupported("non-finite constant in real mode"); return pConst(mpq_class(v.d)); }
  unsupported("toPoly");
}
static std::map<std::string, z3::expr>* absMemo; static int absCnt = 0;
static Val absOp(const std::string& op, std::vector<z3::expr> args, const z3::expr* def) {
  std::string key = op; for (auto& a : args) key += ":" + std::to_string(a.id());
  auto it = absMemo->find(key); if (it != absMemo->end()) return vZ(it->second);
  z3::expr v = C->constant(("abs" + std::to_string(absCnt++)).c_str(), C->fpa_sort<64>());
  absMemo->emplace(key, v);
  static std::vector<z3::expr>* keep = new std::vector<z3::expr>; for (auto& a : args) keep->push_back(a); // keep ids alive
  if (def) absDefs->push_back({v, *def});
  return vZ(v);
}
static Val fpBin(unsigned opc, const Val& a, const Val& b) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  if (a.k == FP && b.k == FP) {
    switch (opc) { case Instruction::FAdd: return vFP(a.d + b.d); case Instruction::FSub: return vFP(a.d - b.d); case Instruction::FMul: return vFP(a.d * b.d); case Instruction::FDiv: return vFP(a.d / b.d); case Instruction::FRem: return vFP(std::fmod(a.d, b.d)); }
  }
  if (mode == REAL) {
    // non-finite constants
    if ((a.k == FP && !std::isfinite(a.d)) || (b.k == FP && !std::isfinite(b.d))) {
      if ((a.k == FP && std::isnan(a.d)) || (b.k == FP && std::isnan(b.d))) return vFP(NAN);
      if (opc == Instruction::FAdd) return a.k == FP ? a : b;
      if (opc == Instruction::FSub) return a.k == FP ? a : vFP(-b.d);
      if (opc == Instruction::FDiv && b.k == FP) return vFP(0);
      unsupported("infinite constant in real mode");
    }
    switch (opc) {
      case Instruction::FAdd: if (a.k == FP && a.d == 0) return b; if (b.k == FP && b.d == 0) return a; return vPoly(pAdd(toPoly(a), toPoly(b)));
      case Instruction::FSub: if (b.k == FP && b.d == 0) return a; return vPoly(pSub(toPoly(a), toPoly(b)));
      case Instruction::FMul: if ((a.k == FP && a.d == 0) || (b.k == FP && b.d == 0)) return vFP(0); if (a.k == FP && a.d == 1) return b; if (b.k == FP && b.d == 1) return a; return vPoly(pMul(toPoly(a), toPoly(b)));
      case Instruction::FDiv: {
        if (b.k == FP) { if (b.d == 0) { reportViolation("fp-div0", "division of a nonzero symbolic value by zero", {}, {}); finishPath("violation"); } return vPoly(pScale(toPoly(a), 1 / mpq_class(b.d))); }
        if (a.k == FP && a.d == 0) return vFP(0);
        const Poly& q = polyOf(b);
        return vPoly(pMul(toPoly(a), rInv(q)));
      }
      case Instruction::FRem: break;
    }
    unsupported("fp op in real mode");
  }
  z3::expr x = toZ(a), y = toZ(b), r(*C);
  switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break;
    default: { return absOp("frem", {x, y}, nullptr); } }
  if (mode == ABS) {
    if ((opc == Instruction::FMul) && ((a.k == FP && a.d == 1))) return b;
    if ((opc == Instruction::FMul || opc == Instruction::FDiv) && (b.k == FP && b.d == 1)) return a;
    bool comm = opc == Instruction::FAdd || opc == Instruction::FMul; (void)comm;
    return absOp("op" + std::to_string(opc), {x, y}, &r);
  }
  return vZ(r);
}
static Val fpNeg(const Val& a) { if (a.k == UNDEF) return a; if (a.k == FP) return vFP(-a.d); if (mode == REAL) return vPoly(pScale(polyOf(a), -1)); return vZ(-zOf(a)); }
static Val boolVal(bool b) { return vInt(b, 1); }
static Val fcmpOp(unsigned pred, const Val& a, const Val& b) {
  if (pred == FCmpInst::FCMP_FALSE) return boolVal(false); if (pred == FCmpInst::FCMP_TRUE) return boolVal(true);
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  bool unord = pred & 8;
  if (a.k == FP && b.k == FP) {
    bool un = std::isnan(a.d) || std::isnan(b.d);
    if (un) return boolVal(unord);
    bool r = ((pred & 1) && a.d == b.d) || ((pred & 2) && a.d > b.d) || ((pred & 4) && a.d < b.d);
    return boolVal(r);
  }
  if (mode == REAL) {
    if ((a.k == FP && std::isnan(a.d)) || (b.k == FP && std::isnan(b.d))) return boolVal(unord);
    unsigned p = pred & 7;
    if (p == 0) return boolVal(false); if (p == 7) return boolVal(true);
    if (a.k == FP && std::isinf(a.d)) return boolVal(a.d > 0 ? (p & 2) : (p & 4));
    if (b.k == FP && std::isinf(b.d)) return boolVal(b.d > 0 ? (p & 4) : (p & 2));
    Poly d = pSub(toPoly(a), toPoly(b));
    switch (p) {
      case 1: return boolVal(decideR(d, 2)); case 6: return boolVal(decideR(d, 3));
      case 2: return boolVal(decideR(d, 1)); case 3: return boolVal(decideR(d, 0));
      case 4: return boolVal(decideR(pScale(d, -1), 1)); case 5: return boolVal(decideR(pScale(d, -1), 0));
    }
  }
  z3::expr x = toZ(a), y = toZ(b);
  z3::expr un = z3::expr(*C, Z3_mk_fpa_is_nan(*C, x)) || z3::expr(*C, Z3_mk_fpa_is_nan(*C, y));
  z3::expr r = C->bool_val(false);
  unsigned p = pred & 7;
  auto eq = [&] { return z3::expr(*C, Z3_mk_fpa_eq(*C, x, y)); }; auto gt = [&] { return z3::expr(*C, Z3_mk_fpa_gt(*C, x, y)); }; auto lt = [&] { return z3::expr(*C, Z3_mk_fpa_lt(*C, x, y)); };
  auto ge = [&] { return z3::expr(*C, Z3_mk_fpa_geq(*C, x, y)); }; auto le = [&] { return z3::expr(*C, Z3_mk_fpa_leq(*C, x, y)); };
  switch (p) { case 0: break; case 1: r = eq(); break; case 2: r = gt(); break; case 3: r = ge(); break; case 4: r = lt(); break; case 5: r = le(); break; case 6: r = gt() || lt(); break; case 7: r = !un; break; }
  if (unord) r = r || un;
  return vZ(r.simplify());
}
static Val fpAbs(const Val& a) {
  if (a.k == UNDEF) return a; if (a.k == FP) return vFP(std::fabs(a.d));
  if (mode == REAL) { if (decideR(polyOf(a), 0)) return a; return vPoly(pScale(polyOf(a), -1)); }
  return vZ(z3::abs(zOf(a)));
}
static Val fpFloor(const Val& a, int kind) { // 0 floor 1 ceil 2 round 3 trunc 4 rint
  if (a.k == UNDEF) return a;
  if (a.k == FP) return vFP(kind == 0 ? std::floor(a.d) : kind == 1 ? std::ceil(a.d) : kind == 2 ? std::round(a.d) : kind == 3 ? std::trunc(a.d) : std::rint(a.d));
  if (mode == REAL) {
    Poly p = polyOf(a); Itv b = pBound(p);
    if (!std::isfinite(b.lo) && !std::isfinite(b.hi)) unsupported("floor of unbounded symbolic value");
    if (!std::isfinite(b.lo) || !std::isfinite(b.hi) || b.hi - b.lo > 300) {
      double off = kind == 2 || kind == 4 ? 0.5 : 0; if (kind == 1 || kind == 3) unsupported("floor of unbounded symbolic value");
      Poly q = pAdd(p, pConst(mpq_class(off)));
      bool up = std::isfinite(b.lo); double n = std::floor((up ? b.lo : b.hi) + off);
      for (int k = 0; k < 60; k++, n += up ? 1 : -1) { if (up ? decideR(pSub(pConst(mpq_class(n + 1)), q), 1) : decideR(pSub(q, pConst(mpq_class(n))), 0)) return vFP(n); }
      unsupported("floor of unbounded symbolic value");
    }
    if (kind == 3) { if (decideR(p, 0)) kind = 0; else kind = 1; }
    double off = kind == 2 || kind == 4 ? 0.5 : 0;
    if (kind == 1) { Val r = fpFloor(vPoly(pScale(p, -1)), 0); return fpNeg(r); }
    Poly q = pAdd(p, pConst(mpq_class(off)));
    double lo = std::floor(b.lo + off), hi = std::floor(b.hi + off);
    for (double n = lo; n < hi; n++) { // q < n+1 ?
      if (decideR(pSub(pConst(mpq_class(n + 1)), q), 1)) return vFP(n);
    }
    return vFP(hi);
  }
  Z3_ast rm = kind == 0 ? Z3_mk_fpa_rtn(*C) : kind == 1 ? Z3_mk_fpa_rtp(*C) : kind == 2 ? Z3_mk_fpa_rna(*C) : kind == 3 ? Z3_mk_fpa_rtz(*C) : Z3_mk_fpa_rne(*C);
  z3::expr rme(*C, rm);
  z3::expr r(*C, Z3_mk_fpa_round_to_integral(*C, rme, zOf(a)));
  if (mode == ABS) return absOp("floor" + std::to_string(kind), {zOf(a)}, &r);
  return vZ(r);
}
static bool hintSqrt(const Poly& p, Poly& r);
static Val fpSqrt(const Val& a) {
  if (a.k == UNDEF) return a; if (a.k == FP) return vFP(std::sqrt(a.d));
  if (mode == REAL) { Poly r; if (hintSqrt(polyOf(a), r)) return vPoly(r); if (!decideR(polyOf(a), 0)) return vFP(NAN); rSqrt(polyOf(a), r); return vPoly(r); }
  z3::expr r = z3::sqrt(zOf(a), z3::expr(*C, Z3_mk_fpa_rne(*C)));
  if (mode == ABS) return absOp("sqrt", {zOf(a)}, &r); return vZ(r);
}
// values proposed by the harness (vf_hint) for results of division, roots and inverse functions; taken only if the defining equation holds up to rounding
static std::vector<std::pair<Poly, Poly>> hints;
static double maxAbs(const Poly& p) { Itv b = pBound(p); double m = std::max(std::fabs(b.lo), std::fabs(b.hi)); if (std::isnan(m)) m = INFINITY; if (m > 1e-11 && m < 1e300) { Poly q = pClearInv(p); if (q.isZero()) return 0; } return m; }
static bool tiny(const Poly& p) { return p.isZero() || maxAbs(p) <= 1e-11; }
static bool hintSqrt(const Poly& p, Poly& r) { for (auto& h : hints) if (h.second.isZero() && pBound(h.first).lo > 1e-3 && tiny(pSub(pMul(h.first, h.first), p))) { r = h.first; return true; } return false; }
static bool hintDiv(const Poly& ar, const Poly& ai, const Poly& br, const Poly& bi, Poly& r, Poly& i) {
  if (hints.empty()) return false;
  bool big = pBound(br).lo > 1e-3 || pBound(br).hi < -1e-3 || pBound(bi).lo > 1e-3 || pBound(bi).hi < -1e-3 || pBound(pAdd(pMul(br, br), pMul(bi, bi))).lo > 1e-6;
  if (!big) return false;
  for (auto& h : hints) if (tiny(pSub(pSub(pMul(h.first, br), pMul(h.second, bi)), ar)) && tiny(pSub(pAdd(pMul(h.first, bi), pMul(h.second, br)), ai))) { r = h.first; i = h.second; return true; }
  return false;
}
static bool hintFun(const std::string& n, const Poly& x, Poly& r) { // atan, atanh
  for (auto& h : hints) if (h.second.isZero()) { Poly c, s;
    if (n == "atan") { Itv b = pBound(h.first); if (!(b.lo > -1.5707 && b.hi < 1.5707)) continue; rCosSin(h.first, c, s); } else rCoshSinh(h.first, c, s);
    if (tiny(pSub(s, pMul(x, c)))) { r = h.first; return true; } }
  return false;
}
static bool hintArg(const Poly& x, const Poly& y, Poly& r) {
  for (auto& h : hints) if (h.second.isZero()) { Itv b = pBound(h.first); if (!(b.lo > -3.1415 && b.hi < 3.1415)) continue; Poly c, s; rCosSin(h.first, c, s);
    if (tiny(pSub(pMul(x, s), pMul(y, c))) && pBound(pAdd(pMul(x, c), pMul(y, s))).lo > 1e-3) { r = h.first; return true; } }
  return false;
}
typedef double (*F1)(double);
static Val fun1(const std::string& n, F1 f, const Val& a) {
  if (a.k == UNDEF) return a; if (a.k == FP) return vFP(f(a.d));
  if (mode != REAL) return absOp(n, {zOf(a)}, nullptr);
  const Poly& p = polyOf(a); Poly c, s;
  if (n == "cos") { rCosSin(p, c, s); return vPoly(c); } if (n == "sin") { rCosSin(p, c, s); return vPoly(s); }
  if (n == "cosh") { rCoshSinh(p, c, s); return vPoly(c); } if (n == "sinh") { rCoshSinh(p, c, s); return vPoly(s); }
  if (n == "tan") { rCosSin(p, c, s); return vPoly(pMul(s, rInv(c))); }
  if (n == "exp") return vPoly(rExp(p));
  if (n == "log2") return vPoly(pAtom(funAtom(A_LOG2, "log2", p)));
  if (n == "log") return vPoly(pAtom(funAtom(A_LOG, "log", p)));
  if (!hints.empty() && (n == "atan" || n == "atanh")) { Poly r; if (hintFun(n, p, r)) return vPoly(r); }
  int at = funAtom(A_FUN, n, p, nullptr, f);
  if (n == "atan" || n == "asinh" || n == "tanh" || n == "atanh" || n == "cbrt") { // monotone
    Itv b = pBound(p); double lo = f(b.lo), hi = f(b.hi); if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
    auto wd = [](double v, double up) { return v + up * (1e-14 * std::fabs(v) + 1e-300); }; atoms[at].b = {wd(lo, -1), wd(hi, 1)}; }
  return vPoly(pAtom(at));
}
struct CV { Val re, im; };
static Val fadd(const Val& a, const Val& b) { return fpBin(Instruction::FAdd, a, b); }
static Val fsub(const Val& a, const Val& b) { return fpBin(Instruction::FSub, a, b); }
static Val fmul(const Val& a, const Val& b) { return fpBin(Instruction::FMul, a, b); }
static Val fdiv(const Val& a, const Val& b) { return fpBin(Instruction::FDiv, a, b); }
static bool isZeroV(const Val& v) { return v.k == FP && v.d == 0; }
static CV cmulV(const CV& a, const CV& b) { return {fsub(fmul(a.re, b.re), fmul(a.im, b.im)), fadd(fmul(a.re, b.im), fmul(a.im, b.re))}; }
static CV cdivV(const CV& a, const CV& b) {
  if (mode == REAL && !hints.empty() && (b.re.k == SFP || b.im.k == SFP)) { Poly r, i; if (hintDiv(toPoly(a.re), toPoly(a.im), toPoly(b.re), toPoly(b.im), r, i)) return {vPoly(r), vPoly(i)}; }
  if (isZeroV(b.im)) return {fdiv(a.re, b.re), fdiv(a.im, b.re)};
  if (isZeroV(b.re)) return {fdiv(a.im, b.im), fdiv(fpNeg(a.re), b.im)};
  Val n = fadd(fmul(b.re, b.re), fmul(b.im, b.im));
  return {fdiv(fadd(fmul(a.re, b.re), fmul(a.im, b.im)), n), fdiv(fsub(fmul(a.im, b.re), fmul(a.re, b.im)), n)};
}
static CV cexpV(const CV& z) {
  Val e = fun1("exp", [](double x) { return std::exp(x); }, z.re);
  if (isZeroV(z.im)) return {e, vFP(0)};
  Val c = fun1("cos", [](double x) { return std::cos(x); }, z.im), s = fun1("sin", [](double x) { return std::sin(x); }, z.im);
  return {fmul(e, c), fmul(e, s)};
}
static CV ccosV(const CV& z) {
  auto C1 = [&](const Val& x) { return fun1("cos", [](double x) { return std::cos(x); }, x); }; auto S1 = [&](const Val& x) { return fun1("sin", [](double x) { return std::sin(x); }, x); };
  auto CH = [&](const Val& x) { return fun1("cosh", [](double x) { return std::cosh(x); }, x); }; auto SHf = [&](const Val& x) { return fun1("sinh", [](double x) { return std::sinh(x); }, x); };
  if (isZeroV(z.im)) return {C1(z.re), vFP(0)};
  if (isZeroV(z.re)) return {CH(z.im), vFP(0)};
  return {fmul(C1(z.re), CH(z.im)), fpNeg(fmul(S1(z.re), SHf(z.im)))};
}
static CV csinV(const CV& z) {
  auto C1 = [&](const Val& x) { return fun1("cos", [](double x) { return std::cos(x); }, x); }; auto S1 = [&](const Val& x) { return fun1("sin", [](double x) { return std::sin(x); }, x); };
  auto CH = [&](const Val& x) { return fun1("cosh", [](double x) { return std::cosh(x); }, x); }; auto SHf = [&](const Val& x) { return fun1("sinh", [](double x) { return std::sinh(x); }, x); };
  if (isZeroV(z.im)) return {S1(z.re), vFP(0)};
  if (isZeroV(z.re)) return {vFP(0), SHf(z.im)};
  return {fmul(S1(z.re), CH(z.im)), fmul(C1(z.re), SHf(z.im))};
}
static CV csqrtV(const CV& z) {
  Poly x = toPoly(z.re), y = toPoly(z.im), r, i;
  // hints first
  size_t before = atoms.size();
  if (csqrtFromHint(x, y, r, i)) return {vPoly(r), vPoly(i)};
  if (tiny(y) && hintSqrt(x, r)) return {vPoly(r), vFP(0)};
  if (y.isZero()) {
    Poly s;
    if (decideR(x, 0)) { rSqrt(x, s); return {vPoly(s), vFP(0)}; }
    rSqrt(pScale(x, -1), s); return {vFP(0), vPoly(s)};
  }
  if (x.isZero()) {
    Poly s; bool pos = decideR(y, 0);
    rSqrt(pScale(pos ? y : pScale(y, -1), mpq_class(1, 2)), s);
    return {vPoly(s), pos ? vPoly(s) : vPoly(pScale(s, -1))};
  }
  (void)before;
  rCsqrt(x, y, r, i); return {vPoly(r), vPoly(i)};
}
// log of a complex number written as c e^A (cos P + i sin P) with P inside (-pi, pi): {log c + A, P}
static bool polarOf(const Poly& x, const Poly& y, CV& out) {
  if (x.t.empty() || x.t.size() != y.t.size() || x.t.size() > 2) return false;
  int ca = -1, sa = -1; Poly R1, R2;
  auto strip = [](const Poly& p, AtomKind k, int& at, Poly& r) { for (auto& t : p.t) { int f = -1; std::vector<std::pair<int,int>> rest; for (auto& q : monos[t.m].v) if (atoms[q.first].kind == k && q.second == 1 && f < 0) f = q.first; else rest.push_back(q);
      if (f < 0 || (at >= 0 && f != at)) return false; at = f; Poly one; one.t.push_back({monoOf(rest), t.c}); r = pAdd(r, one); } return true; };
  if (!strip(x, A_COS, ca, R1) || !strip(y, A_SIN, sa, R2) || !pSub(atoms[ca].a1, atoms[sa].a1).isZero()) return false;
  bool neg = !pSub(R1, R2).isZero(); if (neg && !pAdd(R1, R2).isZero()) return false;
  Poly P = atoms[ca].a1; if (neg) P = pScale(P, -1); Itv b = pBound(P); if (!(b.lo > -M_PI && b.hi < M_PI)) return false;
  mpq_class c; Poly A;
  if (R1.isConst()) c = R1.constVal();
  else { if (R1.t.size() != 2) return false; int h, g; const Term *tc = &R1.t[0], *ts = &R1.t[1]; if (!singleAtom(*tc, A_COSH, h)) std::swap(tc, ts); if (!singleAtom(*tc, A_COSH, h) || !singleAtom(*ts, A_SINH, g)) return false;
    if (!pSub(atoms[h].a1, atoms[g].a1).isZero() || (tc->c != ts->c && tc->c != -ts->c)) return false; c = tc->c; A = tc->c == ts->c ? atoms[h].a1 : pScale(atoms[h].a1, -1); }
  if (c <= 0) return false;
  out = {vPoly(pAdd(pConst(mpq_class(std::log(c.get_d()))), A)), vPoly(P)}; return true;
}
static Val hypotV(const Val& a, const Val& b) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  if (a.k == FP && b.k == FP) return vFP(std::hypot(a.d, b.d));
  if (isZeroV(b)) return fpAbs(a); if (isZeroV(a)) return fpAbs(b);
  if (mode != REAL) return absOp("hypot", {toZ(a), toZ(b)}, nullptr);
  Poly x = toPoly(a), y = toPoly(b), r; Poly n = pAdd(pMul(x, x), pMul(y, y));
  if (!hintSqrt(n, r)) rSqrt(n, r);
  return vPoly(r);
}
// ------------------------------------------------------------------ decoded program
struct Opd { int reg = -1; Val c; };
struct DInst { const Instruction* I; unsigned opc; int dst = -1; std::vector<Opd> ops; unsigned aux = 0; Type* ty = nullptr; const Function* callee = nullptr; int ext = -1;
  int64_t gepOff = 0; std::vector<std::pair<int, uint64_t>> gepIdx; /*operand index, scale*/ std::vector<int> succ; std::string* extName = nullptr; std::vector<unsigned> idx; };
struct DBlock { std::vector<DInst> ins; std::vector<std::pair<int, std::map<int, Opd>>> phis; };
struct DFunc { const Function* F; std::vector<DBlock> blocks; unsigned nregs = 0; std::vector<int> argRegs; };
static std::unordered_map<const Function*, DFunc*> dfuncs;
static std::unordered_map<const GlobalValue*, uint32_t> gobj;
static std::unordered_map<uint32_t, const Function*> funcOfObj;
struct Frame { const Function* F; const DInst* cur; std::vector<uint32_t> allocas; };
static std::vector<Frame*> stack;
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  if (auto& dl = I->getDebugLoc()) { std::string f = dl->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(dl.getLine()); }
  return I->getFunction()->getName().str();
}
static std::string curLoc() {
  // innermost location
  for (int i = (int)stack.size() - 1; i >= 0; i--) if (stack[i]->cur) { return locOf(stack[i]->cur->I) + " in " + stack[i]->F->getName().str(); }
  return "?";
}
static std::string backtrace() { std::string s; for (int i = (int)stack.size() - 1; i >= 0 && i > (int)stack.size() - 8; i--) if (stack[i]->cur) { if (!s.empty()) s += " < "; s += locOf(stack[i]->cur->I); } return s; }
static Val constVal(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g) {
  auto it = gobj.find(g); if (it != gobj.end()) return addrOf(it->second);
  uint32_t id;
  if (auto* F = dyn_cast<Function>(g)) { id = newObj(1, O_FUNC); funcOfObj[id] = F; gobj[g] = id; return addrOf(id); }
  if (auto* A = dyn_cast<GlobalAlias>(g)) { uint64_t a = globalAddr(cast<GlobalValue>(A->getAliasee())); return a; }
  auto* V = cast<GlobalVariable>(g);
  id = newObj(DL->getTypeAllocSize(V->getValueType()), O_GLOBAL); gobj[g] = id; objs[id]->site = g->getName().str();
  std::fill(objs[id]->in.begin(), objs[id]->in.end(), 1);
  if (V->hasInitializer()) {
    const Constant* in = V->getInitializer();
    if (!in->isNullValue() && !isa<UndefValue>(in)) storeVal(addrOf(id), V->getValueType(), constVal(in));
    std::fill(objs[id]->in.begin(), objs[id]->in.end(), 1);
  }
  objs[id]->ro = V->isConstant();
  return addrOf(id);
}
static Val zeroOf(Type* t) {
  if (t->isIntegerTy()) return vInt(0, t->getIntegerBitWidth()); if (t->isPointerTy()) return vInt(0, 64); if (t->isFloatingPointTy()) return vFP(0);
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> r; for (auto* e : st->elements()) r.push_back(zeroOf(e)); return vAgg(r); }
  if (t->isArrayTy()) { std::vector<Val> r(t->getArrayNumElements(), zeroOf(t->getArrayElementType())); return vAgg(r); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r(vt->getNumElements(), zeroOf(vt->getElementType())); return vAgg(r); }
  return Val();
}
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return Val(); return vInt(ci->getZExtValue(), ci->getBitWidth()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return vFP(f.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return vInt(0, 64);
  if (isa<UndefValue>(c)) return Val();
  if (c->isNullValue()) return zeroOf(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) return vInt(globalAddr(g), 64);
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> r; for (unsigned k = 0; k < a->getNumOperands(); k++) r.push_back(constVal(a->getOperand(k))); return vAgg(r); }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> r; for (unsigned k = 0; k < a->getNumElements(); k++) r.push_back(constVal(a->getElementAsConstant(k))); return vAgg(r); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) { Val b = constVal(cast<Constant>(gep->getPointerOperand())); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) unsupported("const gep"); return vInt(b.i + off.getSExtValue(), 64); }
    if (ce->isCast()) { Val v = constVal(ce->getOperand(0)); if (ce->getType()->isIntegerTy()) return vInt(v.i, ce->getType()->getIntegerBitWidth()); if (ce->getType()->isPointerTy()) return vInt(v.i, 64); }
    unsupported("constant expression");
  }
  unsupported("constant kind");
}
static DFunc* decode(const Function* F) {
  auto it = dfuncs.find(F); if (it != dfuncs.end()) return it->second;
  DFunc* D = new DFunc; D->F = F; dfuncs[F] = D;
  std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, int> bb;
  for (auto& a : F->args()) { reg[&a] = D->nregs; D->argRegs.push_back(D->nregs++); }
  int nb = 0; for (auto& B : *F) { bb[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = D->nregs++; }
  auto opd = [&](const Value* v) { Opd o; auto r = reg.find(v); if (r != reg.end()) o.reg = r->second; else if (auto* c = dyn_cast<Constant>(v)) o.c = constVal(c); return o; };
  for (auto& B : *F) {
    D->blocks.emplace_back(); DBlock& K = D->blocks.back();
    for (auto& I : B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) { std::map<int, Opd> m; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) m[bb[ph->getIncomingBlock(k)]] = opd(ph->getIncomingValue(k)); K.phis.push_back({reg[&I], m}); continue; }
      DInst d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType(); if (!I.getType()->isVoidTy()) d.dst = reg[&I];
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(cb)) continue;
        for (unsigned k = 0; k < cb->arg_size(); k++) d.ops.push_back(isa<MetadataAsValue>(cb->getArgOperand(k)) ? Opd() : opd(cb->getArgOperand(k)));
        d.callee = cb->getCalledFunction();
        if (!d.callee) { if (isa<InlineAsm>(cb->getCalledOperand())) {} else d.ops.push_back(opd(cb->getCalledOperand())); }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) d.ops.push_back(opd(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.succ.push_back(bb[br->getSuccessor(k)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(opd(sw->getCondition())); d.succ.push_back(bb[sw->getDefaultDest()]);
        for (auto& cs : sw->cases()) { d.gepIdx.push_back({bb[cs.getCaseSuccessor()], cs.getCaseValue()->getZExtValue()}); }
      } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opd(gep->getPointerOperand()));
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          Value* ix = gi.getOperand();
          if (auto* st = gi.getStructTypeOrNull()) { d.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) d.gepOff += ci->getSExtValue() * (int64_t)sc; else { d.gepIdx.push_back({(int)d.ops.size(), sc}); d.ops.push_back(opd(ix)); } }
        }
      } else {
        for (auto& u : I.operands()) if (!isa<BasicBlock>(u)) d.ops.push_back(opd(u));
        if (auto* al = dyn_cast<AllocaInst>(&I)) d.ty = al->getAllocatedType();
        if (auto* st = dyn_cast<StoreInst>(&I)) d.ty = st->getValueOperand()->getType();
        if (auto* cm = dyn_cast<CmpInst>(&I)) d.aux = cm->getPredicate();
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) d.idx.assign(ev->idx_begin(), ev->idx_end());
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) d.idx.assign(iv->idx_begin(), iv->idx_end());
      }
      K.ins.push_back(std::move(d));
    }
  }
  return D;
}
// ------------------------------------------------------------------ violations
static std::string dhex(double d) { uint64_t b; memcpy(&b, &d, 8); char buf[64]; snprintf(buf, sizeof buf, "%016" PRIx64, b); return buf; }
static bool evalConds(const std::vector<RCon>& cs, std::vector<long double>& av, std::vector<char>& kn) {
  for (auto& c : cs) { double v = pEval(c.p, av, kn); bool ok = c.op == 0 ? v >= 0 : c.op == 1 ? v > 0 : c.op == 2 ? std::fabs(v) < 1e-9 : v != 0; if (!ok || std::isnan(v)) return false; }
  return true;
}
static double urand(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * (1.0 / 9007199254740992.0); }
// find numeric values of the real variables satisfying the path (and with |resid|>tol if given)
static bool findReal(const std::vector<RCon>& extra, const Poly* resid, double tol, std::map<int, double>& out, const std::map<int, double>* fixed = nullptr) {
  std::vector<int> vars; for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == A_VAR) vars.push_back(i);
  uint64_t s = 88172645463325252ULL; bool have = false; double best = -1;
  int N = resid ? 300 : 4000;
  for (int it = 0; it < N; it++) {
    std::vector<long double> av(atoms.size(), 0); std::vector<char> kn(atoms.size(), 0); std::map<int, double> pt;
    for (int v : vars) {
      double lo = atoms[v].b.lo, hi = atoms[v].b.hi; if (!std::isfinite(lo)) lo = -10; if (!std::isfinite(hi)) hi = 10;
      double u = urand(s); double x; int md = it % 4;
      if (fixed && it == 0 && fixed->count(v)) x = fixed->at(v);
      else if (md == 3) x = u < 0.33 ? lo : u < 0.66 ? hi : (lo + hi) / 2; else x = lo + (hi - lo) * u;
      if (md == 2 && lo <= 0 && hi >= 0 && urand(s) < 0.3) x = 0;
      pt[v] = x; av[v] = x; kn[v] = 1;
    }
    if (!evalConds(rpc, av, kn) || !evalConds(extra, av, kn)) continue;
    if (resid) { double r = std::fabs(pEval(*resid, av, kn)); if (std::isnan(r)) r = INFINITY; if (r > tol && r > best) { best = r; out = pt; have = true; } }
    else { out = pt; return true; }
  }
  return have;
}
static std::string inputsJson(const std::map<int, double>& rv, z3::model* m) {
  std::string s = "["; bool f = true;
  for (auto& in : inputs) {
    if (!f) s += ","; f = false;
    std::string val;
    if (in.kind == "choice" || in.kind == "allocfail") val = std::to_string(in.cval);
    else if (in.kind == "int") { uint64_t u = in.cval; if (in.sym.k == SINT && m) { z3::expr e = m->eval(zOf(in.sym), true); e.is_numeral_u64(u); } val = std::to_string(u); }
    else { // double
      double d = in.lo;
      if (in.atom >= 0) { auto it = rv.find(in.atom); d = it != rv.end() ? it->second : (in.lo + in.hi) / 2; }
      else if (in.sym.k == SFP && m) {
        z3::expr bv = m->eval(z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, zOf(in.sym))), true).simplify(); uint64_t u = 0;
        if (!bv.is_numeral_u64(u) || m->eval(z3::expr(*C, Z3_mk_fpa_is_nan(*C, zOf(in.sym))), true).is_true()) u = 0x7ff8000000000000ULL; // the bit pattern of a NaN is unspecified
        memcpy(&d, &u, 8);
      } else if (in.sym.k == FP) d = in.sym.d;
      val = dhex(d);
    }
    s += "[\"" + in.kind + "\",\"" + jesc(in.name) + "\",\"" + val + "\"]";
  }
  return s + "]";
}
static int getModelZ(const std::vector<z3::expr>& extra, z3::model& m, bool refine) {
  z3::solver s(*C); z3::params pr(*C); pr.set("rlimit", refine ? 20000000u : rlimitMain); s.set(pr);
  for (auto& e : *zpc) s.add(e); for (auto& e : extra) s.add(e);
  if (refine) for (auto& d : *absDefs) s.add(d.v == d.def);
  int r = runSolver(s); if (r == 1) m = s.get_model(); return r;
}
static void emitRecord(const std::string& t, const std::string& kind, const std::string& msg, const std::string& ins, const std::string& extra) {
  std::string o; if (!outv.empty()) { o = ",\"outs\":["; for (size_t i = 0; i < outv.size(); i++) { if (i) o += ","; o += outv[i]; } o += "]"; }
  logLine("{\"t\":\"" + t + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(curLoc()) + "\",\"bt\":\"" + jesc(backtrace()) + "\",\"inputs\":" + ins + extra + o + "}");
}
static void reportViolation(const std::string& kind, const std::string& msg, const std::vector<RCon>& extraR, const std::vector<z3::expr>& extraZ, const Poly* resid, double tol) {
  SH->viol++;
  z3::model m(*C); bool hm = false; std::string extra;
  if (!zpc->empty() || !extraZ.empty()) {
    bool ref = !absDefs->empty();
    int r = ref ? getModelZ(extraZ, m, true) : -1;
    if (ref && r == 0) { emitRecord("spurious", kind, msg, "[]", ""); return; }
    if (r == 1) extra = ",\"refined\":true";
    if (r != 1) r = getModelZ(extraZ, m, false);
    if (r == 0) { SH->viol--; return; } // path infeasible
    hm = r == 1;
    if (r != 1) extra = ",\"nomodel\":true";
  }
  std::map<int, double> rv;
  if (!atoms.empty()) {
    std::map<int, double> z3pt; bool hp = false;
    // first the solver: nonlinear real arithmetic over the atoms, for small residuals
    if (resid && resid->t.size() < 150) {
      z3::solver s(*C, "QF_NRA"); z3::params pr(*C); pr.set("rlimit", 3000000u); s.set(pr);
      std::set<int> used; z3::expr e = polyExpr(*resid, used); z3::expr T = ratExpr(mpq_class(tol)); s.add(e > T || e < -T);
      for (auto& c : rpc) if (c.p.t.size() < 60) s.add(conExpr(c, used));
      addDefs(s, used);
      int r = runSolver(s);
      if (r == 0) { SH->proved++; SH->viol--; return; }
      if (r == 1) { z3::model mm = s.get_model(); for (int a : used) if (atoms[a].kind == A_VAR) { std::string d = mm.eval(atomExpr(a), true).get_decimal_string(17); z3pt[a] = atof(d.c_str()); hp = true; } extra += ",\"nra\":true"; }
    }
    bool ok = findReal(extraR, resid, tol, rv, hp ? &z3pt : nullptr);
    if (!ok) { if (hp) rv = z3pt; else { emitRecord("candidate", kind, msg, "[]", ",\"nowitness\":true" + std::string(resid ? ",\"resid\":\"" + jesc(pStr(*resid)) + "\"" : "")); return; } }
  }
  if (resid) extra += ",\"resid\":\"" + jesc(pStr(*resid, 5)) + "\"";
  emitRecord("violation", kind, msg, inputsJson(rv, hm ? &m : nullptr), extra);
  if (SH->viol.load() >= (uint64_t)maxViol) SH->stop = 1;
}
static void endOk() {
  uint64_t n = SH->samples.load();
  if (n < maxSamples && SH->samples.compare_exchange_strong(n, n + 1)) {
    z3::model m(*C); bool hm = false, ok = true; std::map<int, double> rv;
    if (!zpc->empty()) { int r = getModelZ({}, m, !absDefs->empty() && absDefs->size() < 400); if (r != 1 && !absDefs->empty()) ok = false; else if (r != 1) ok = false; hm = r == 1; }
    if (ok && !atoms.empty()) ok = findReal({}, nullptr, 0, rv);
    if (ok) emitRecord("sample", "", "", inputsJson(rv, hm ? &m : nullptr), ""); else SH->samples--;
  }
  finishPath("ok");
}
static void assertVal(const Val& v, const std::string& msg) {
  SH->asserts++;
  if (v.k == UNDEF) { reportViolation("uninit-assert", msg, {}, {}); finishPath("violation"); }
  if (v.k == INT) { if (!v.i) { reportViolation("assert", msg, {}, {}); finishPath("violation"); } SH->proved++; return; }
  z3::expr e = zOf(v); z3::expr c = e.is_bool() ? e : (e != C->bv_val(0, v.w));
  int r = feasZ(!c);
  if (r == 0) { SH->proved++; return; }
  if (r == 1) { reportViolation("assert", msg, {}, {!c}); }
  else { SH->unsupported++; logLine("{\"t\":\"unsupported\",\"msg\":\"solver unknown on assertion: " + jesc(msg) + "\",\"loc\":\"\"}"); }
  if (feasZ(c) == 0) finishPath("violation");
  zpc->push_back(c);
}
static void assertClose(const Val& a, const Val& b, double tol, const std::string& msg) {
  SH->asserts++;
  if (a.k == UNDEF || b.k == UNDEF) { reportViolation("uninit-assert", msg, {}, {}); finishPath("violation"); }
  if (a.k == FP && b.k == FP) {
    bool ok = (a.d == b.d) || std::fabs(a.d - b.d) <= tol || (std::isnan(a.d) && std::isnan(b.d));
    if (!ok) { reportViolation("close", msg + " (" + std::to_string(a.d) + " vs " + std::to_string(b.d) + ")", {}, {}); return; }
    SH->proved++; return;
  }
  if (mode != REAL) {
    z3::expr x = toZ(a), y = toZ(b); z3::expr bothnan = z3::expr(*C, Z3_mk_fpa_is_nan(*C, x)) && z3::expr(*C, Z3_mk_fpa_is_nan(*C, y));
    z3::expr d = z3::abs(x - y); z3::expr ok = (x == y) || bothnan || z3::expr(*C, Z3_mk_fpa_eq(*C, x, y)) || z3::expr(*C, Z3_mk_fpa_leq(*C, d, fpv(tol)));
    if (tol == 0) ok = (x == y) || bothnan || z3::expr(*C, Z3_mk_fpa_eq(*C, x, y));
    assertVal(vZ(ok), msg); SH->asserts--; return;
  }
  if ((a.k == FP && !std::isfinite(a.d)) || (b.k == FP && !std::isfinite(b.d))) { reportViolation("close", msg + " (non-finite)", {}, {}); return; }
  Poly raw = pSub(toPoly(a), toPoly(b)); if (raw.isZero()) { SH->proved++; return; }
  Poly d = pClearInv(raw);
  // linear abstraction over monomials; the tiny ones are lumped into one slack variable
  double T = tol, slack = 0; std::vector<const Term*> big; size_t n = d.t.size(); bool inf = false;
  for (auto& t : d.t) { Itv m = mBound(t.m); double M = std::max(std::fabs(m.lo), std::fabs(m.hi)) * std::fabs(t.c.get_d()); if (std::isnan(M)) M = INFINITY; if (M <= T / (10.0 * n)) slack += M; else { big.push_back(&t); if (std::isinf(M)) inf = true; } }
  (void)inf;
  bool proved = false;
  {
    z3::solver s(*C, "QF_LRA"); z3::expr_vector sum(*C); z3::expr sl = C->real_const("slack"); sum.push_back(sl);
    s.add(sl <= ratExpr(mpq_class(slack * 1.0000001))); s.add(sl >= ratExpr(mpq_class(-slack * 1.0000001)));
    int cnt = 0;
    if (big.size() <= 3000) {
      for (auto* t : big) { if (t->m == 0) { sum.push_back(ratExpr(t->c)); continue; }
        z3::expr x = C->real_const(("m" + std::to_string(cnt++)).c_str()); Itv m = mBound(t->m); if (std::isfinite(m.lo)) s.add(x >= ratExpr(mpq_class(m.lo))); if (std::isfinite(m.hi)) s.add(x <= ratExpr(mpq_class(m.hi))); sum.push_back(ratExpr(t->c) * x); }
      z3::expr tot = z3::sum(sum); z3::expr TT = ratExpr(mpq_class(T)); s.add(tot > TT || tot < -TT);
      proved = runSolver(s) == 0;
    }
  }
  if (proved) { SH->proved++; return; }
  if (getenv("FSYM_DEBUG")) { double M = 0; for (auto& t : d.t) { Itv m = mBound(t.m); M = std::max(M, std::max(std::fabs(m.lo), std::fabs(m.hi)) * std::fabs(t.c.get_d())); } fprintf(stderr, "close: %zu terms, raw %zu, max term %g: %s\n  raw: %s\n", d.t.size(), raw.t.size(), M, pStr(d, 6).c_str(), pStr(raw, 12).c_str()); for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == A_INV) fprintf(stderr, "   inv#%zu of %s in [%g,%g]\n", i, pStr(atoms[i].a1, 8).c_str(), atoms[i].b.lo, atoms[i].b.hi); }
  reportViolation("close", msg, {}, {}, &raw, tol);
}
// ------------------------------------------------------------------ external functions
static Val callFunction(const Function* F, std::vector<Val>& args);
static std::string cstr(const Val& v) {
  if (v.k != INT || !v.i) return ""; uint32_t id = v.i >> 32; if (id == 0 || id >= objs.size() || !objs[id]->alive) return ""; int64_t off = (int64_t)(v.i & 0xffffffff) - BIAS; std::string s;
  for (; off >= 0 && off < (int64_t)objs[id]->size && objs[id]->d[off]; off++) s += objs[id]->d[off]; return s;
}
static Val cplx(const CV& c) { return vAgg({c.re, c.im}); }
static cd ccv(const std::vector<Val>& a, int i) { return cd(a[i].d, a[i + 1].d); }
static bool anyUndef(const std::vector<Val>& a) { for (auto& v : a) if (v.k == UNDEF) return true; return false; }
static bool allConc(const std::vector<Val>& a) { for (auto& v : a) if (v.k != FP && v.k != INT) return false; return true; }
extern "C" { double _Complex ccos(double _Complex); double _Complex csin(double _Complex); double _Complex cexp(double _Complex); double _Complex csqrt(double _Complex); double _Complex clog(double _Complex); double _Complex cpow(double _Complex, double _Complex); double _Complex ctan(double _Complex); double _Complex ccosh(double _Complex); double _Complex csinh(double _Complex); double cabs(double _Complex); double carg(double _Complex); double _Complex ctanh(double _Complex); double _Complex cacos(double _Complex); double _Complex catan(double _Complex); double _Complex casin(double _Complex);
double _Complex __muldc3(double, double, double, double); double _Complex __divdc3(double, double, double, double); }
static Val fromC(double _Complex z) { return cplx({vFP(__real__ z), vFP(__imag__ z)}); }
static double _Complex mkc(double a, double b) { double _Complex z; __real__ z = a; __imag__ z = b; return z; }
typedef double _Complex (*FC)(double _Complex);
static const std::map<std::string, FC> cfun = {{"ccos", ccos}, {"csin", csin}, {"cexp", cexp}, {"csqrt", csqrt}, {"clog", clog}, {"ctan", ctan}, {"ccosh", ccosh}, {"csinh", csinh}, {"ctanh", ctanh}, {"cacos", cacos}, {"casin", casin}, {"catan", catan}};
static const std::map<std::string, F1> rfun = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"exp", exp}, {"log", log}, {"log2", log2}, {"log10", log10}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"atan", atan}, {"asin", asin}, {"acos", acos}, {"exp2", exp2}, {"cbrt", cbrt}, {"acosh", acosh}, {"asinh", asinh}, {"atanh", atanh}, {"erf", erf}, {"tgamma", tgamma}, {"lgamma", lgamma}, {"expm1", expm1}, {"log1p", log1p}};
static uint64_t heapMarkCtr = 0;
static uint64_t jumpCtr;
static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static Val retZero(Type* t) { return t->isVoidTy() ? Val() : zeroOf(t); }
static std::string fmtd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static Val externalCall(const DInst& d, const Function* F, std::vector<Val>& a) {
  std::string n = F->getName().str();
  Type* rt = d.I->getType();
  if (startsWith(n, "llvm.")) {
    if (startsWith(n, "llvm.lifetime") || startsWith(n, "llvm.dbg") || startsWith(n, "llvm.va_") || startsWith(n, "llvm.assume") || startsWith(n, "llvm.experimental") || startsWith(n, "llvm.stackrestore")) return Val();
    if (startsWith(n, "llvm.stacksave")) return vInt(0, 64);
    if (startsWith(n, "llvm.memcpy") || startsWith(n, "llvm.memmove")) { uint64_t dst = concretise(a[0]), src = concretise(a[1]), len = concretise(a[2]); memCopy(dst, src, len); return Val(); }
    if (startsWith(n, "llvm.memset")) { uint64_t dst = concretise(a[0]), len = concretise(a[2]); if (!len) return Val(); uint64_t off; Obj* o = derefM(dst, len, off, true); clearSym(o, off, len); if (a[1].k == UNDEF) { memset(&o->in[off], 0, len); return Val(); } memset(&o->d[off], (int)concretise(a[1]), len); memset(&o->in[off], 1, len); return Val(); }
    if (startsWith(n, "llvm.fabs")) return fpAbs(a[0]);
    if (startsWith(n, "llvm.floor")) return fpFloor(a[0], 0); if (startsWith(n, "llvm.ceil")) return fpFloor(a[0], 1); if (startsWith(n, "llvm.round.")) return fpFloor(a[0], 2); if (startsWith(n, "llvm.trunc")) return fpFloor(a[0], 3); if (startsWith(n, "llvm.rint") || startsWith(n, "llvm.nearbyint")) return fpFloor(a[0], 4);
    if (startsWith(n, "llvm.sqrt")) return fpSqrt(a[0]);
    if (startsWith(n, "llvm.threadlocal.address") || startsWith(n, "llvm.expect")) return a[0];
    if (startsWith(n, "llvm.fmuladd") || startsWith(n, "llvm.fma")) return fadd(fmul(a[0], a[1]), a[2]);
    if (startsWith(n, "llvm.objectsize")) return vInt(~0ULL, 64);
    if (startsWith(n, "llvm.is.fpclass")) {
      uint64_t mask = a[1].i; if (a[0].k == UNDEF) return Val();
      if (a[0].k == FP) { double x = a[0].d; unsigned c; switch (std::fpclassify(x)) { case FP_NAN: c = 3; break; case FP_INFINITE: c = std::signbit(x) ? 4 : 512; break; case FP_NORMAL: c = std::signbit(x) ? 8 : 256; break; case FP_SUBNORMAL: c = std::signbit(x) ? 16 : 128; break; default: c = std::signbit(x) ? 32 : 64; } return boolVal(c & mask); }
      if (mode == REAL) { unsigned m = mask & 0x3ff; bool fin = (m & 0x1f8) == 0x1f8; bool none = (m & 0x1f8) == 0; if (fin) return boolVal(true); if (none) return boolVal(false); unsupported("is.fpclass in real mode"); }
      z3::expr x = zOf(a[0]); z3::expr neg(*C, Z3_mk_fpa_is_negative(*C, x)), r = C->bool_val(false);
      auto add = [&](unsigned mn, unsigned mp, Z3_ast q) { z3::expr e(*C, q); if ((mask & mn) && (mask & mp)) r = r || e; else if (mask & mn) r = r || (e && neg); else if (mask & mp) r = r || (e && !neg); };
      if (mask & 3) r = r || z3::expr(*C, Z3_mk_fpa_is_nan(*C, x));
      add(4, 512, Z3_mk_fpa_is_infinite(*C, x)); add(8, 256, Z3_mk_fpa_is_normal(*C, x)); add(16, 128, Z3_mk_fpa_is_subnormal(*C, x)); add(32, 64, Z3_mk_fpa_is_zero(*C, x));
      return vZ(r);
    }
    if (startsWith(n, "llvm.umax") || startsWith(n, "llvm.umin") || startsWith(n, "llvm.smax") || startsWith(n, "llvm.smin") || startsWith(n, "llvm.abs")) {
      if (a[0].k == UNDEF || a[1].k == UNDEF) return Val();
      if (a[0].k != INT || (a[1].k != INT)) { z3::expr x = zOf(a[0]); if (startsWith(n, "llvm.abs")) return vZ(z3::ite(x < 0, -x, x)); z3::expr y = zOf(a[1]); if (!x.is_bv() || !y.is_bv()) unsupported(n);
        z3::expr ge = startsWith(n, "llvm.u") ? z3::uge(x, y) : x >= y; bool mx = n[6] == 'm' && n[7] == 'a'; return vZ(mx ? z3::ite(ge, x, y) : z3::ite(ge, y, x)); }
      unsigned w = a[0].w; int64_t x = a[0].i << (64 - w), y = a[1].i << (64 - w); x >>= (64 - w); y >>= (64 - w);
      if (startsWith(n, "llvm.umax")) return vInt(std::max(a[0].i, a[1].i), w); if (startsWith(n, "llvm.umin")) return vInt(std::min(a[0].i, a[1].i), w); if (startsWith(n, "llvm.smax")) return vInt(std::max(x, y), w); if (startsWith(n, "llvm.smin")) return vInt(std::min(x, y), w); return vInt(x < 0 ? -x : x, w);
    }
    if (startsWith(n, "llvm.trap")) { reportViolation("abort", "trap", {}, {}); finishPath("violation"); }
    if (startsWith(n, "llvm.pow.") ) n = "pow"; else if (startsWith(n, "llvm.powi")) n = "pow";
    else { std::string b = n.substr(5); b = b.substr(0, b.find('.')); if (rfun.count(b)) n = b; else if (b == "maxnum") n = "fmax"; else if (b == "minnum") n = "fmin"; else if (b == "copysign") n = "copysign"; else unsupported("intrinsic " + n); }
  }
  // ---- memory
  if (n == "malloc") return vInt(doAlloc(concretise(a[0]), false), 64);
  if (n == "calloc") { uint64_t x = concretise(a[0]), y = concretise(a[1]); if (x && y > 0xffffffffffULL / x) return vInt(doAlloc(~0ULL, true), 64); return vInt(doAlloc(x * y, true), 64); }
  if (n == "realloc") { uint64_t p = concretise(a[0]), sz = concretise(a[1]); uint64_t q = doAlloc(sz, false); if (p && q) { uint64_t osz = objs[p >> 32]->alive ? objs[p >> 32]->size : 0; memCopy(q, p, std::min(osz, sz)); freeObj(p); } return vInt(q, 64); }
  if (n == "free") { freeObj(concretise(a[0])); return Val(); }
  if (n == "memcpy" || n == "memmove") { memCopy(concretise(a[0]), concretise(a[1]), concretise(a[2])); return a[0]; }
  if (n == "memset") { uint64_t dst = concretise(a[0]), len = concretise(a[2]); if (len) { uint64_t off; Obj* o = derefM(dst, len, off, true); clearSym(o, off, len); memset(&o->d[off], (int)concretise(a[1]), len); memset(&o->in[off], 1, len); } return a[0]; }
  if (n == "abort" || n == "__assert_fail") { reportViolation("abort", n, {}, {}); finishPath("violation"); }
  if (n == "exit" || n == "_exit") endOk();
  if (n == "printf" || n == "fprintf" || n == "vprintf" || n == "vfprintf" || n == "puts" || n == "putchar" || n == "fputs" || n == "fflush" || n == "fputc" || n == "fwrite") return retZero(rt);
  if (n == "strcmp") { return vInt((uint32_t)strcmp(cstr(a[0]).c_str(), cstr(a[1]).c_str()), 32); }
  if (n == "strlen") { return vInt(cstr(a[0]).size(), 64); }
  // ---- harness primitives
  if (startsWith(n, "vf_")) {
    if (n == "vf_choice") { int N = (int)a[1].i; size_t k = N > 1 ? forkAlternatives(N) : 0; Input in; in.name = cstr(a[0]); in.kind = "choice"; in.cval = k; inputs.push_back(in); return vInt(k, 32); }
    if (n == "vf_int" || n == "vf_size") { unsigned w = n == "vf_int" ? 32 : 64; Input in; in.name = cstr(a[0]); in.kind = "int";
      z3::expr e = C->bv_const((in.name + "!" + std::to_string(inputs.size())).c_str(), w); in.sym = vZ(e);
      if (w == 32) { zpc->push_back(z3::sge(e, C->bv_val((int)a[1].i, 32))); zpc->push_back(z3::sle(e, C->bv_val((int)a[2].i, 32))); }
      else { zpc->push_back(z3::uge(e, C->bv_val((uint64_t)a[1].i, 64))); zpc->push_back(z3::ule(e, C->bv_val((uint64_t)a[2].i, 64))); }
      inputs.push_back(in); return in.sym; }
    if (n == "vf_double" || n == "vf_anydouble") {
      Input in; in.name = cstr(a[0]); in.kind = "double";
      if (mode == REAL) { if (n == "vf_anydouble") unsupported("vf_anydouble in real mode"); in.lo = a[1].d; in.hi = a[2].d; in.atom = newVar(in.name, in.lo, in.hi); in.sym = vPoly(pAtom(in.atom)); }
      else { z3::expr e = C->constant((in.name + "!" + std::to_string(inputs.size())).c_str(), C->fpa_sort<64>()); in.sym = vZ(e);
        if (n == "vf_double") { in.lo = a[1].d; in.hi = a[2].d; zpc->push_back(z3::expr(*C, Z3_mk_fpa_geq(*C, e, fpv(in.lo)))); zpc->push_back(z3::expr(*C, Z3_mk_fpa_leq(*C, e, fpv(in.hi)))); } }
      inputs.push_back(in); return in.sym; }
    if (n == "vf_assume") { if (!decide([&] { Val v = a[0]; if (v.k == SINT && !zOf(v).is_bool() && v.w > 1) return vZ(zOf(v) != C->bv_val(0, v.w)); if (v.k == INT) return boolVal(v.i != 0); return v; }())) { SH->infeasible++; finishPath("assumed-away"); } return Val(); }
    if (n == "vf_assert") { assertVal(a[0], cstr(a[1])); return Val(); }
    if (n == "vf_close") { assertClose(a[0], a[1], a[2].d, cstr(a[3])); return Val(); }
    if (n == "vf_csqrt_hint") { csqrtHints.push_back({toPoly(a[0]), toPoly(a[1])}); return Val(); }
    if (n == "vf_hint") { if (mode == REAL) hints.push_back({toPoly(a[0]), toPoly(a[1])}); return Val(); }
    if (n == "vf_allocfail") { allocFailOn = a[0].i != 0; if (allocFailOn) allocCount = 0; return Val(); }
    if (n == "vf_alloc_failed") return vInt(allocFailed, 32);
    if (n == "vf_heap_mark") return vInt(liveHeap, 64);
    if (n == "vf_leak") { SH->asserts++; if ((uint64_t)liveHeap > a[0].i) { std::string where; for (size_t k = objs.size(); k-- > 0;) if (objs[k] && objs[k]->kind == O_HEAP && objs[k]->alive) { where = objs[k]->site; break; } reportViolation("leak", cstr(a[1]) + ": " + std::to_string(liveHeap - (int64_t)a[0].i) + " object(s) not freed, e.g. allocated at " + where, {}, {}); finishPath("violation"); } SH->proved++; return Val(); }
    if (n == "vf_init") { uint64_t p = a[0].i, len = concretise(a[1]); SH->asserts++; if (len) { uint64_t off; Obj* o = derefM(p, len, off, false); for (uint64_t k = 0; k < len; k++) if (!o->in[off + k]) { reportViolation("uninit-output", cstr(a[2]) + ": byte " + std::to_string(k) + " not written", {}, {}); finishPath("violation"); } } SH->proved++; return Val(); }
    if (n == "vf_same") { uint64_t p = a[0].i, q = a[1].i, len = a[2].i, o1, o2; if (!len) return vInt(1, 32); Obj *A = derefM(p, len, o1, false), *B = derefM(q, len, o2, false);
      auto cells = [&](Obj* o, uint64_t off) { std::map<uint64_t, Val> r; if (o->sym) for (auto& c : *o->sym) if (c.first + c.second.size > off && c.first < off + len) r[c.first - off] = c.second.v; return r; };
      auto ca = cells(A, o1), cb = cells(B, o2); z3::expr eq = C->bool_val(true); std::vector<char> cov(len, 0);
      std::set<uint64_t> offs; for (auto& x : ca) offs.insert(x.first); for (auto& x : cb) offs.insert(x.first);
      for (uint64_t k : offs) {
        if (k >= len) continue; unsigned sz = 8; Val x, y; auto gx = ca.find(k), gy = cb.find(k);
        if (gx != ca.end()) { x = gx->second; sz = x.k == SINT ? std::max(1, x.w / 8) : 8; } if (gy != cb.end()) { y = gy->second; sz = y.k == SINT ? std::max(1, y.w / 8) : 8; }
        for (unsigned j = 0; j < sz && k + j < len; j++) cov[k + j] = 1;
        bool fp = (x.k == SFP || y.k == SFP);
        auto conc = [&](Obj* o, uint64_t off) -> Val { for (unsigned j = 0; j < sz; j++) if (!o->in[off + k + j]) return Val(); if (fp) { double dd; memcpy(&dd, &o->d[off + k], 8); return vFP(dd); } uint64_t u = 0; memcpy(&u, &o->d[off + k], sz); return vInt(u, sz * 8); };
        if (gx == ca.end()) x = conc(A, o1); if (gy == cb.end()) y = conc(B, o2);
        if (x.k == UNDEF || y.k == UNDEF) return vInt(x.k == y.k, 32);
        if (fp) { if (mode == REAL) { if (!pSub(toPoly(x), toPoly(y)).isZero()) return vInt(0, 32); } else eq = eq && (toZ(x) == toZ(y)); }
        else { z3::expr ex = x.k == INT ? C->bv_val((uint64_t)x.i, sz * 8) : zOf(x), ey = y.k == INT ? C->bv_val((uint64_t)y.i, sz * 8) : zOf(y); eq = eq && ex == ey; }
      }
      for (uint64_t k = 0; k < len; k++) if (!cov[k] && (A->in[o1 + k] != B->in[o2 + k] || (A->in[o1 + k] && A->d[o1 + k] != B->d[o2 + k]))) return vInt(0, 32);
      eq = eq.simplify(); if (eq.is_true()) return vInt(1, 32); if (eq.is_false()) return vInt(0, 32);
      return vZ(z3::ite(eq, C->bv_val(1, 32), C->bv_val(0, 32))); }
    if (n == "vf_out") { std::string nm = cstr(a[0]); std::string v; if (a[1].k == FP) v = "\"" + dhex(a[1].d) + "\""; else v = "null"; outv.push_back("[\"" + jesc(nm) + "\"," + v + "]"); return Val(); }
    if (n == "vf_reach") { reached.insert(cstr(a[0])); return Val(); }
    if (n == "vf_generic") { genericMode = a[0].i != 0; return Val(); }
    if (n == "vf_mode") { return vInt(mode, 32); }
    if (n == "vf_print") { if (verbose) { std::cerr << cstr(a[0]) << " = "; if (a[1].k == FP) std::cerr << fmtd(a[1].d); else if (a[1].k == SFP && mode == REAL) std::cerr << pStr(polyOf(a[1]), 20); else if (a[1].k == UNDEF) std::cerr << "undef"; else std::cerr << "sym"; std::cerr << "\n"; } return Val(); }
    if (n == "vf_done") endOk();
    unsupported("harness primitive " + n);
  }
  // ---- math
  if (rt->isVoidTy() && F->isDeclaration()) unsupported("external " + n);
  if (anyUndef(a)) { if (rt->isStructTy()) return vAgg({Val(), Val()}); return Val(); }
  if (n == "__muldc3") { if (allConc(a)) return fromC(__muldc3(a[0].d, a[1].d, a[2].d, a[3].d)); return cplx(cmulV({a[0], a[1]}, {a[2], a[3]})); }
  if (n == "__divdc3") { if (allConc(a)) return fromC(__divdc3(a[0].d, a[1].d, a[2].d, a[3].d)); if (mode != REAL) { std::vector<z3::expr> z; for (auto& v : a) z.push_back(toZ(v)); return cplx({absOp("cdivr", z, nullptr), absOp("cdivi", z, nullptr)}); } return cplx(cdivV({a[0], a[1]}, {a[2], a[3]})); }
  auto ci = cfun.find(n);
  if (ci != cfun.end()) {
    if (allConc(a)) return fromC(ci->second(mkc(a[0].d, a[1].d)));
    if (mode != REAL) { std::vector<z3::expr> z; for (auto& v : a) z.push_back(toZ(v)); return cplx({absOp(n + "r", z, nullptr), absOp(n + "i", z, nullptr)}); }
    CV z{a[0], a[1]};
    if (n == "ccos") return cplx(ccosV(z)); if (n == "csin") return cplx(csinV(z)); if (n == "cexp") return cplx(cexpV(z)); if (n == "csqrt") return cplx(csqrtV(z));
    if (n == "ctan") return cplx(cdivV(csinV(z), ccosV(z)));
    if (n == "ccosh" || n == "csinh") { CV w{fpNeg(z.im), z.re}; /* i z */ if (n == "ccosh") return cplx(ccosV(w)); CV s = csinV(w); /* sinh z = -i sin(i z) */ return cplx({s.im, fpNeg(s.re)}); }
    if (n == "clog") { CV po; if (polarOf(toPoly(z.re), toPoly(z.im), po)) return cplx(po); Val r = hypotV(z.re, z.im); Val l = fun1("log", [](double x) { return std::log(x); }, r); Val ar; if (isZeroV(z.im) && decideR(toPoly(z.re), 0)) ar = vFP(0); else { Poly X = toPoly(z.re), Y = toPoly(z.im); ar = vPoly(pAtom(funAtom(A_ATAN2, "atan2", Y, &X))); } return cplx({l, ar}); }
    unsupported("complex function " + n);
  }
  if (n == "cpow") {
    if (allConc(a)) return fromC(cpow(mkc(a[0].d, a[1].d), mkc(a[2].d, a[3].d)));
    if (mode != REAL) { std::vector<z3::expr> z; for (auto& v : a) z.push_back(toZ(v)); return cplx({absOp(n + "r", z, nullptr), absOp(n + "i", z, nullptr)}); }
    if (a[2].k == FP && a[3].k == FP && a[3].d == 0 && std::floor(a[2].d) == a[2].d && std::fabs(a[2].d) <= 256) {
      CV r{vFP(1), vFP(0)}, b{a[0], a[1]}; int e = (int)std::fabs(a[2].d); for (int k = 0; k < e; k++) r = cmulV(r, b); if (a[2].d < 0) r = cdivV({vFP(1), vFP(0)}, r); return cplx(r); }
    if (a[0].k == FP && a[1].k == FP) { double _Complex l = clog(mkc(a[0].d, a[1].d)); return cplx(cexpV(cmulV({a[2], a[3]}, {vFP(__real__ l), vFP(__imag__ l)}))); }
    unsupported("cpow of symbolic base");
  }
  if (n == "cabs" || n == "hypot") { if (allConc(a)) return vFP(n == "cabs" ? cabs(mkc(a[0].d, a[1].d)) : hypot(a[0].d, a[1].d)); return hypotV(a[0], a[1]); }
  if (n == "carg" || n == "atan2") {
    Val y = n == "carg" ? a[1] : a[0], x = n == "carg" ? a[0] : a[1];
    if (allConc(a)) return vFP(std::atan2(y.d, x.d));
    if (mode != REAL) return absOp("atan2", {toZ(y), toZ(x)}, nullptr);
    Poly X = toPoly(x), Y = toPoly(y), r; if (hintArg(X, Y, r)) return vPoly(r); return vPoly(pAtom(funAtom(A_ATAN2, "atan2", Y, &X)));
  }
  if (n == "creal") return a[0]; if (n == "cimag") return a[1]; if (n == "conj") return cplx({a[0], fpNeg(a[1])});
  if ((n == "nexttoward" || n == "nextafter" || n == "nexttowardl") && a[0].k == FP && a[1].k == FP) return vFP(std::nextafter(a[0].d, a[1].d));
  if (n == "fabs") return fpAbs(a[0]); if (n == "sqrt") return fpSqrt(a[0]);
  if (n == "floor") return fpFloor(a[0], 0); if (n == "ceil") return fpFloor(a[0], 1); if (n == "round") return fpFloor(a[0], 2); if (n == "trunc") return fpFloor(a[0], 3); if (n == "rint" || n == "nearbyint") return fpFloor(a[0], 4);
  if (n == "lround" || n == "llround") { Val r = fpFloor(a[0], 2); if (r.k == FP) return vInt((int64_t)r.d, 64); unsupported(n); }
  auto ri = rfun.find(n); if (ri != rfun.end()) return fun1(n, ri->second, a[0]);
  if (n == "pow") {
    Val e = a[1]; if (e.k == INT) e = vFP((double)(int32_t)e.i);
    if (a[0].k == FP && e.k == FP) return vFP(std::pow(a[0].d, e.d));
    if (mode != REAL) return absOp("pow", {toZ(a[0]), toZ(e)}, nullptr);
    if (e.k == FP && std::floor(e.d) == e.d && std::fabs(e.d) <= 128) { Val r = vFP(1); for (int k = 0; k < (int)std::fabs(e.d); k++) r = fmul(r, a[0]); return e.d < 0 ? fdiv(vFP(1), r) : r; }
    if (e.k == FP && e.d == 0.5) return fpSqrt(a[0]);
    unsupported("pow");
  }
  if (n == "fmod" || n == "remainder") { if (allConc(a)) return vFP(std::fmod(a[0].d, a[1].d)); if (mode != REAL) return absOp("fmod", {toZ(a[0]), toZ(a[1])}, nullptr); unsupported("fmod"); }
  if (n == "fmax" || n == "fmin") {
    if (allConc(a)) return vFP(n == "fmax" ? std::fmax(a[0].d, a[1].d) : std::fmin(a[0].d, a[1].d));
    if (mode == REAL) { Poly df = pSub(toPoly(a[0]), toPoly(a[1])); bool ge = decideR(df, 0); return (ge == (n == "fmax")) ? a[0] : a[1]; }
    z3::expr x = toZ(a[0]), y = toZ(a[1]); return vZ(n == "fmax" ? z3::max(x, y) : z3::min(x, y));
  }
  if (n == "copysign") { if (allConc(a)) return vFP(std::copysign(a[0].d, a[1].d)); unsupported(n); }
  if (n == "ldexp") { if (a[0].k == FP && a[1].k == INT) return vFP(std::ldexp(a[0].d, (int32_t)a[1].i)); Val f = vFP(std::ldexp(1.0, (int32_t)concretise(a[1]))); return fmul(a[0], f); }
  unsupported("external function " + n);
}
// ------------------------------------------------------------------ interpreter
static Val ibin(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  auto sx = [&](uint64_t v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
  if (a.k == INT && b.k == INT) {
    uint64_t x = a.i, y = b.i;
    switch (opc) {
      case Instruction::Add: return vInt(x + y, w); case Instruction::Sub: return vInt(x - y, w); case Instruction::Mul: return vInt(x * y, w);
      case Instruction::UDiv: if (!y) memViol("int-div0", "integer division by zero"); return vInt(x / y, w); case Instruction::URem: if (!y) memViol("int-div0", "integer division by zero"); return vInt(x % y, w);
      case Instruction::SDiv: if (!y) memViol("int-div0", "integer division by zero"); if (sx(y) == -1) return vInt(-x, w); return vInt(sx(x) / sx(y), w); case Instruction::SRem: if (!y) memViol("int-div0", "integer division by zero"); if (sx(y) == -1) return vInt(0, w); return vInt(sx(x) % sx(y), w);
      case Instruction::Shl: return vInt(y >= w ? 0 : x << y, w); case Instruction::LShr: return vInt(y >= w ? 0 : x >> y, w); case Instruction::AShr: return vInt(sx(x) >> (y >= w ? w - 1 : y), w);
      case Instruction::And: return vInt(x & y, w); case Instruction::Or: return vInt(x | y, w); case Instruction::Xor: return vInt(x ^ y, w);
    }
  }
  if (w == 1) {
    auto B = [&](const Val& v) { return v.k == INT ? C->bool_val(v.i & 1) : zbool(v); };
    z3::expr x = B(a), y = B(b);
    switch (opc) { case Instruction::And: return vZ(x && y); case Instruction::Or: return vZ(x || y); case Instruction::Xor: return vZ(x != y); default: unsupported("i1 op"); }
  }
  auto E = [&](const Val& v) { return v.k == INT ? C->bv_val((uint64_t)v.i, w) : zOf(v); };
  z3::expr x = E(a), y = E(b);
  if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) { if (decideZ(y == C->bv_val(0, w))) memViol("int-div0", "integer division by zero"); }
  switch (opc) {
    case Instruction::Add: return vZ(x + y); case Instruction::Sub: return vZ(x - y); case Instruction::Mul: return vZ(x * y);
    case Instruction::UDiv: return vZ(z3::udiv(x, y)); case Instruction::SDiv: return vZ(x / y); case Instruction::URem: return vZ(z3::urem(x, y)); case Instruction::SRem: return vZ(z3::srem(x, y));
    case Instruction::Shl: return vZ(z3::shl(x, y)); case Instruction::LShr: return vZ(z3::lshr(x, y)); case Instruction::AShr: return vZ(z3::ashr(x, y));
    case Instruction::And: return vZ(x & y); case Instruction::Or: return vZ(x | y); case Instruction::Xor: return vZ(x ^ y);
  }
  unsupported("int op");
}
static Val icmpOp(unsigned pred, const Val& a, const Val& b) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  unsigned w = a.w;
  if (a.k == INT && b.k == INT) {
    uint64_t x = a.i, y = b.i; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (pred) { case ICmpInst::ICMP_EQ: return boolVal(x == y); case ICmpInst::ICMP_NE: return boolVal(x != y); case ICmpInst::ICMP_UGT: return boolVal(x > y); case ICmpInst::ICMP_UGE: return boolVal(x >= y); case ICmpInst::ICMP_ULT: return boolVal(x < y); case ICmpInst::ICMP_ULE: return boolVal(x <= y);
      case ICmpInst::ICMP_SGT: return boolVal(sx > sy); case ICmpInst::ICMP_SGE: return boolVal(sx >= sy); case ICmpInst::ICMP_SLT: return boolVal(sx < sy); default: return boolVal(sx <= sy); }
  }
  auto E = [&](const Val& v) { if (v.k == INT) return C->bv_val((uint64_t)v.i, w); z3::expr e = zOf(v); if (e.is_bool()) return z3::ite(e, C->bv_val(1, 1), C->bv_val(0, 1)); return e; };
  if (w == 1 && (pred == ICmpInst::ICMP_EQ || pred == ICmpInst::ICMP_NE)) { auto B = [&](const Val& v) { return v.k == INT ? C->bool_val(v.i & 1) : zbool(v); }; z3::expr r = B(a) == B(b); return vZ((pred == ICmpInst::ICMP_EQ ? r : !r).simplify()); }
  z3::expr x = E(a), y = E(b);
  switch (pred) { case ICmpInst::ICMP_EQ: return vZ((x == y).simplify()); case ICmpInst::ICMP_NE: return vZ((x != y).simplify()); case ICmpInst::ICMP_UGT: return vZ(z3::ugt(x, y)); case ICmpInst::ICMP_UGE: return vZ(z3::uge(x, y)); case ICmpInst::ICMP_ULT: return vZ(z3::ult(x, y)); case ICmpInst::ICMP_ULE: return vZ(z3::ule(x, y));
    case ICmpInst::ICMP_SGT: return vZ(z3::sgt(x, y)); case ICmpInst::ICMP_SGE: return vZ(z3::sge(x, y)); case ICmpInst::ICMP_SLT: return vZ(z3::slt(x, y)); default: return vZ(z3::sle(x, y)); }
}
static Val castOp(const DInst& d, const Val& a) {
  unsigned opc = d.opc; Type* t = d.ty; unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
  if (a.k == UNDEF) return Val();
  switch (opc) {
    case Instruction::Trunc: if (a.k == INT) return vInt(a.i, w); { z3::expr e = zOf(a).extract(w - 1, 0); if (w == 1) return vZ(e == C->bv_val(1, 1)); return vZ(e); }
    case Instruction::ZExt: if (a.k == INT) return vInt(a.i, w); { z3::expr e = zOf(a); if (e.is_bool()) return vZ(z3::ite(e, C->bv_val(1, w), C->bv_val(0, w))); return vZ(z3::zext(e, w - a.w)); }
    case Instruction::SExt: if (a.k == INT) return vInt((int64_t)(a.i << (64 - a.w)) >> (64 - a.w), w); { z3::expr e = zOf(a); if (e.is_bool()) return vZ(z3::ite(e, C->bv_val(-1, w), C->bv_val(0, w))); return vZ(z3::sext(e, w - a.w)); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.k == INT) return vInt(a.i, w); if (a.w == w) return a; unsupported("ptr cast");
    case Instruction::BitCast: {
      if (t->isFloatingPointTy() && a.k == INT) { double x; memcpy(&x, &a.i, 8); return vFP(x); }
      if (t->isIntegerTy() && a.k == FP) { uint64_t x; memcpy(&x, &a.d, 8); return vInt(x, w); }
      if (t->isIntegerTy() && a.k == SFP) { if (mode == REAL) unsupported("bitcast of real"); return vZ(z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, zOf(a)))); }
      return a; }
    case Instruction::UIToFP: case Instruction::SIToFP:
      if (a.k == INT) { if (opc == Instruction::UIToFP) return vFP((double)a.i); return vFP((double)((int64_t)(a.i << (64 - a.w)) >> (64 - a.w))); }
      { uint64_t v = concretise(a); if (opc == Instruction::UIToFP) return vFP((double)v); return vFP((double)((int64_t)(v << (64 - a.w)) >> (64 - a.w))); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val f = a;
      if (f.k == SFP && mode == REAL) f = fpFloor(f, 3);
      if (f.k == FP) {
        if (opc == Instruction::FPToUI && (std::isnan(f.d) || std::fabs(f.d) > 1.8e19)) return Val(); // undefined behaviour -> undef
        if (opc == Instruction::FPToSI) { if (!(std::fabs(f.d) < std::ldexp(1.0, w - 1))) return vInt((uint64_t)1 << (w - 1), w); /* as cvttsd2si does */ return vInt((uint64_t)(int64_t)f.d, w); }
        if (f.d <= -1) return Val(); return vInt((uint64_t)f.d, w); }
      z3::expr rm(*C, Z3_mk_fpa_rtz(*C));
      if (mode == ABS) { z3::expr e = C->bv_const(("absi" + std::to_string(absCnt++)).c_str(), w); return vZ(e); }
      return vZ(z3::expr(*C, opc == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(*C, rm, zOf(f), w) : Z3_mk_fpa_to_ubv(*C, rm, zOf(f), w))); }
    case Instruction::FPExt: return a;
    case Instruction::FPTrunc: if (a.k == FP) return vFP((float)a.d); unsupported("fptrunc");
  }
  unsupported("cast");
}
static int depth = 0;
static Val execFunction(const Function* F, std::vector<Val>& args) {
  DFunc* D = decode(F);
  if (depth > 400) unsupported("recursion depth");
  fnSeen.insert(F);
  std::vector<Val> R(D->nregs);
  for (size_t k = 0; k < D->argRegs.size() && k < args.size(); k++) R[D->argRegs[k]] = args[k];
  Frame fr; fr.F = F; fr.cur = nullptr; stack.push_back(&fr); depth++;
  int bbi = 0, prev = -1;
  auto get = [&](const Opd& o) -> const Val& { return o.reg >= 0 ? R[o.reg] : o.c; };
  Val ret;
  while (true) {
    DBlock& B = D->blocks[bbi];
    if (!B.phis.empty()) { std::vector<Val> tmp; for (auto& p : B.phis) tmp.push_back(get(p.second.at(prev))); for (size_t k = 0; k < tmp.size(); k++) R[B.phis[k].first] = std::move(tmp[k]); }
    int next = -1;
    for (auto& d : B.ins) {
      fr.cur = &d;
      if ((++nInstr & 0xfff) == 0) { checkStop(); if (nInstr > maxInstr) unsupported("instruction limit"); }
      switch (d.opc) {
        case Instruction::Alloca: {
          uint64_t cnt = concretise(get(d.ops[0])); uint32_t id = newObj(DL->getTypeAllocSize(d.ty) * cnt, O_STACK); fr.allocas.push_back(id); R[d.dst] = vInt(addrOf(id), 64); break; }
        case Instruction::Load: R[d.dst] = loadVal(concretise(get(d.ops[0])), d.ty); break;
        case Instruction::Store: storeVal(concretise(get(d.ops[1])), d.ty, get(d.ops[0])); break;
        case Instruction::GetElementPtr: {
          const Val& b = get(d.ops[0]); if (b.k == UNDEF) { memViol("uninit-use", "pointer arithmetic on uninitialised pointer"); }
          uint64_t ad = concretise(b) + d.gepOff;
          for (auto& gi : d.gepIdx) { const Val& ix = get(d.ops[gi.first]); uint64_t v = concretise(ix); if (ix.w < 64) v = (uint64_t)((int64_t)(v << (64 - ix.w)) >> (64 - ix.w)); ad += v * gi.second; }
          R[d.dst] = vInt(ad, 64); break; }
        case Instruction::Br:
          if (d.succ.size() == 1) next = d.succ[0]; else next = decide(get(d.ops[0])) ? d.succ[0] : d.succ[1]; break;
        case Instruction::Switch: {
          const Val& v = get(d.ops[0]);
          if (v.k == UNDEF) memViol("uninit-branch", "switch on uninitialised value");
          if (v.k == INT) { next = d.succ[0]; for (auto& c : d.gepIdx) if (c.second == v.i) { next = c.first; break; } }
          else {
            z3::expr e = zOf(v); std::vector<std::pair<z3::expr, int>> alts; z3::expr none = C->bool_val(true); std::map<int, z3::expr> grp; std::vector<int> order;
            for (auto& c : d.gepIdx) { z3::expr q = e == C->bv_val((uint64_t)c.second, v.w); none = none && !q; auto it = grp.find(c.first); if (it == grp.end()) { grp.emplace(c.first, q); order.push_back(c.first); } else it->second = it->second || q; }
            for (int s : order) if (feasZ(grp.at(s)) != 0) alts.push_back({grp.at(s), s});
            if (feasZ(none) != 0) alts.push_back({none, d.succ[0]});
            if (alts.empty()) finishPath("infeasible");
            size_t k = alts.size() > 1 ? forkAlternatives(alts.size()) : 0; zpc->push_back(alts[k].first); next = alts[k].second;
          } break; }
        case Instruction::Ret: if (!d.ops.empty()) ret = get(d.ops[0]); next = -2; break;
        case Instruction::Unreachable: memViol("unreachable", "unreachable executed");
        case Instruction::ICmp: R[d.dst] = icmpOp(d.aux, get(d.ops[0]), get(d.ops[1])); break;
        case Instruction::FCmp: R[d.dst] = fcmpOp(d.aux, get(d.ops[0]), get(d.ops[1])); break;
        case Instruction::FNeg: R[d.dst] = fpNeg(get(d.ops[0])); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: R[d.dst] = fpBin(d.opc, get(d.ops[0]), get(d.ops[1])); break;
        case Instruction::Select: {
          const Val &c = get(d.ops[0]); const Val &x = get(d.ops[1]), &y = get(d.ops[2]);
          if (c.k == SINT && (x.k == SINT || x.k == INT) && (y.k == SINT || y.k == INT) && d.ty->isIntegerTy()) { unsigned w = d.ty->getIntegerBitWidth();
            if (w == 1) { auto Bq = [&](const Val& v) { return v.k == INT ? C->bool_val(v.i & 1) : zbool(v); }; R[d.dst] = vZ(z3::ite(zbool(c), Bq(x), Bq(y)).simplify()); }
            else { auto E = [&](const Val& v) { return v.k == INT ? C->bv_val((uint64_t)v.i, w) : zOf(v); }; R[d.dst] = vZ(z3::ite(zbool(c), E(x), E(y))); } }
          else if (c.k == SINT && mode != REAL && (x.k == SFP || x.k == FP) && (y.k == SFP || y.k == FP)) R[d.dst] = vZ(z3::ite(zbool(c), toZ(x), toZ(y)));
          else R[d.dst] = decide(c) ? Val(x) : Val(y);
          break; }
        case Instruction::ExtractValue: { Val v = get(d.ops[0]); for (unsigned k : d.idx) { if (v.k != AGG) { v = Val(); break; } Val t = static_cast<AggNode*>(v.n)->v[k]; v = t; } R[d.dst] = v; break; }
        case Instruction::InsertValue: {
          Val v = get(d.ops[0]); if (v.k != AGG) { v = zeroOf(d.ty); if (v.k == AGG) for (auto& e : static_cast<AggNode*>(v.n)->v) e = e.k == AGG ? e : Val(); }
          if (d.idx.size() != 1) unsupported("nested insertvalue"); std::vector<Val> e = static_cast<AggNode*>(v.n)->v; e[d.idx[0]] = get(d.ops[1]); R[d.dst] = vAgg(e); break; }
        case Instruction::ExtractElement: { Val v = get(d.ops[0]); uint64_t k = concretise(get(d.ops[1])); R[d.dst] = v.k == AGG ? static_cast<AggNode*>(v.n)->v[k] : Val(); break; }
        case Instruction::InsertElement: { Val v = get(d.ops[0]); if (v.k != AGG) { v = zeroOf(d.ty); } std::vector<Val> e = static_cast<AggNode*>(v.n)->v; e[concretise(get(d.ops[2]))] = get(d.ops[1]); R[d.dst] = vAgg(e); break; }
        case Instruction::Freeze: R[d.dst] = get(d.ops[0]); break;
        case Instruction::Call: {
          std::vector<Val> a; size_t na = d.ops.size(); const Function* f = d.callee; const CallBase* cb = cast<CallBase>(d.I);
          if (!f) { if (cb->isInlineAsm()) unsupported("inline asm"); na--; const Val& p = get(d.ops[na]); uint64_t fa = concretise(p); auto it = funcOfObj.find(fa >> 32); if (it == funcOfObj.end()) memViol("bad-call", "indirect call of non-function"); f = it->second; }
          a.reserve(na);
          for (size_t k = 0; k < na; k++) {
            Val v = get(d.ops[k]);
            if (k < cb->arg_size() && cb->isByValArgument(k)) { Type* bt = cb->getParamByValType(k); uint32_t id = newObj(DL->getTypeAllocSize(bt), O_STACK); fr.allocas.push_back(id); memCopy(addrOf(id), concretise(v), DL->getTypeAllocSize(bt)); v = vInt(addrOf(id), 64); }
            a.push_back(std::move(v));
          }
          Val r = f->isDeclaration() ? externalCall(d, f, a) : callFunction(f, a);
          if (d.dst >= 0) R[d.dst] = std::move(r);
          break; }
        default:
          if (d.opc >= Instruction::Add && d.opc <= Instruction::Xor) { if (!d.ty->isIntegerTy()) unsupported("vector op"); R[d.dst] = ibin(d.opc, get(d.ops[0]), get(d.ops[1]), d.ty->getIntegerBitWidth()); break; }
          if (Instruction::isCast(d.opc)) { R[d.dst] = castOp(d, get(d.ops[0])); break; }
          unsupported(std::string("instruction ") + d.I->getOpcodeName());
      }
      if (next != -1) break;
    }
    if (next == -2) break;
    if (next < 0) unsupported("no successor");
    prev = bbi; bbi = next;
  }
  for (uint32_t id : fr.allocas) { delete objs[id]; objs[id] = nullptr; }
  stack.pop_back(); depth--;
  return ret;
}
static Val callFunction(const Function* F, std::vector<Val>& args) { return execFunction(F, args); }
int main(int argc, char** argv) {
  std::string bc, entry = "harness", logf = "/dev/stdout"; int jobs = 1; double tlimit = 600; long memMB = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--fp") { std::string m = argv[++i]; mode = m == "real" ? REAL : m == "ieee" ? IEEE : ABS; }
    else if (a == "--version-check") return 0;
    else if (a == "--entry") entry = argv[++i]; else if (a == "--log") logf = argv[++i]; else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "--time") tlimit = atof(argv[++i]); else if (a == "--paths") maxPaths = atoll(argv[++i]); else if (a == "--instr") maxInstr = atoll(argv[++i]);
    else if (a == "--maxviol") maxViol = atoi(argv[++i]); else if (a == "--samples") maxSamples = atoi(argv[++i]); else if (a == "-v") verbose = true;
    else if (a == "--prune") pruneTol = std::stod(argv[++i]);
    else if (a == "--noangle") noAngle = true;
    else if (a == "--rlimit") rlimitMain = atoi(argv[++i]); else if (a == "--tok") { sscanf(argv[++i], "%d,%d", &tokR, &tokW); } else if (a == "--mem") memMB = atol(argv[++i]);
    else bc = a;
  }
  (void)memMB;
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof(Shared));
  logfd = open(logf.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  deadline = now() + tlimit; double t0 = now();
  if (tokR < 0 && jobs > 1) { int p[2]; if (pipe(p)) return 2; tokR = p[0]; tokW = p[1]; for (int k = 0; k < jobs - 1; k++) giveToken(); }
  if (tokR >= 0) fcntl(tokR, F_SETFL, O_NONBLOCK);
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("fsym", errs()); return 2; }
  DL = &M->getDataLayout();
  z3::context zc; C = &zc; zpc = new std::vector<z3::expr>; absDefs = new std::vector<AbsDef>; atomZ = new std::map<int, z3::expr>; absMemo = new std::map<std::string, z3::expr>;
  objs.push_back(nullptr);
  pid_t root = fork();
  if (root == 0) {
    polyTick = [](size_t n) { checkStop(); if (n > 40000000) unsupported("symbolic expression too large"); };
    Function* F = M->getFunction(entry); if (!F || F->isDeclaration()) { logLine("{\"t\":\"crash\",\"msg\":\"no entry\"}"); _exit(3); }
    std::vector<Val> args; execFunction(F, args); endOk();
  }
  int st; waitpid(root, &st, 0);
  char buf[1024];
  snprintf(buf, sizeof buf, "{\"t\":\"summary\",\"status\":%d,\"paths\":%lu,\"forks\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"instrs\":%lu,\"solver_s\":%.3f,\"viol\":%lu,\"pruned\":%lu,\"asserts\":%lu,\"proved\":%lu,\"unsupported\":%lu,\"assumed_away\":%lu,\"interval_decided\":%lu,\"stopped\":%d,\"wall\":%.2f}",
    WIFEXITED(st) ? WEXITSTATUS(st) : -1, SH->paths.load(), SH->forks.load(), SH->qsat.load(), SH->qunsat.load(), SH->qunk.load(), SH->instrs.load(), SH->solver_us.load() * 1e-6, SH->viol.load(), SH->pruned.load(), SH->asserts.load(), SH->proved.load(), SH->unsupported.load(), SH->infeasible.load(), SH->interval_decided.load(), SH->stop.load(), now() - t0);
  logLine(buf);
  return 0;
}
