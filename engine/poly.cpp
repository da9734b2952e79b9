#include "poly.h"
#include <sstream>
#include <cassert>
std::vector<Atom> atoms;
std::vector<Mono> monos;
std::vector<std::pair<Poly,Poly>> csqrtHints;
static std::map<std::vector<std::pair<int,int>>, uint32_t> monoIdx;
static std::unordered_map<uint64_t, uint32_t> mulCache;
static struct Init { Init() { monoOf({}); } } init_;

uint32_t monoOf(const std::vector<std::pair<int,int>>& v) {
  auto it = monoIdx.find(v);
  if (it != monoIdx.end()) return it->second;
  uint32_t id = monos.size();
  Mono m; m.v = v; monos.push_back(std::move(m));
  monoIdx[v] = id; return id;
}
static uint32_t monoMul(uint32_t a, uint32_t b) {
  if (!a) return b; if (!b) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = mulCache.find(key);
  if (it != mulCache.end()) return it->second;
  const auto &x = monos[a].v, &y = monos[b].v;
  std::vector<std::pair<int,int>> r; r.reserve(x.size() + y.size());
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  uint32_t id = monoOf(r); mulCache[key] = id; return id;
}
Poly pConst(const mpq_class& c) { Poly p; if (c != 0) p.t.push_back({0, c}); return p; }
Poly pAtom(int a) { Poly p; p.t.push_back({monoOf({{a, 1}}), 1}); return p; }

static Poly combine(const Poly& a, const Poly& b, int sgn) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].m < b.t[j].m)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].m < a.t[i].m) { r.t.push_back(b.t[j++]); if (sgn < 0) mpq_neg(r.t.back().c.get_mpq_t(), r.t.back().c.get_mpq_t()); }
    else {
      mpq_class c = sgn > 0 ? mpq_class(a.t[i].c + b.t[j].c) : mpq_class(a.t[i].c - b.t[j].c);
      if (c != 0) r.t.push_back({a.t[i].m, std::move(c)});
      i++; j++;
    }
  }
  return r;
}
Poly pAdd(const Poly& a, const Poly& b) { if (a.t.empty()) return b; if (b.t.empty()) return a; return combine(a, b, 1); }
Poly pSub(const Poly& a, const Poly& b) { if (b.t.empty()) return a; return combine(a, b, -1); }
Poly pScale(const Poly& a, const mpq_class& c) {
  Poly r; if (c == 0) return r; r = a; if (c == 1) return r;
  for (auto& x : r.t) x.c *= c; return r;
}
static int expOf(const std::vector<std::pair<int,int>>& v, int a) { for (auto& p : v) if (p.first == a) return p.second; return 0; }
static std::vector<std::pair<int,int>> decr(const std::vector<std::pair<int,int>>& v, int a, int k) {
  std::vector<std::pair<int,int>> r;
  for (auto& p : v) { if (p.first == a) { if (p.second > k) r.push_back({a, p.second - k}); } else r.push_back(p); }
  return r;
}
static Poly monoPoly(uint32_t m) { Poly p; p.t.push_back({m, 1}); return p; }
static const Poly* reduceMono(uint32_t m) {
  if (monos[m].redChecked) return monos[m].red.get();
  std::vector<std::pair<int,int>> v = monos[m].v;
  std::shared_ptr<Poly> res;
  for (auto& pr : v) {
    int a = pr.first, e = pr.second;
    AtomKind k = atoms[a].kind; int pt = atoms[a].partner;
    if (k == A_SIN && e >= 2) {
      Poly c2 = pMul(pAtom(pt), pAtom(pt));
      res = std::make_shared<Poly>(pMul(monoPoly(monoOf(decr(v, a, 2))), pSub(pConst(1), c2))); break;
    }
    if (k == A_SINH && e >= 2) {
      Poly c2 = pMul(pAtom(pt), pAtom(pt));
      res = std::make_shared<Poly>(pMul(monoPoly(monoOf(decr(v, a, 2))), pSub(c2, pConst(1)))); break;
    }
    if (k == A_SQRT && e >= 2) { Poly q = atoms[a].a1; res = std::make_shared<Poly>(pMul(monoPoly(monoOf(decr(v, a, 2))), q)); break; }
    if (k == A_CSQ_RE) {
      if (e >= 2) { Poly si = pAtom(pt), q = pAdd(pMul(si, si), atoms[a].a1); res = std::make_shared<Poly>(pMul(monoPoly(monoOf(decr(v, a, 2))), q)); break; }
      if (expOf(v, pt) >= 1) { Poly q = pScale(atoms[a].a2, mpq_class(1, 2)); auto w = decr(decr(v, a, 1), pt, 1); res = std::make_shared<Poly>(pMul(monoPoly(monoOf(w)), q)); break; }
    }
    if (k == A_CSQ_IM && e >= 3) {
      Poly q = pSub(pScale(pMul(pAtom(pt), atoms[a].a2), mpq_class(1, 2)), pMul(pAtom(a), atoms[a].a1));
      res = std::make_shared<Poly>(pMul(monoPoly(monoOf(decr(v, a, 3))), q)); break;
    }
    if (k == A_INV && pt >= 0 && expOf(v, pt) >= 1) { auto w = decr(decr(v, a, 1), pt, 1); res = std::make_shared<Poly>(monoPoly(monoOf(w))); { Poly z = *res; Poly y; for (auto&t : z.t) { const Poly* q = reduceMono(t.m); y = pAdd(y, q ? pScale(*q, t.c) : [&]{Poly u; u.t.push_back(t); return u;}()); } *res = y; } break; }
  }
  monos[m].redChecked = true; monos[m].red = res;
  return monos[m].red.get();
}
void (*polyTick)(size_t) = nullptr;
Poly pMul(const Poly& a, const Poly& b) {
  if (a.t.empty() || b.t.empty()) return Poly();
  if (a.isConst()) return pScale(b, a.t[0].c);
  if (b.isConst()) return pScale(a, b.t[0].c);
  std::unordered_map<uint32_t, mpq_class> acc; acc.reserve(std::min<size_t>(a.t.size() * b.t.size(), 200000));
  mpq_class tmp; if (polyTick && a.t.size() * b.t.size() > 2000) polyTick(a.t.size() * b.t.size());
  for (auto& x : a.t) for (auto& y : b.t) {
    uint32_t m = monoMul(x.m, y.m);
    tmp = x.c * y.c;
    const Poly* r = reduceMono(m);
    if (!r) acc[m] += tmp; else for (auto& z : r->t) acc[z.m] += tmp * z.c;
  }
  Poly r; r.t.reserve(acc.size());
  for (auto& kv : acc) if (kv.second != 0) r.t.push_back({kv.first, std::move(kv.second)});
  std::sort(r.t.begin(), r.t.end(), [](const Term& x, const Term& y) { return x.m < y.m; });
  return r;
}
static double up(double x) { return std::isinf(x) ? x : x + std::fabs(x) * 1e-15; }
static double dn(double x) { return std::isinf(x) ? x : x - std::fabs(x) * 1e-15; }
static double m0(double a, double b) { if (a == 0 || b == 0) return 0; return a * b; }
Itv iMul(Itv a, Itv b) {
  double p[4] = {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)};
  return {dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4))};
}
static Itv iPow(Itv a, int n) {
  if (n % 2 == 0) {
    double l = std::fabs(a.lo), h = std::fabs(a.hi), mx = std::max(l, h), mn = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(l, h);
    return {dn(std::pow(mn, n)), up(std::pow(mx, n))};
  }
  return {dn(std::pow(a.lo, n)), up(std::pow(a.hi, n))};
}
static std::vector<Itv> mb; static std::vector<char> mbk;
Itv mBound(uint32_t m) {
  if (mb.size() < monos.size()) { mb.resize(monos.size() * 2); mbk.resize(monos.size() * 2, 0); }
  if (mbk[m]) return mb[m];
  Itv r{1, 1};
  for (auto& p : monos[m].v) r = iMul(r, iPow(atoms[p.first].b, p.second));
  mb[m] = r; mbk[m] = 1; return r;
}
void invalidateBounds() { std::fill(mbk.begin(), mbk.end(), 0); }
Itv pBound(const Poly& p) {
  double lo = 0, hi = 0;
  for (auto& t : p.t) {
    double c = t.c.get_d(); Itv b = iMul({c, c}, mBound(t.m));
    lo += b.lo; hi += b.hi;
  }
  double e = 0; (void)e;
  return {lo - std::fabs(lo) * 1e-13, hi + std::fabs(hi) * 1e-13};
}
long double atomEval(int a, std::vector<long double>& av, std::vector<char>& known) {
  if (known[a]) return av[a];
  const Atom A = atoms[a];
  auto ev = [&](const Poly& p) -> long double { return pEval(p, av, known); };
  long double r = 0;
  switch (A.kind) {
    case A_VAR: r = 0; break;
    case A_SQRT: r = sqrtl(std::max(0.0L, ev(A.a1))); break;
    case A_CSQ_RE: { long double x = ev(A.a1), y = ev(A.a2), h = hypotl(x, y); r = sqrtl(std::max(0.0L, (h + x) / 2)); break; }
    case A_CSQ_IM: { long double x = ev(A.a1), y = ev(A.a2), h = hypotl(x, y); r = sqrtl(std::max(0.0L, (h - x) / 2)); if (y < 0) r = -r; break; }
    case A_COS: r = cosl(ev(A.a1)); break;
    case A_SIN: r = sinl(ev(A.a1)); break;
    case A_COSH: r = coshl(ev(A.a1)); break;
    case A_SINH: r = sinhl(ev(A.a1)); break;
    case A_EXP: r = expl(ev(A.a1)); break;
    case A_LOG: r = logl(ev(A.a1)); break;
    case A_LOG2: r = log2l(ev(A.a1)); break;
    case A_INV: r = 1.0L / ev(A.a1); break;
    case A_ATAN2: r = atan2l(ev(A.a1), ev(A.a2)); break;
    case A_FUN: r = A.fn ? A.fn((double)ev(A.a1)) : 0; break;
  }
  av[a] = r; known[a] = 1; return r;
}
double pEval(const Poly& p, std::vector<long double>& av, std::vector<char>& known) {
  long double s = 0;
  for (auto& t : p.t) {
    long double x = t.c.get_d();
    for (auto& q : monos[t.m].v) { long double y = atomEval(q.first, av, known); for (int k = 0; k < q.second; k++) x *= y; }
    s += x;
  }
  return (double)s;
}
bool pApproxEq(const Poly& a, const Poly& b, double rel) {
  double mx = 0;
  for (auto& t : a.t) mx = std::max(mx, std::fabs(t.c.get_d()));
  for (auto& t : b.t) mx = std::max(mx, std::fabs(t.c.get_d()));
  if (mx == 0) return true;
  if (a.t.size() == b.t.size()) { bool same = true; for (size_t i = 0; i < a.t.size() && same; i++) same = a.t[i].m == b.t[i].m && a.t[i].c == b.t[i].c; if (same) return true; }
  Poly d = pSub(a, b);
  for (auto& t : d.t) if (std::fabs(t.c.get_d()) > rel * mx) return false;
  return true;
}
int newVar(const std::string& name, double lo, double hi) { Atom a; a.kind = A_VAR; a.name = name; a.b = {lo, hi}; atoms.push_back(a); return atoms.size() - 1; }
static Itv fb(AtomKind k, Itv a) {
  switch (k) {
    case A_SQRT: return {dn(std::sqrt(std::max(0.0, a.lo))), up(std::sqrt(std::max(0.0, a.hi)))};
    case A_COS: case A_SIN: {
      // use the argument range for small intervals
      if (std::isfinite(a.lo) && std::isfinite(a.hi) && a.hi - a.lo < 3) {
        auto f = [&](double x) { return k == A_COS ? std::cos(x) : std::sin(x); };
        double lo = std::min(f(a.lo), f(a.hi)), hi = std::max(f(a.lo), f(a.hi));
        double off = k == A_COS ? 0 : M_PI_2;
        double n1 = std::ceil((a.lo - off) / M_PI), n2 = std::floor((a.hi - off) / M_PI);
        for (double n = n1; n <= n2; n++) { if (std::fmod(std::fabs(n), 2) == 0) hi = 1; else lo = -1; }
        return {dn(lo) - 1e-15, up(hi) + 1e-15};
      }
      return {-1, 1}; }
    case A_COSH: { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); double n = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi)); return {dn(std::cosh(n)), up(std::cosh(m))}; }
    case A_SINH: return {dn(std::sinh(a.lo)), up(std::sinh(a.hi))};
    case A_EXP: return {dn(std::exp(a.lo)), up(std::exp(a.hi))};
    case A_LOG: return {a.lo > 0 ? dn(std::log(a.lo)) : -INFINITY, a.hi > 0 ? up(std::log(a.hi)) : INFINITY};
    case A_LOG2: return {a.lo > 0 ? dn(std::log2(a.lo)) : -INFINITY, a.hi > 0 ? up(std::log2(a.hi)) : INFINITY};
    case A_INV: if (a.lo > 0 || a.hi < 0) return {dn(1 / a.hi), up(1 / a.lo)}; return {-INFINITY, INFINITY};
    case A_ATAN2: return {-3.1415926535897936, 3.1415926535897936};
    default: return {-INFINITY, INFINITY};
  }
}
int funAtom(AtomKind k, const std::string& nm, const Poly& a1, const Poly* a2, double (*fn)(double)) {
  for (size_t i = 0; i < atoms.size(); i++) {
    Atom& A = atoms[i];
    if (A.kind != k || A.name != nm) continue;
    if (!pApproxEq(A.a1, a1, 1e-12)) continue;
    if (a2 && !pApproxEq(A.a2, *a2, 1e-12)) continue;
    return i;
  }
  Atom a; a.kind = k; a.name = nm; a.a1 = a1; if (a2) a.a2 = *a2; a.fn = fn; a.b = fb(k, pBound(a1));
  atoms.push_back(a); return atoms.size() - 1;
}
std::string pStr(const Poly& p, int maxTerms) {
  std::ostringstream o; int n = 0;
  if (p.t.empty()) return "0";
  std::vector<const Term*> ts; for (auto& t : p.t) ts.push_back(&t);
  std::sort(ts.begin(), ts.end(), [](const Term* a, const Term* b) { return std::fabs(a->c.get_d()) > std::fabs(b->c.get_d()); });
  for (auto* tp : ts) { auto& t = *tp;
    if (n++ == maxTerms) { o << " + ...(" << p.t.size() << " terms)"; break; }
    if (n > 1) o << " + "; o << t.c.get_d();
    for (auto& q : monos[t.m].v) { o << "*" << atoms[q.first].name << "#" << q.first; if (q.second > 1) o << "^" << q.second; }
  }
  return o.str();
}
bool pNegLead(const Poly& p) { if (p.t.empty()) return false; return p.t.back().c < 0; }
void rSqrt(const Poly& p, Poly& r) {
  if (p.isConst()) { mpq_class c = p.constVal(); r = pConst(mpq_class(std::sqrt(std::max(0.0, c.get_d())))); return; }
  // pull out a rational square factor so that sqrt(4x) and sqrt(x) share an atom
  mpq_class lead = abs(p.t.back().c); double s = std::sqrt(lead.get_d());
  int e; std::frexp(s, &e); mpq_class f = 1; // power of two scaling only (exact)
  if (e > 0) mpz_mul_2exp(f.get_num_mpz_t(), f.get_num_mpz_t(), e); else if (e < 0) { mpz_mul_2exp(f.get_den_mpz_t(), f.get_den_mpz_t(), -e); }
  Poly q = pScale(p, 1 / (f * f));
  // single monomial squares
  int a = funAtom(A_SQRT, "sqrt", q);
  r = pScale(pAtom(a), f);
}
// multiple-angle canonicalisation: if p is close to k*arg of an existing cosine, expand
bool noAngle = false; // option --noangle: treat cos(kx), k>1, as independent atoms
static bool multiple(const Poly& p, const Poly& base, int& k) {
  if (noAngle) return false;
  if (base.t.empty() || p.t.empty()) return false;
  double r = p.t.back().c.get_d() / base.t.back().c.get_d();
  if (p.t.back().m != base.t.back().m) return false;
  k = (int)std::lround(r);
  if (k == 0 || std::abs(k) > 12 || std::fabs(r - k) > 1e-12 * std::abs(k)) return false;
  return pApproxEq(p, pScale(base, k), 1e-12);
}
static Poly fromD(double d) { return pConst(mpq_class(d)); }
static void splitConst(const Poly& p, Poly& rest, double& c) {
  c = 0; rest = p;
  if (!p.t.empty() && p.t[0].m == 0) { c = p.t[0].c.get_d(); rest.t.erase(rest.t.begin()); }
}
static bool trigNoise(Poly&p){ // drop relative 1e-14 noise terms in arguments
  double mx=0; for(auto&t:p.t) mx=std::max(mx,std::fabs(t.c.get_d()));
  size_t n=p.t.size(); std::vector<Term> k; for(auto&t:p.t) if(std::fabs(t.c.get_d())>1e-14*mx) k.push_back(t); p.t=k; return k.size()!=n; }
void rCosSin(const Poly& p0, Poly& c, Poly& s) {
  Poly p = p0;
  if (p.isConst()) { double v = p.constVal().get_d(); c = fromD(std::cos(v)); s = fromD(std::sin(v)); return; }
  Poly rest; double k0; splitConst(p, rest, k0);
  if (k0 != 0) { Poly cc, ss; rCosSin(rest, cc, ss); Poly ck = fromD(std::cos(k0)), sk = fromD(std::sin(k0));
    c = pSub(pMul(cc, ck), pMul(ss, sk)); s = pAdd(pMul(ss, ck), pMul(cc, sk)); return; }
  trigNoise(p);
  bool neg = pNegLead(p); if (neg) p = pScale(p, -1);
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == A_COS) {
    int k; if (multiple(p, atoms[i].a1, k) && k > 1) {
      int pt = atoms[i].partner; Poly c1 = pAtom(i), s1 = pAtom(pt), C = pConst(1), S = pConst(0);
      for (int j = 0; j < k; j++) { Poly C2 = pSub(pMul(C, c1), pMul(S, s1)), S2 = pAdd(pMul(S, c1), pMul(C, s1)); C = C2; S = S2; }
      c = C; s = neg ? pScale(S, -1) : S; return;
    }
  }
  size_t n0 = atoms.size();
  int ca = funAtom(A_COS, "cos", p), sa = funAtom(A_SIN, "sin", p);
  atoms[ca].partner = sa; atoms[sa].partner = ca; (void)n0;
  c = pAtom(ca); s = pAtom(sa); if (neg) s = pScale(s, -1);
}
void rCoshSinh(const Poly& p0, Poly& c, Poly& s) {
  Poly p = p0;
  if (p.isConst()) { double v = p.constVal().get_d(); c = fromD(std::cosh(v)); s = fromD(std::sinh(v)); return; }
  Poly rest; double k0; splitConst(p, rest, k0);
  if (k0 != 0) { Poly cc, ss; rCoshSinh(rest, cc, ss); Poly ck = fromD(std::cosh(k0)), sk = fromD(std::sinh(k0));
    c = pAdd(pMul(cc, ck), pMul(ss, sk)); s = pAdd(pMul(ss, ck), pMul(cc, sk)); return; }
  trigNoise(p);
  bool neg = pNegLead(p); if (neg) p = pScale(p, -1);
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == A_COSH) {
    int k; if (multiple(p, atoms[i].a1, k) && k > 1) {
      int pt = atoms[i].partner; Poly c1 = pAtom(i), s1 = pAtom(pt), C = pConst(1), S = pConst(0);
      for (int j = 0; j < k; j++) { Poly C2 = pAdd(pMul(C, c1), pMul(S, s1)), S2 = pAdd(pMul(S, c1), pMul(C, s1)); C = C2; S = S2; }
      c = C; s = neg ? pScale(S, -1) : S; return;
    }
  }
  int ca = funAtom(A_COSH, "cosh", p), sa = funAtom(A_SINH, "sinh", p);
  atoms[ca].partner = sa; atoms[sa].partner = ca;
  c = pAtom(ca); s = pAtom(sa); if (neg) s = pScale(s, -1);
}
Poly rExp(const Poly& p0) {
  Poly p = p0;
  if (p.isConst()) return fromD(std::exp(p.constVal().get_d()));
  Poly rest; double k0; splitConst(p, rest, k0);
  if (k0 != 0) return pScale(rExp(rest), mpq_class(std::exp(k0)));
  // exp(p) = cosh p + sinh p : shares atoms (and the relation ch^2-sh^2=1) with hyperbolic functions
  Poly c, s; rCoshSinh(p, c, s); return pAdd(c, s);
}
bool csqrtFromHint(const Poly& x, const Poly& y, Poly& re, Poly& im) {
  for (auto& h : csqrtHints) { // x + iy = f^2 h^2 with a positive factor f
    Poly hx = pSub(pMul(h.first, h.first), pMul(h.second, h.second)), hy = pScale(pMul(h.first, h.second), 2);
    const Term* best = nullptr; bool inX = true;
    for (auto& t : hx.t) if (!best || std::fabs(t.c.get_d()) > std::fabs(best->c.get_d())) best = &t;
    for (auto& t : hy.t) if (!best || std::fabs(t.c.get_d()) > std::fabs(best->c.get_d())) { best = &t; inX = false; }
    if (!best) continue;
    const Term* me = nullptr; for (auto& t : (inX ? x : y).t) if (t.m == best->m) me = &t;
    if (!me) continue;
    mpq_class q2(me->c / best->c); double f2 = q2.get_d(); if (!(f2 > 0)) continue;
    Poly dx = pSub(x, pScale(hx, q2)), dy = pSub(y, pScale(hy, q2)); double lim = 1e-12 * std::fabs(me->c.get_d()); bool ok = true;
    for (auto& t : dx.t) ok = ok && std::fabs(t.c.get_d()) <= lim; for (auto& t : dy.t) ok = ok && std::fabs(t.c.get_d()) <= lim;
    if (!ok) continue;
    mpq_class f(std::sqrt(f2)); re = pScale(h.first, f); im = pScale(h.second, f); return true;
  }
  return false;
}
void rCsqrt(const Poly& x, const Poly& y, Poly& re, Poly& im) {
  if (csqrtFromHint(x, y, re, im)) return;
  // canonical power-of-two scaling
  const Poly& ref = x.t.empty() ? y : x;
  double s = std::sqrt(std::fabs(ref.t.back().c.get_d())); int e; std::frexp(s, &e); mpq_class f = 1;
  if (e > 0) mpz_mul_2exp(f.get_num_mpz_t(), f.get_num_mpz_t(), e); else if (e < 0) mpz_mul_2exp(f.get_den_mpz_t(), f.get_den_mpz_t(), -e);
  Poly X = pScale(x, 1 / (f * f)), Y = pScale(y, 1 / (f * f));
  int a = funAtom(A_CSQ_RE, "csqrt_re", X, &Y), b = funAtom(A_CSQ_IM, "csqrt_im", X, &Y);
  if (atoms[a].partner < 0) {
    atoms[a].partner = b; atoms[b].partner = a;
    Itv bx = pBound(X), by = pBound(Y);
    double M = std::hypot(std::max(std::fabs(bx.lo), std::fabs(bx.hi)), std::max(std::fabs(by.lo), std::fabs(by.hi)));
    atoms[a].b = {0, up(std::sqrt(M))}; atoms[b].b = {-up(std::sqrt(M)), up(std::sqrt(M))};
    if (bx.lo > 0) atoms[a].b.lo = dn(std::sqrt(bx.lo));
    if (by.lo >= 0) atoms[b].b.lo = 0; if (by.hi <= 0) atoms[b].b.hi = 0;
  }
  re = pScale(pAtom(a), f); im = pScale(pAtom(b), f);
}
Poly rInv(const Poly& p) {
  if (p.isConst()) return pConst(1 / p.constVal());
  double mx = 0; for (auto& t : p.t) mx = std::max(mx, std::fabs(t.c.get_d()));
  mpq_class lead; for (auto& t : p.t) if (std::fabs(t.c.get_d()) >= 1e-6 * mx) lead = t.c; // not a coefficient that is rounding noise
  Poly q = pScale(p, 1 / lead);
  if (q.t.size() == 1) { // 1/(x^a y^b) = inv(x)^a inv(y)^b
    auto mv = monos[q.t[0].m].v; 
    if (!(mv.size() == 1 && mv[0].second == 1)) {
      Poly r = pConst(1 / lead);
      for (auto& f : mv) { Poly base = atoms[f.first].kind == A_INV ? atoms[f.first].a1 : rInv(pAtom(f.first)); for (int e = 0; e < f.second; e++) r = pMul(r, base); }
      return r;
    }
    if (atoms[mv[0].first].kind == A_INV) return pScale(atoms[mv[0].first].a1, 1 / lead);
  }
  int a = funAtom(A_INV, "inv", q);
  if (q.t.size() == 1 && monos[q.t[0].m].v.size() == 1 && monos[q.t[0].m].v[0].second == 1) atoms[a].partner = monos[q.t[0].m].v[0].first;
  return pScale(pAtom(a), 1 / lead);
}
Poly pClearInv(const Poly& p0) {
  Poly p = p0;
  for (int guard = 0; guard < 200; guard++) {
    int best = -1, be = 0;
    for (auto& t : p.t) for (auto& q : monos[t.m].v) if (atoms[q.first].kind == A_INV && q.first > best) best = q.first;
    if (best < 0) return p;
    for (auto& t : p.t) be = std::max(be, expOf(monos[t.m].v, best));
    std::vector<Poly> pw; pw.push_back(pConst(1)); for (int i = 1; i <= be; i++) pw.push_back(pMul(pw.back(), atoms[best].a1));
    std::vector<Poly> grp(be + 1);
    for (auto& t : p.t) { int e = expOf(monos[t.m].v, best); Poly u; u.t.push_back({monoOf(decr(monos[t.m].v, best, e)), t.c}); grp[e].t.push_back(u.t[0]); }
    Poly r;
    for (int e = 0; e <= be; e++) { std::sort(grp[e].t.begin(), grp[e].t.end(), [](const Term& x, const Term& y) { return x.m < y.m; }); r = pAdd(r, pMul(grp[e], pw[be - e])); }
    p = r;
  }
  return p;
}
