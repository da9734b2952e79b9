// Exact real arithmetic on sparse polynomials over "atoms" (symbolic reals).
#pragma once
#include <gmpxx.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <string>
#include <cmath>
#include <cstdint>
#include <algorithm>
#include <functional>
#include <memory>

struct Term { uint32_t m; mpq_class c; };
struct Poly {
  std::vector<Term> t; // sorted by monomial id, no zero coefficients
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m == 0); }
  mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].c; }
  bool isZero() const { return t.empty(); }
};
struct Itv { double lo, hi; };

enum AtomKind { A_VAR, A_SQRT, A_CSQ_RE, A_CSQ_IM, A_COS, A_SIN, A_COSH, A_SINH, A_EXP, A_LOG, A_LOG2, A_INV, A_ATAN2, A_FUN };
struct Atom {
  AtomKind kind; std::string name; Itv b; Poly a1, a2; int partner = -1; double (*fn)(double) = nullptr;
};
struct Mono { std::vector<std::pair<int,int>> v; bool redChecked = false; std::shared_ptr<Poly> red; };

extern std::vector<Atom> atoms;
extern std::vector<Mono> monos;
uint32_t monoOf(const std::vector<std::pair<int,int>>& v);
Poly pConst(const mpq_class& c);
Poly pAtom(int a);
Poly pAdd(const Poly& a, const Poly& b);
Poly pSub(const Poly& a, const Poly& b);
Poly pScale(const Poly& a, const mpq_class& c);
Poly pMul(const Poly& a, const Poly& b);
extern void (*polyTick)(size_t);
Itv pBound(const Poly& p);
Itv mBound(uint32_t m);
double pEval(const Poly& p, std::vector<long double>& atomVal, std::vector<char>& known);
long double atomEval(int a, std::vector<long double>& av, std::vector<char>& known);
bool pApproxEq(const Poly& a, const Poly& b, double rel);
int newVar(const std::string& name, double lo, double hi);
int funAtom(AtomKind k, const std::string& nm, const Poly& a1, const Poly* a2 = nullptr, double (*fn)(double) = nullptr);
std::string pStr(const Poly& p, int maxTerms = 8);
Poly pClearInv(const Poly& p); // multiply out all A_INV atoms
// complex helpers
void rSqrt(const Poly& p, Poly& r);            // p >= 0 assumed
void rCosSin(const Poly& p, Poly& c, Poly& s);
void rCoshSinh(const Poly& p, Poly& c, Poly& s);
void rCsqrt(const Poly& x, const Poly& y, Poly& re, Poly& im);
bool csqrtFromHint(const Poly& x, const Poly& y, Poly& re, Poly& im);
Poly rInv(const Poly& p);
Poly rExp(const Poly& p);
extern std::vector<std::pair<Poly,Poly>> csqrtHints;
Itv iMul(Itv a, Itv b);
bool pNegLead(const Poly&p);
extern bool noAngle;
