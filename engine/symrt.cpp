// Symbolic runtime for LLVM-IR-instrumented Rust code.
//
// Every floating-point instruction of the instrumented crates calls into this file.  A symbolic double is
// "boxed": a double whose bit pattern carries a tag and an index into `vals`, so it travels through memory,
// containers, files and formatting of the real code unchanged.  Concrete doubles are computed natively.
// A comparison on symbolic values is a branch: the SMT solver (z3) is asked which sides are feasible under the
// path condition; if both are, the process forks and both are explored.
//
// Arithmetic models (per harness):
//   REAL     values are quotients of polynomials over exact rationals and atoms (inputs, square roots, half-angle
//            sine/cosine pairs); solver logic: nonlinear real arithmetic.
//   LATTICE  as REAL, but inputs are bounded integers and queries are emitted as exact bit-vector arithmetic.
//            The runtime checks that every intermediate fits in 53 bits, so f64 arithmetic is exact.
//   FP       values are IEEE-754 expression DAGs; solver logic: QF_FP (bit-precise, NaN and infinities included).
#include <gmpxx.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

using std::map; using std::pair; using std::set; using std::string; using std::vector;
typedef mpq_class Q;

enum Mode { REAL = 0, LATTICE = 1, FP = 2 };
static Mode mode = REAL;
static int cfg_timeout_ms = 20000;
static int cfg_workers = 1;
static double cfg_deadline = 1e18;
static long cfg_max_ops = 4000000;
static long cfg_witness = 12;
static long cfg_max_cand = 6;
static long cfg_cpu_s = 60;
static string cfg_out = "/tmp/symout";
static string cfg_z3 = "z3-new";
static int cfg_verbose = 0;
static bool active = false;
static bool exact_div = false;  // quotients of concrete operands that do not fit a double stay exact rationals

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Stats {
  std::atomic<long> paths, dead, panics, ops, queries, q_sat, q_unsat, q_unknown, solver_us, forks, obligations,
      discharged, trivially, undecided, violations, witnesses, aborted_ops, aborted_cpu, aborted_deadline, tokens,
      signals, branch_queries, unknown_branches, inexact, concretised, reach[64], to_bits, opaque, max_query_ms;
  std::atomic<unsigned char> entered[8192];
};
static Stats *st;

// ---------------------------------------------------------------- polynomials
typedef vector<uint16_t> Mono;  // sorted atom ids with repetition
struct MonoLess {               // lex monomial order, atom 0 largest
  bool operator()(const Mono &a, const Mono &b) const {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] > b[i];
    return a.size() < b.size();
  }
};
struct Poly {
  map<Mono, Q, MonoLess> t;
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  Q constant() const { auto it = t.find(Mono()); return it == t.end() ? Q(0) : it->second; }
  const Mono &lm() const { return t.rbegin()->first; }
  const Q &lc() const { return t.rbegin()->second; }
};
static bool operator<(const Poly &a, const Poly &b) {
  auto i = a.t.begin(), j = b.t.begin(); MonoLess L;
  for (; i != a.t.end() && j != b.t.end(); ++i, ++j) {
    if (L(i->first, j->first)) return true; if (L(j->first, i->first)) return false;
    int c = cmp(i->second, j->second); if (c) return c < 0;
  }
  return i == a.t.end() && j != b.t.end();
}
static bool operator==(const Poly &a, const Poly &b) { return a.t == b.t; }
static Poly pconst(const Q &c) { Poly p; if (c != 0) p.t[Mono()] = c; return p; }
static Poly patom(int a) { Poly p; p.t[Mono{(uint16_t)a}] = 1; return p; }
static void addTerm(Poly &p, const Mono &m, const Q &c) {
  auto r = p.t.emplace(m, c);
  if (!r.second) { r.first->second += c; if (r.first->second == 0) p.t.erase(r.first); }
}
static Poly padd(const Poly &a, const Poly &b, const Q &k = 1) {
  Poly r = a; for (auto &x : b.t) { Q c = x.second * k; addTerm(r, x.first, c); } return r;
}
static Poly pscale(const Poly &a, const Q &k) { Poly r; if (k == 0) return r; r = a; for (auto &x : r.t) x.second *= k; return r; }
static Mono mmul(const Mono &a, const Mono &b) { Mono r(a.size() + b.size()); std::merge(a.begin(), a.end(), b.begin(), b.end(), r.begin()); return r; }
static Poly pmulRaw(const Poly &a, const Poly &b) {
  Poly r; for (auto &x : a.t) for (auto &y : b.t) { Q c = x.second * y.second; addTerm(r, mmul(x.first, y.first), c); } return r;
}

// ---------------------------------------------------------------- formulas
enum Op { LT, LE, EQ, NE };
enum FK { FTRUE, FFALSE, FATOM, FAND, FOR, FFP };
struct Formula {
  FK k = FTRUE; Poly p; Op op = LT; vector<Formula> ch; int fp = -1; bool neg = false;
};
static Formula ftrue() { return Formula(); }
static Formula fatom(Poly p, Op op);
static Formula ffalse() { Formula f; f.k = FFALSE; return f; }
static Formula fnot(const Formula &f) {
  Formula r = f;
  switch (f.k) {
    case FTRUE: r.k = FFALSE; break;
    case FFALSE: r.k = FTRUE; break;
    case FATOM:
      switch (f.op) {
        case EQ: r.op = NE; break;
        case NE: r.op = EQ; break;
        case LT: return fatom(pscale(f.p, -1), LE);  // !(p<0) = -p<=0
        case LE: return fatom(pscale(f.p, -1), LT);
      }
      break;
    case FAND: case FOR: r.k = f.k == FAND ? FOR : FAND; for (auto &c : r.ch) c = fnot(c); break;
    case FFP: r.neg = !f.neg; break;
  }
  return r;
}
static int tightenInt(Poly &p, Op &op);  // LATTICE: integer normal form; 0 kept, 1 true, -1 false
static Formula fatom(Poly p, Op op) {
  Formula f;
  if (p.isConst()) {
    int s = sgn(p.constant()); bool v = op == LT ? s < 0 : op == LE ? s <= 0 : op == EQ ? s == 0 : s != 0;
    return v ? ftrue() : ffalse();
  }
  if (mode == LATTICE) { int t = tightenInt(p, op); if (t == 1) return ftrue(); if (t == -1) return ffalse(); if (t == 2) { f.k = FATOM; f.p = p; f.op = op; return f; } }
  // normalise: leading coefficient +-1 (sign kept for inequalities)
  Q k = p.lc(); if (op == LT || op == LE) k = abs(k);
  if (k != 1) p = pscale(p, 1 / k);
  f.k = FATOM; f.p = p; f.op = op; return f;
}
static Formula fand(const Formula &a, const Formula &b) {
  if (a.k == FFALSE || b.k == FTRUE) return a; if (b.k == FFALSE || a.k == FTRUE) return b;
  Formula f; f.k = FAND; f.ch = {a, b}; return f;
}
static Formula forr(const Formula &a, const Formula &b) {
  if (a.k == FTRUE || b.k == FFALSE) return a; if (b.k == FTRUE || a.k == FFALSE) return b;
  Formula f; f.k = FOR; f.ch = {a, b}; return f;
}
static bool operator==(const Formula &a, const Formula &b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case FATOM: return a.op == b.op && a.p == b.p;
    case FAND: case FOR: return a.ch.size() == b.ch.size() && std::equal(a.ch.begin(), a.ch.end(), b.ch.begin());
    case FFP: return a.fp == b.fp && a.neg == b.neg;
    default: return true;
  }
}

// ---------------------------------------------------------------- atoms
enum AK { A_INPUT, A_INT, A_SQRT, A_COS, A_SIN, A_ANGLE, A_FRESH };
struct Atom {
  string name; AK kind; bool haslo = false, hashi = false; Q lo, hi;
  bool rule = false; Poly rhs;       // x^2 -> rhs
  vector<Formula> facts;             // defining constraints, in unreduced form
  int hc = -1, hs = -1;              // half-angle pair of an angle atom
  bool ranged = false;               // angle in [0,2pi)
  double hint = 0; bool hasHint = false;
};
static vector<Atom> atoms;
static int tightenInt(Poly &p, Op &op) {
  mpz_class den = 1, g = 0; Q c = 0;
  for (auto &x : p.t) { if (x.first.empty()) { c = x.second; continue; } for (int a : x.first) if (atoms[a].kind != A_INT) return 0; den = lcm(den, x.second.get_den()); }
  Poly r; 
  for (auto &x : p.t) if (!x.first.empty()) { Q v = x.second * Q(den); g = gcd(g, v.get_num()); r.t[x.first] = v; }
  if (g == 0) return 0;
  Q k = Q(den) / Q(g); c *= k; for (auto &x : r.t) x.second /= Q(g);
  auto fl = [](const Q &q) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return z; };
  if (op == EQ || op == NE) {
    if (c.get_den() != 1) return op == EQ ? -1 : 1;
    if (r.lc() < 0) { r = pscale(r, -1); c = -c; }
  } else {
    mpz_class b = fl(-c); if (op == LT && Q(b) == -c) b -= 1;   // r <= b
    c = Q(-b); op = LE;
  }
  if (c != 0) r.t[Mono()] = c;
  p = r; return 2;
}
struct InputRec { string kind, name; int a = -1, b = -1; double conc = 0; int fnode = -1; };
static vector<InputRec> inputs;

static int newAtom(const string &name, AK k) { Atom a; a.name = name + "_" + std::to_string(atoms.size()); a.kind = k; atoms.push_back(a); if (atoms.size() > 60000) { fprintf(stderr, "too many atoms\n"); _exit(3);} return (int)atoms.size() - 1; }

static Poly reduce(const Poly &p) {
  bool any = false;
  for (auto &x : p.t) for (size_t i = 1; i < x.first.size(); i++) if (x.first[i] == x.first[i - 1] && atoms[x.first[i]].rule) { any = true; break; }
  if (!any) return p;
  Poly r, todo = p;
  while (!todo.t.empty()) {
    auto it = std::prev(todo.t.end()); Mono m = it->first; Q c = it->second; todo.t.erase(it);
    int hit = -1;
    for (size_t i = 1; i < m.size(); i++) if (m[i] == m[i - 1] && atoms[m[i]].rule) { hit = i; break; }
    if (hit < 0) { addTerm(r, m, c); continue; }
    int a = m[hit]; m.erase(m.begin() + hit - 1, m.begin() + hit + 1);
    for (auto &y : atoms[a].rhs.t) { Q k = c * y.second; addTerm(todo, mmul(m, y.first), k); }
  }
  return r;
}
static Poly pmul(const Poly &a, const Poly &b) { return reduce(pmulRaw(a, b)); }

// exact division (as free polynomials); returns false if not divisible
static bool mdiv(const Mono &a, const Mono &b, Mono &q) {
  q.clear(); size_t j = 0;
  for (size_t i = 0; i < a.size(); i++) { if (j < b.size() && a[i] == b[j]) j++; else q.push_back(a[i]); }
  return j == b.size();
}
static bool pdivExact(const Poly &a, const Poly &b, Poly &q) {
  q = Poly(); Poly r = a; Mono m;
  while (!r.isZero()) {
    if (!mdiv(r.lm(), b.lm(), m)) return false;
    Q c = r.lc() / b.lc(); addTerm(q, m, c);
    for (auto &y : b.t) { Q k = -c * y.second; addTerm(r, mmul(m, y.first), k); }
  }
  return true;
}
static Q isqrtQ(const Q &c, bool &ok) {
  ok = false; if (c < 0) return 0;
  mpz_class n = c.get_num(), d = c.get_den(); if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return 0;
  ok = true; mpz_class a = sqrt(n), b = sqrt(d); return Q(a, b);
}
static bool psqrtExact(const Poly &p, Poly &out) {
  // leading-term square root
  if (p.isZero()) { out = p; return true; }
  bool ok; Q c = isqrtQ(p.lc(), ok); if (!ok) return false;
  const Mono &m = p.lm(); if (m.size() % 2) return false; Mono h;
  for (size_t i = 0; i < m.size(); i += 2) { if (m[i] != m[i + 1]) return false; h.push_back(m[i]); }
  for (int a : m) if (atoms[a].rule) return false;
  Poly s; addTerm(s, h, c); Poly lead = s;
  for (int it = 0; it < 60; it++) {
    Poly r = padd(p, pmulRaw(s, s), -1); if (r.isZero()) { out = s; return true; }
    Mono q; if (!mdiv(r.lm(), lead.lm(), q)) return false;
    if (!MonoLess()(q, lead.lm())) return false;
    addTerm(s, q, r.lc() / (2 * lead.lc()));
  }
  return false;
}

// ---------------------------------------------------------------- rational functions
struct Factor { Poly p; int sign = 0; };  // sign is path-dependent: 0 unknown
static vector<Factor> factors;
static map<Poly, int> factorIx;
struct Rat { Poly n; map<int, int> d; };
static Rat rconst(const Q &c) { Rat r; r.n = pconst(c); return r; }
static bool isC(const Rat &r) { return r.d.empty() && r.n.isConst(); }
static void cancel(Rat &r) {
  if (r.n.isZero()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    Poly q;
    while (it->second > 0 && pdivExact(r.n, factors[it->first].p, q)) { r.n = q; it->second--; }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
static Poly fpow(int f, int e) { Poly r = pconst(1); while (e-- > 0) r = pmul(r, factors[f].p); return r; }
static Rat radd(const Rat &a, const Rat &b, const Q &k = 1) {
  Rat r;
  if (a.d == b.d) { r.n = padd(a.n, b.n, k); r.d = a.d; if (!r.d.empty()) cancel(r); else if (r.n.isZero()) r.d.clear(); return r; }
  r.d = a.d; for (auto &x : b.d) { int &e = r.d[x.first]; e = std::max(e, x.second); }
  Poly na = a.n, nb = b.n;
  for (auto &x : r.d) {
    auto ia = a.d.find(x.first), ib = b.d.find(x.first);
    int ea = ia == a.d.end() ? 0 : ia->second, eb = ib == b.d.end() ? 0 : ib->second;
    if (x.second > ea) na = pmul(na, fpow(x.first, x.second - ea));
    if (x.second > eb) nb = pmul(nb, fpow(x.first, x.second - eb));
  }
  r.n = padd(na, nb, k); cancel(r); return r;
}
static Rat rmul(const Rat &a, const Rat &b) {
  Rat r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto &x : b.d) r.d[x.first] += x.second; if (!r.d.empty()) cancel(r); return r;
}
static Rat rneg(const Rat &a) { Rat r = a; r.n = pscale(a.n, -1); return r; }

// ---------------------------------------------------------------- values
struct FNode { int op; vector<int> args; uint64_t bits = 0; string smt; };  // op 0 const, 1 input, else see emitFP
enum { F_CONST, F_IN, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_SQRT, F_MIN, F_MAX, F_FRESH, F_RTI, F_FMA, F_TO32,
       F_CMP_EQ, F_CMP_LT, F_CMP_LE, F_CMP_UNO };
static vector<FNode> fnodes;
static map<vector<int>, int> fnodeIx;
struct Val { bool isAbs = false; Rat r; int f = -1; };
static vector<Val> vals;
static const uint64_t TAG = 0x43C5A5A0ull;
static uint64_t bitsOf(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
static double dbl(uint64_t b) { double x; memcpy(&x, &b, 8); return x; }
static bool boxed(double x, int &id) { uint64_t b = bitsOf(x); if ((b >> 32) == TAG) { id = (int)(b & 0xffffffff); if (id >= (int)vals.size()) { fprintf(stderr, "stale box %d\n", id); _exit(3);} return true; } return false; }
static bool isBox(double x) { return (bitsOf(x) >> 32) == TAG; }
static double mkbox(const Val &v) { vals.push_back(v); return dbl((TAG << 32) | (uint64_t)(vals.size() - 1)); }
static double box(const Rat &r) {
  if (isC(r)) { Q c = r.n.constant(); double d = c.get_d(); if (std::isfinite(d) && Q(d) == c) return d; }
  if (mode == LATTICE && r.d.empty()) {
    // exactness certificate: |value| * 2^k < 2^53 with 2^-k the finest grid
    mpz_class den = 1; Q bound = 0; bool ok = true;
    for (auto &x : r.n.t) {
      den = lcm(den, x.second.get_den()); Q b = abs(x.second);
      for (int a : x.first) { if (atoms[a].kind != A_INT) { ok = false; break; } b *= std::max(abs(atoms[a].lo), abs(atoms[a].hi)); }
      bound += b;
    }
    if (ok) { mpz_class d2 = den; while (d2 % 2 == 0 && d2 > 1) d2 /= 2; if (d2 != 1 || bound * Q(den) >= Q(mpz_class(1) << 53)) ok = false; }
    if (!ok) st->inexact++;
  } else if (mode == LATTICE) st->inexact++;
  Val v; v.r = r; return mkbox(v);
}
static Q exactQ(double d) { return Q(d); }

// ---------------------------------------------------------------- path condition & solver
static vector<Formula> pc;
static map<int, Q> model; static bool modelOk = true;  // a model of pc (over atoms it mentions), when exact
static bool tainted = false;                            // an unknown answer was treated as feasible on this path

static void collect(const Formula &f, set<int> &s) {
  for (auto &x : f.p.t) for (int a : x.first) s.insert(a);
  for (auto &c : f.ch) collect(c, s);
}
static void collectF(int n, set<int> &s) { if (fnodes[n].op == F_IN || fnodes[n].op == F_FRESH) s.insert(n); for (int a : fnodes[n].args) collectF(a, s); }
static void collectAny(const Formula &f, set<int> &s) {
  if (f.k == FFP) { collectF(f.fp, s); return; }
  for (auto &x : f.p.t) for (int a : x.first) s.insert(a);
  for (auto &c : f.ch) collectAny(c, s);
}
static string qstr(const Q &q) {
  string r; Q a = abs(q);
  if (a.get_den() == 1) r = a.get_num().get_str() + ".0"; else r = "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
  return q < 0 ? "(- " + r + ")" : r;
}
static map<Mono, string> *linAbs = nullptr;  // when set, non-linear monomials print as opaque variables
static string polyStr(const Poly &p) {
  if (p.isZero()) return "0.0";
  string s; int n = 0;
  for (auto &x : p.t) {
    string t; int k = 0;
    if (x.second != 1 || x.first.empty()) { t += " " + qstr(x.second); k++; }
    if (linAbs && x.first.size() > 1) {
      auto &nm = (*linAbs)[x.first]; if (nm.empty()) { nm = "mono"; for (int a : x.first) nm += "_" + std::to_string(a); }
      t += " " + nm; k++;
    } else for (int a : x.first) { t += " " + atoms[a].name; k++; }
    s += k == 1 ? t : " (*" + t + ")"; n++;
  }
  return n == 1 ? s.substr(1) : "(+" + s + ")";
}
static string fstrReal(const Formula &f) {
  switch (f.k) {
    case FTRUE: return "true"; case FFALSE: return "false";
    case FATOM: { string p = polyStr(f.p); switch (f.op) { case LT: return "(< " + p + " 0.0)"; case LE: return "(<= " + p + " 0.0)"; case EQ: return "(= " + p + " 0.0)"; default: return "(not (= " + p + " 0.0))"; } }
    case FAND: case FOR: { string s = f.k == FAND ? "(and" : "(or"; for (auto &c : f.ch) s += " " + fstrReal(c); return s + ")"; }
    default: return "true";
  }
}
// ---- bit-vector emission
struct BV {
  std::ostringstream defs; map<Mono, pair<string, int>, MonoLess> mono; bool ok = true; int k = 0;
  static int blen(const mpz_class &v) { return v == 0 ? 1 : (int)mpz_sizeinbase(v.get_mpz_t(), 2); }
  static mpz_class amax(int a) { mpz_class l = abs(atoms[a].lo.get_num()), h = abs(atoms[a].hi.get_num()); return l > h ? l : h; }
  static string cst(const mpz_class &v, int w) { mpz_class m = v; if (m < 0) m += mpz_class(1) << w; return "(_ bv" + m.get_str() + " " + std::to_string(w) + ")"; }
  static int awidth(int a) { return blen(amax(a)) + 1; }
  static string ext(const string &s, int from, int to) { return to == from ? s : "((_ sign_extend " + std::to_string(to - from) + ") " + s + ")"; }
  pair<string, int> m(const Mono &mo) {
    auto it = mono.find(mo); if (it != mono.end()) return it->second;
    pair<string, int> r;
    if (mo.size() == 1) r = {atoms[mo[0]].name, awidth(mo[0])};
    else {
      Mono rest(mo.begin(), mo.end() - 1); auto a = m(rest); auto b = m(Mono{mo.back()});
      mpz_class bd = 1; for (int x : mo) bd *= amax(x); int w = blen(bd) + 1; w = std::max(w, std::max(a.second, b.second));
      string nm = "m" + std::to_string(k++);
      defs << "(define-fun " << nm << " () (_ BitVec " << w << ") (bvmul " << ext(a.first, a.second, w) << " " << ext(b.first, b.second, w) << "))\n";
      r = {nm, w};
    }
    mono[mo] = r; return r;
  }
  string f(const Formula &g) {
    switch (g.k) {
      case FTRUE: return "true"; case FFALSE: return "false";
      case FAND: case FOR: { string s = g.k == FAND ? "(and" : "(or"; for (auto &c : g.ch) s += " " + f(c); return s + ")"; }
      case FATOM: {
        mpz_class den = 1; for (auto &x : g.p.t) den = lcm(den, x.second.get_den());
        mpz_class bd = 0; for (auto &x : g.p.t) { Q c = x.second * Q(den); mpz_class b = abs(c.get_num()); for (int a : x.first) { if (atoms[a].kind != A_INT) { ok = false; return "true"; } b *= amax(a); } bd += b; }
        int w = blen(bd) + 2; string s; int n = 0;
        for (auto &x : g.p.t) {
          Q c = x.second * Q(den); mpz_class ci = c.get_num(); string t;
          if (x.first.empty()) t = cst(ci, w); else {
            auto mm = m(x.first); if (mm.second > w) w = mm.second; t = "";
          }
          (void)t; n++;
        }
        for (auto &x : g.p.t) {
          Q c = x.second * Q(den); mpz_class ci = c.get_num();
          if (x.first.empty()) s += " " + cst(ci, w);
          else { auto mm = m(x.first); string e = ext(mm.first, mm.second, w); if (ci == 1) s += " " + e; else if (ci == -1) s += " (bvneg " + e + ")"; else s += " (bvmul " + cst(ci, w) + " " + e + ")"; }
        }
        string p = n == 1 ? s.substr(1) : "(bvadd" + s + ")"; string z = cst(0, w);
        switch (g.op) { case LT: return "(bvslt " + p + " " + z + ")"; case LE: return "(bvsle " + p + " " + z + ")"; case EQ: return "(= " + p + " " + z + ")"; default: return "(not (= " + p + " " + z + "))"; }
      }
      default: return "true";
    }
  }
};
// ---- floating point emission
static string fpConst(uint64_t b) { char s[100]; snprintf(s, sizeof s, "((_ to_fp 11 53) #x%016llx)", (unsigned long long)b); return s; }
static void emitFP(int n, std::ostringstream &o, set<int> &done) {
  if (!done.insert(n).second) return; FNode &f = fnodes[n];
  for (int a : f.args) emitFP(a, o, done);
  auto A = [&](int i) { return "n" + std::to_string(f.args[i]); };
  string d = "(define-fun n" + std::to_string(n) + " () Float64 ";
  string b = "(define-fun n" + std::to_string(n) + " () Bool ";
  switch (f.op) {
    case F_CONST: o << d << fpConst(f.bits) << ")\n"; break;
    case F_IN: case F_FRESH: o << "(declare-const n" << n << " Float64)\n"; break;
    case F_ADD: o << d << "(fp.add RNE " << A(0) << " " << A(1) << "))\n"; break;
    case F_SUB: o << d << "(fp.sub RNE " << A(0) << " " << A(1) << "))\n"; break;
    case F_MUL: o << d << "(fp.mul RNE " << A(0) << " " << A(1) << "))\n"; break;
    case F_DIV: o << d << "(fp.div RNE " << A(0) << " " << A(1) << "))\n"; break;
    case F_NEG: o << d << "(fp.neg " << A(0) << "))\n"; break;
    case F_ABS: o << d << "(fp.abs " << A(0) << "))\n"; break;
    case F_SQRT: o << d << "(fp.sqrt RNE " << A(0) << "))\n"; break;
    case F_MIN: o << d << "(fp.min " << A(0) << " " << A(1) << "))\n"; break;
    case F_MAX: o << d << "(fp.max " << A(0) << " " << A(1) << "))\n"; break;
    case F_FMA: o << d << "(fp.fma RNE " << A(0) << " " << A(1) << " " << A(2) << "))\n"; break;
    case F_RTI: o << d << "(fp.roundToIntegral RNE " << A(0) << "))\n"; break;
    case F_TO32: o << d << "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " << A(0) << ")))\n"; break;
    case F_CMP_EQ: o << b << "(fp.eq " << A(0) << " " << A(1) << "))\n"; break;
    case F_CMP_LT: o << b << "(fp.lt " << A(0) << " " << A(1) << "))\n"; break;
    case F_CMP_LE: o << b << "(fp.leq " << A(0) << " " << A(1) << "))\n"; break;
    case F_CMP_UNO: o << b << "(or (fp.isNaN " << A(0) << ") (fp.isNaN " << A(1) << ")))\n"; break;
  }
}
static string fstrFP(const Formula &f, std::ostringstream &o, set<int> &done) {
  switch (f.k) {
    case FTRUE: return "true"; case FFALSE: return "false";
    case FFP: { emitFP(f.fp, o, done); string s = "n" + std::to_string(f.fp); return f.neg ? "(not " + s + ")" : s; }
    case FAND: case FOR: { string s = f.k == FAND ? "(and" : "(or"; for (auto &c : f.ch) s += " " + fstrFP(c, o, done); return s + ")"; }
    default: return "true";
  }
}

// ---- solver process
static pid_t z3pid = 0; static int z3in = -1, z3out = -1; static pid_t z3owner = 0; static string z3buf;
static void z3kill() { if (z3pid) { kill(z3pid, SIGKILL); if (z3owner == getpid()) waitpid(z3pid, 0, 0); } if (z3in >= 0) close(z3in); if (z3out >= 0) close(z3out); z3pid = 0; z3in = z3out = -1; z3buf.clear(); }
static void z3start() {
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); }
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(a[0], 0); dup2(b[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2);
    struct itimerval z = {}; setitimer(ITIMER_VIRTUAL, &z, 0);
    execlp(cfg_z3.c_str(), cfg_z3.c_str(), "-in", "-memory:3000", (char *)0); _exit(127);
  }
  close(a[0]); close(b[1]); z3pid = p; z3in = a[1]; z3out = b[0]; z3owner = getpid(); z3buf.clear();
}
static bool z3send(const string &s) {
  size_t o = 0; while (o < s.size()) { ssize_t n = write(z3in, s.data() + o, s.size() - o); if (n <= 0) return false; o += n; } return true;
}
static bool z3read(string &out, double tmax, const char *endmark) {
  double t0 = now(); out.clear();
  for (;;) {
    size_t p = z3buf.find(endmark);
    if (p != string::npos) { out = z3buf.substr(0, p); z3buf.erase(0, p + strlen(endmark)); if (!z3buf.empty() && z3buf[0] == '\n') z3buf.erase(0, 1); return true; }
    double left = tmax - (now() - t0); if (left <= 0) return false;
    struct pollfd pf = {z3out, POLLIN, 0}; int r = poll(&pf, 1, (int)(left * 1000) + 1); if (r <= 0) continue;
    char b[65536]; ssize_t n = read(z3out, b, sizeof b); if (n <= 0) return false; z3buf.append(b, n);
  }
}
enum Res { SAT, UNSAT, UNK };
static std::unordered_map<string, int> qcache;

// parse "((x 1.5) (y (- (/ 1.0 3.0))))"-style values
struct SX { string a; vector<SX> l; };
static SX parseSX(const string &s, size_t &i) {
  while (i < s.size() && isspace((unsigned char)s[i])) i++;
  SX r; if (i >= s.size()) return r;
  if (s[i] == '(') { i++; for (;;) { while (i < s.size() && isspace((unsigned char)s[i])) i++; if (i >= s.size()) break; if (s[i] == ')') { i++; break; } r.l.push_back(parseSX(s, i)); } return r; }
  while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != '(' && s[i] != ')') r.a += s[i++];
  return r;
}
static Q decQ(const string &s0, bool &exact) {
  string s = s0; if (!s.empty() && s.back() == '?') { exact = false; s.pop_back(); }
  size_t d = s.find('.'); if (d == string::npos) return Q(s);
  string fr = s.substr(d + 1); string all = s.substr(0, d) + fr; mpz_class den; mpz_ui_pow_ui(den.get_mpz_t(), 10, fr.size());
  size_t nz = all.find_first_not_of('0'); all = nz == string::npos ? "0" : all.substr(nz);
  Q q(mpz_class(all), den); q.canonicalize(); return q;
}
static Q sxQ(const SX &x, bool &exact) {
  if (x.l.empty()) { if (x.a.size() > 2 && x.a[0] == '#') { mpz_class v; v.set_str(x.a.substr(2), x.a[1] == 'b' ? 2 : 16); return Q(v); } if (x.a.empty() || !isdigit((unsigned char)x.a[0])) { exact = false; return 0; } return decQ(x.a, exact); }
  if (x.l[0].a == "-" && x.l.size() == 2) return -sxQ(x.l[1], exact);
  if (x.l[0].a == "-" && x.l.size() == 3) return sxQ(x.l[1], exact) - sxQ(x.l[2], exact);
  if (x.l[0].a == "/" && x.l.size() == 3) { Q a = sxQ(x.l[1], exact), b = sxQ(x.l[2], exact); if (b == 0) { exact = false; return 0; } return a / b; }
  exact = false; return 0;
}
static uint64_t sxFP(const SX &x) {
  if (x.l.size() == 4 && x.l[0].a == "fp") {
    string s; auto bin = [](const string &t) { string r; if (t[1] == 'b') return t.substr(2); for (size_t i = 2; i < t.size(); i++) { int v = t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10; for (int b = 3; b >= 0; b--) r += (v >> b & 1) ? '1' : '0'; } return r; };
    s = bin(x.l[1].a) + bin(x.l[2].a) + bin(x.l[3].a); uint64_t v = 0; for (char c : s) v = v << 1 | (c == '1'); return v;
  }
  if (x.l.size() >= 2 && x.l[0].a == "_") { const string &k = x.l[1].a; if (k == "+oo") return 0x7ff0000000000000ull; if (k == "-oo") return 0xfff0000000000000ull; if (k == "NaN") return 0x7ff8000000000000ull; if (k == "+zero") return 0; if (k == "-zero") return 0x8000000000000000ull; }
  return 0;
}
static map<int, uint64_t> lastFP;   // model of F_IN nodes
static map<int, Q> lastM; static bool lastExact;


// ---------------------------------------------------------------- order types
extern "C" { static bool polyRange(const Poly &p, Q &lo, Q &hi); }
// Points registered by the harness: conditions on their orientation determinants are decided over the signs of all triples, subject to the
// axioms of acyclic oriented matroids of rank 3.  Up to 8 points those axioms describe exactly the realisable configurations of the plane.
// Other conditions are treated as unconstrained signs.
static vector<pair<Poly, Poly>> chiPts; static vector<std::array<int, 3>> chiTri; static map<Poly, pair<int, int>> chiIx; static string chiAxioms; static bool chiro = false, linInc = false;
static int chiId(int a, int b, int c, int &s) { s = 1; if (a > b) { std::swap(a, b); s = -s; } if (b > c) { std::swap(b, c); s = -s; } if (a > b) { std::swap(a, b); s = -s; } for (size_t i = 0; i < chiTri.size(); i++) if (chiTri[i] == std::array<int, 3>{a, b, c}) return i; return -1; }
// the polynomial of an integer-normalised atom as (triple, sign, constant)
static bool chiMatch(const Poly &p, int &t, int &s, Q &c) {
  Poly q = p; c = 0; auto it = q.t.find(Mono()); if (it != q.t.end()) { c = it->second; q.t.erase(it); }
  auto i = chiIx.find(q); if (i == chiIx.end()) return false; t = i->second.first; s = i->second.second; return true;
}
static string chiP(int t, int s) { return string(s > 0 ? "p" : "n") + std::to_string(t); }
static std::unordered_set<string> chiDecl;  // names of other signs declared in the solver
static string chiAtom(const Formula &f, string &decl) {
  int t, s; Q c;
  string P, N;  // the polynomial's non-constant part is positive / negative
  auto other = [&](const string &key, bool *isNew = nullptr) { string n = "|" + key + "|"; if (chiDecl.insert(n).second) { decl += "(declare-const " + n + " Bool)\n"; if (isNew) *isNew = true; } return n; };
  auto ps = [](const Poly &p) { string r; for (auto &x : p.t) { r += x.second.get_str() + ":"; for (int a : x.first) r += std::to_string(a) + ","; r += ";"; } return r; };
  if (chiMatch(f.p, t, s, c)) { P = chiP(t, s); N = chiP(t, -s); }
  else {
    Q lo, hi; if (polyRange(f.p, lo, hi)) { if (f.op == LE || f.op == LT) { if (hi < 0) return "true"; if (lo > 0) return "false"; } else if (lo > 0 || hi < 0) return f.op == EQ ? "false" : "true"; }
    Poly q = f.p; c = 0; auto it = q.t.find(Mono()); if (it != q.t.end()) { c = it->second; q.t.erase(it); }
    bool flip = q.lc() < 0; if (flip) q = pscale(q, -1);
    string k = ps(q); bool nw = false; P = other("+" + k, &nw); N = other("-" + k); if (nw) decl += "(assert (not (and " + P + " " + N + ")))\n"; if (flip) std::swap(P, N);
  }
  if (f.op == LE && c == 0) return "(not " + P + ")";
  if (f.op == LE && c == 1) return N;
  if (f.op == EQ && c == 0) return "(not (or " + P + " " + N + "))";
  if (f.op == NE && c == 0) return "(or " + P + " " + N + ")";
  return other(std::to_string(f.op) + ps(f.p));
}
static string chiF(const Formula &f, string &decl) {
  switch (f.k) {
    case FTRUE: return "true"; case FFALSE: return "false";
    case FATOM: return chiAtom(f, decl);
    case FAND: case FOR: { string r = f.k == FAND ? "(and" : "(or"; for (auto &c : f.ch) r += " " + chiF(c, decl); return r + ")"; }
    default: return "true";
  }
}
static void chiInit(bool withX) {
  // with withX, element n is the vertical direction: its triples are the comparisons of x coordinates
  int n = chiPts.size(), N_ = n + withX; chiTri.clear(); chiIx.clear(); std::ostringstream o;
  auto d = [](const Poly &x, const Poly &y) { return padd(x, y, -1); };
  auto orient = [&](int a, int b, int c) { if (c == n) return d(chiPts[b].first, chiPts[a].first); return padd(pmul(d(chiPts[b].first, chiPts[a].first), d(chiPts[c].second, chiPts[a].second)), pmul(d(chiPts[b].second, chiPts[a].second), d(chiPts[c].first, chiPts[a].first)), -1); };
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < N_; c++) { int t = chiTri.size(); chiTri.push_back({a, b, c}); Poly p = orient(a, b, c); chiIx[p] = {t, 1}; chiIx[pscale(p, -1)] = {t, -1}; o << "(declare-const p" << t << " Bool)(declare-const n" << t << " Bool)(assert (not (and p" << t << " n" << t << ")))\n"; }
  auto P = [&](int a, int b, int c) { int s, t = chiId(a, b, c, s); return chiP(t, s); };
  auto N = [&](int a, int b, int c) { int s, t = chiId(a, b, c, s); return chiP(t, -s); };
  // some term positive iff some term negative
  auto balance = [&](vector<pair<string, string>> v) { string p = "(or", q = "(or"; for (auto &x : v) { p += " " + x.first; q += " " + x.second; } o << "(assert (= " << p << ") " << q << ")))\n"; };
  o << "(assert (or"; for (size_t t = 0; t < chiTri.size(); t++) if (chiTri[t][2] < n) o << " p" << t << " n" << t; o << "))\n";
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) for (int e = c + 1; e < N_; e++) {
    if (e == n) balance({{P(b, c, e), N(b, c, e)}, {N(a, c, e), P(a, c, e)}, {P(a, b, e), N(a, b, e)}});
    else balance({{P(b, c, e), N(b, c, e)}, {N(a, c, e), P(a, c, e)}, {P(a, b, e), N(a, b, e)}, {N(a, b, c), P(a, b, c)}});
    // two lines with two common points are one
    int q[4] = {a, b, c, e}; auto Z = [&](int x, int y, int z) { return "(not (or " + P(x, y, z) + " " + N(x, y, z) + "))"; };
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { int r[2], m = 0; for (int k = 0; k < 4; k++) if (k != i && k != j) r[m++] = q[k]; o << "(assert (=> (and " << Z(q[i], q[j], r[0]) << " " << Z(q[i], q[j], r[1]) << ") (and " << Z(q[i], r[0], r[1]) << " " << Z(q[j], r[0], r[1]) << ")))\n"; }
  }
  for (int a = 0; a < N_; a++) for (int b = a + 1; b < N_; b++) for (int c = b + 1; c < N_; c++) for (int f = c + 1; f < N_; f++)
    for (int e = 0; e < N_; e++) if (e != a && e != b && e != c && e != f) {  // three-term Grassmann-Pluecker relation around e
      auto pos = [&](int x, int y, int z, int w) { return "(or (and " + P(e, x, y) + " " + P(e, z, w) + ") (and " + N(e, x, y) + " " + N(e, z, w) + "))"; };
      auto neg = [&](int x, int y, int z, int w) { return "(or (and " + P(e, x, y) + " " + N(e, z, w) + ") (and " + N(e, x, y) + " " + P(e, z, w) + "))"; };
      balance({{pos(a, b, c, f), neg(a, b, c, f)}, {neg(a, c, b, f), pos(a, c, b, f)}, {pos(a, f, b, c), neg(a, f, b, c)}});
    }
  chiAxioms = o.str(); chiro = true; modelOk = false;
}
static bool chiWitness = false;
// The solver keeps the path condition asserted, one scope per conjunct; the count is shared with forked processes using the same solver.
static string incF(const Formula &f, string &decl) {
  if (!linInc) return chiF(f, decl);
  set<int> at; collect(f, at);
  for (int a : at) if (chiDecl.insert(atoms[a].name).second) decl += "(declare-const " + atoms[a].name + " Int)\n(assert (<= " + qstr(atoms[a].lo) + " " + atoms[a].name + " " + qstr(atoms[a].hi) + "))\n";
  map<Mono, string> monos; linAbs = &monos; string r = fstrReal(f); linAbs = nullptr;  // products are opaque
  for (auto &m : monos) if (chiDecl.insert(m.second).second) {
    Poly mp; mp.t[m.first] = 1; Q lo, hi; decl += "(declare-const " + m.second + " Int)\n";
    if (m.first.size() == 2 && m.first[0] == m.first[1]) decl += "(assert (>= " + m.second + " 0))\n";
    if (polyRange(mp, lo, hi)) decl += "(assert (<= " + qstr(lo) + " " + m.second + " " + qstr(hi) + "))\n";
  }
  return r;
}
static int *chiLevel = nullptr; static pid_t chiSolver = 0;
static void chiForget() { chiSolver = 0; chiDecl.clear(); }
static bool chiSync(const vector<Formula> &fs, string &q) {
  if (!z3pid) z3start();
  if (chiSolver != z3pid) { chiSolver = z3pid; chiDecl.clear(); chiLevel = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *chiLevel = -1; }
  if (*chiLevel < 0) { chiDecl.clear(); q += "(reset)\n(set-option :timeout 20000)\n" + string(linInc ? "" : "(set-logic QF_UF)\n") + chiAxioms; *chiLevel = 0; }
  for (; *chiLevel < (int)fs.size(); ++*chiLevel) { string d, a = incF(fs[*chiLevel], d); q += "(push)\n" + d + "(assert " + a + ")\n"; }
  return true;
}
static void chiPop(size_t n) {  // back to the first n conjuncts, after a forked process used the solver
  if (!(chiro || linInc) || !chiLevel || chiSolver != z3pid || !z3pid || *chiLevel <= (int)n) return;
  int k = *chiLevel - n; *chiLevel = n; if (!z3send("(pop " + std::to_string(k) + ")\n")) z3kill();
}
static vector<string> incAsk;
static Res checkChiro(const vector<Formula> &fs, const Formula &extra) {
  st->queries++; double t0 = now(); string ans; Res r = UNK; bool alive = false;
  for (int attempt = 0; attempt < 2 && !alive; attempt++) {
    string q; chiSync(fs, q); auto before = chiDecl; string d, a = incF(extra, d); vector<string> names; if (linInc) names.assign(chiDecl.begin(), chiDecl.end()); incAsk = names; chiDecl = before;
    q += "(push)\n" + d + "(assert " + a + ")\n(check-sat)\n(echo \"@@1\")\n";
    static const char *dump = getenv("SYM_DUMP");
    if (dump) { FILE *f = fopen(dump, "a"); fprintf(f, "%s;---- %d\n", q.c_str(), getpid()); fclose(f); }
    alive = z3send(q) && z3read(ans, 25, "@@1"); if (!alive) { z3kill(); chiForget(); }
  }
  lastM.clear(); lastExact = false;
  if (!alive) {}
  else if (ans.find("(error") != string::npos) fprintf(stderr, "solver error: %s\n", ans.substr(0, 300).c_str());
  else if (ans.find("unsat") != string::npos) r = UNSAT;
  else if (ans.find("sat") != string::npos && ans.find("unknown") == string::npos) {
    r = SAT; if (linInc) {
      if (!incAsk.empty()) {
        string g = "(get-value ("; for (auto &a : incAsk) g += a + " "; g += "))\n(echo \"@@2\")\n"; lastExact = true;
        if (z3send(g) && z3read(ans, 20, "@@2")) { size_t i = 0; SX x = parseSX(ans, i); for (auto &e : x.l) if (e.l.size() == 2) for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].name == e.l[0].a) { bool ex = true; lastM[a] = sxQ(e.l[1], ex); if (!ex) lastExact = false; } }
        else { z3kill(); chiForget(); lastExact = false; }
      }
    } else {
    string g = "(get-value ("; for (size_t t = 0; t < chiTri.size(); t++) g += "p" + std::to_string(t) + " n" + std::to_string(t) + " "; g += "))\n(echo \"@@2\")\n";
    if (z3send(g) && z3read(ans, 20, "@@2")) {
      size_t i = 0; SX x = parseSX(ans, i); lastExact = true;
      for (size_t t = 0; t < chiTri.size(); t++) lastM[-1 - (int)t] = 0;
      for (auto &e : x.l) if (e.l.size() == 2 && e.l[1].a == "true") lastM[-1 - atoi(e.l[0].a.c_str() + 1)] = e.l[0].a[0] == 'p' ? 1 : -1;
    } else { z3kill(); chiForget(); }
    }
  }
  if (alive && z3pid && !z3send("(pop)\n")) { z3kill(); chiForget(); }
  double dt = now() - t0; st->solver_us += (long)(dt * 1e6); if ((long)(dt * 1e3) > st->max_query_ms) st->max_query_ms = (long)(dt * 1e3);
  if (r == SAT) st->q_sat++; else if (r == UNSAT) st->q_unsat++; else st->q_unknown++;
  return r;
}
static Res check(const vector<Formula> &fs0, const Formula &extra, bool wantModel, int timeout_ms, bool slice = true);
// coordinates for a configuration that satisfies the path: bit-vectors on growing lattices
static Res chiModel(const vector<Formula> &fs, const Formula &extra) {
  Res r = checkChiro(fs, extra); if (r != SAT) return r;
  map<int, Q> sg = lastM; vector<Formula> pin;
  for (auto &x : chiIx) if (x.second.second > 0) { int s = sgn(sg[-1 - x.second.first]); pin.push_back(s == 0 ? fatom(x.first, EQ) : s > 0 ? fatom(pscale(x.first, -1), LT) : fatom(x.first, LT)); }
  chiro = false; Res out = UNK;
  for (int pass = 0; pass < (chiWitness ? 2 : 4) && out != SAT; pass++) {
    vector<Formula> g = fs; if (pass & 1) g.insert(g.end(), pin.begin(), pin.end());
    auto keep = atoms; for (auto &p : chiPts) for (auto *c : {&p.first, &p.second}) for (auto &m : c->t) for (int a : m.first) { Q h = pass < 2 ? 7 : 31; if (atoms[a].lo < -h && atoms[a].hi > h) { atoms[a].lo = -h; atoms[a].hi = h; } else if (atoms[a].hi > 2 * h + atoms[a].lo) atoms[a].hi = atoms[a].lo + 2 * h; }
    out = check(g, extra, true, pass < 2 ? 4000 : 15000, false); atoms = keep;
  }
  chiro = true; if (chiLevel) *chiLevel = -1;  // the solver was reset
  if (out != SAT) { st->q_unknown++; return UNK; }
  return SAT;
}

extern "C" { static bool polyRange(const Poly &p, Q &lo, Q &hi); }
static Res check(const vector<Formula> &fs0, const Formula &extra, bool wantModel, int timeout_ms, bool slice) {
  if (chiro) return wantModel ? chiModel(fs0, extra) : checkChiro(fs0, extra);
  if (linInc) {
    if (!wantModel) return extra.k == FFALSE ? UNSAT : checkChiro(fs0, extra);
    linInc = false; Res r = check(fs0, extra, true, timeout_ms, slice); linInc = true; if (chiLevel) *chiLevel = -1; return r;
  }
  vector<const Formula *> sel; set<int> at;
  if (extra.k == FFALSE) return UNSAT;
  vector<set<int>> av(fs0.size());
  auto close1 = [&](set<int> &s) {  // close under atom facts
    vector<int> todo(s.begin(), s.end());
    while (!todo.empty()) { int a = todo.back(); todo.pop_back(); set<int> t; if (mode != FP) { for (auto &f : atoms[a].facts) collect(f, t); } for (int b : t) if (s.insert(b).second) todo.push_back(b); }
  };
  for (size_t i = 0; i < fs0.size(); i++) { collectAny(fs0[i], av[i]); close1(av[i]); }
  if (!slice) { for (size_t i = 0; i < fs0.size(); i++) { sel.push_back(&fs0[i]); at.insert(av[i].begin(), av[i].end()); } collectAny(extra, at); close1(at); }
  else {
    collectAny(extra, at); close1(at); vector<bool> in(fs0.size(), false); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < fs0.size(); i++) if (!in[i]) { bool hit = av[i].empty(); for (int a : av[i]) if (at.count(a)) { hit = true; break; } if (hit) { in[i] = true; at.insert(av[i].begin(), av[i].end()); ch = true; } } }
    for (size_t i = 0; i < fs0.size(); i++) if (in[i]) sel.push_back(&fs0[i]);
  }
  bool bv = mode == LATTICE, lia = false; string body, linBody;
  if (bv) {  // linear integer arithmetic when that is enough
    lia = true; auto isLin = [&](const Formula &f, auto &&self) -> void { for (auto &x : f.p.t) if (x.first.size() > 1) lia = false; for (auto &c : f.ch) self(c, self); };
    for (int a : at) if (atoms[a].kind != A_INT) lia = false;
    for (auto f : sel) isLin(*f, isLin); isLin(extra, isLin);
    if (lia) bv = false;
  }
  vector<string> ask;
  if (mode == FP) {
    std::ostringstream defs; set<int> done; string as;
    for (auto f : sel) as += "(assert " + fstrFP(*f, defs, done) + ")\n";
    as += "(assert " + fstrFP(extra, defs, done) + ")\n";
    body = "(set-logic QF_FP)\n" + defs.str() + as;
    for (int n : done) if (fnodes[n].op == F_IN || fnodes[n].op == F_FRESH) ask.push_back("n" + std::to_string(n));
  } else {
    if (bv) {
      BV e; std::ostringstream decl; string as;
      for (int a : at) if (atoms[a].kind != A_INT) { bv = false; break; }
      if (bv) {
        for (int a : at) { int w = BV::awidth(a); decl << "(declare-const " << atoms[a].name << " (_ BitVec " << w << "))\n"; as += "(assert (bvsle " + BV::cst(atoms[a].lo.get_num(), w) + " " + atoms[a].name + "))\n(assert (bvsle " + atoms[a].name + " " + BV::cst(atoms[a].hi.get_num(), w) + "))\n"; }
        for (auto f : sel) as += "(assert " + e.f(*f) + ")\n";
        as += "(assert " + e.f(extra) + ")\n";
        if (!e.ok) bv = false; else body = "(set-logic QF_BV)\n" + decl.str() + e.defs.str() + as;
      }
    }
    if (!bv) {
      std::ostringstream d; string as; bool lin = true;
      for (int pass = 0; pass < 2; pass++) {
      map<Mono, string> monos; linAbs = pass ? &monos : nullptr; as.clear(); d.str("");
      auto isLin = [&](const Formula &f, auto &&self) -> void { for (auto &x : f.p.t) if (x.first.size() > 1) lin = false; for (auto &c : f.ch) self(c, self); };
      for (int a : at) { d << "(declare-const " << atoms[a].name << (lia ? " Int)\n" : " Real)\n"); if (atoms[a].haslo) as += "(assert (>= " + atoms[a].name + " " + qstr(atoms[a].lo) + "))\n"; if (atoms[a].hashi) as += "(assert (<= " + atoms[a].name + " " + qstr(atoms[a].hi) + "))\n"; for (auto &f : atoms[a].facts) { as += "(assert " + fstrReal(f) + ")\n"; isLin(f, isLin); } }
      for (auto f : sel) { as += "(assert " + fstrReal(*f) + ")\n"; isLin(*f, isLin); }
      as += "(assert " + fstrReal(extra) + ")\n"; isLin(extra, isLin);
      linAbs = nullptr;
      if (!pass) { body = string(lia ? "" : lin ? "(set-logic QF_LRA)\n" : "(set-logic QF_NRA)\n") + d.str() + as; if (lin || mode == LATTICE) break; continue; }
      for (auto &m : monos) {
        d << "(declare-const " << m.second << " Real)\n"; Poly mp; mp.t[m.first] = 1; Q lo, hi;
        bool even = m.first.size() % 2 == 0; for (size_t i = 0; even && i + 1 < m.first.size(); i += 2) even = m.first[i] == m.first[i + 1];
        if (even) as += "(assert (>= " + m.second + " 0.0))\n";
        if (polyRange(mp, lo, hi)) as += "(assert (<= " + m.second + " " + qstr(hi) + "))\n(assert (>= " + m.second + " " + qstr(lo) + "))\n";
      }
      linBody = "(set-logic QF_LRA)\n" + d.str() + as;
      }
    }
    for (int a : at) ask.push_back(atoms[a].name);
  }
  if (!wantModel) { auto it = qcache.find(body); if (it != qcache.end()) return (Res)it->second; }
  st->queries++; double t0 = now();
  if (!z3pid) z3start();
  if (!linBody.empty()) {  // unsatisfiable with opaque monomials: unsatisfiable
    string q = "(reset)\n(set-option :timeout 1000)\n" + linBody + "(check-sat)\n(echo \"@@1\")\n", ans;
    bool ok = z3send(q) && z3read(ans, 4, "@@1");
    if (!ok) { z3kill(); z3start(); }
    else if (ans.find("(error") == string::npos && ans.find("unsat") != string::npos) { st->q_unsat++; st->solver_us += (long)((now() - t0) * 1e6); qcache[body] = UNSAT; return UNSAT; }
  }
  string q = "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-option :timeout " + std::to_string(timeout_ms) + ")\n" + body + "(check-sat)\n(echo \"@@1\")\n";
  static const char *dump = getenv("SYM_DUMP");
  if (dump) { FILE *f = fopen(dump, "a"); fprintf(f, "%s;---- %d\n", q.c_str(), getpid()); fclose(f); }
  string ans; Res r = UNK;
  bool inherited = z3owner != getpid();
  double tq = now();
  bool alive = z3send(q) && z3read(ans, timeout_ms / 1000.0 + 3, "@@1");
  if (!alive && inherited && now() - tq < timeout_ms / 1000.0) { z3kill(); z3start(); alive = z3send(q) && z3read(ans, timeout_ms / 1000.0 + 3, "@@1"); }
  if (!alive) { z3kill(); }
  else if (ans.find("(error") != string::npos) { r = UNK; fprintf(stderr, "solver error: %s\n", ans.substr(0, 300).c_str()); }
  else if (ans.find("unsat") != string::npos) r = UNSAT;
  else if (ans.find("unknown") != string::npos || ans.find("timeout") != string::npos) r = UNK;
  else if (ans.find("sat") != string::npos) r = SAT;
  if (r == SAT && (wantModel || mode != FP) && !ask.empty()) {
    string g = "(get-value ("; for (auto &a : ask) g += a + " "; g += "))\n(echo \"@@2\")\n";
    lastM.clear(); lastFP.clear(); lastExact = true;
    if (z3send(g) && z3read(ans, 20, "@@2")) {
      size_t i = 0; SX x = parseSX(ans, i); map<string, const SX *> mv; for (auto &e : x.l) if (e.l.size() == 2) mv[e.l[0].a] = &e.l[1];
      if (mode == FP) { for (auto &a : ask) { auto it = mv.find(a); if (it != mv.end()) lastFP[atoi(a.c_str() + 1)] = sxFP(*it->second); } }
      else for (int a : at) { auto it = mv.find(atoms[a].name); if (it == mv.end()) { lastExact = false; continue; } bool ex = true; Q v = sxQ(*it->second, ex); if (bv) { int w = BV::awidth(a); if (v >= Q(mpz_class(1) << (w - 1))) v -= Q(mpz_class(1) << w); } if (!ex) lastExact = false; lastM[a] = v; }
    } else { z3kill(); lastExact = false; }
  } else { lastM.clear(); lastExact = true; }
  double dt = now() - t0; st->solver_us += (long)(dt * 1e6); if ((long)(dt * 1e3) > st->max_query_ms) st->max_query_ms = (long)(dt * 1e3);
  if (cfg_verbose > 1 && dt > 1) fprintf(stderr, "[slow %.1fs %s]\n", dt, r == SAT ? "sat" : r == UNSAT ? "unsat" : "unk");
  if (r == SAT) st->q_sat++; else if (r == UNSAT) st->q_unsat++; else st->q_unknown++;
  if (r == SAT && mode == LATTICE && !bv && !lia) { /* integrality relaxed: treat as possibly infeasible */ lastExact = false; tainted = true; }
  if (!wantModel && r != UNK) qcache[body] = r;
  return r;
}

// ---------------------------------------------------------------- path management
static void finishProcess(int code);
static int myToken = 0; static vector<pid_t> kids;
static string curLabel;
static void writeCandidate(const char *kind, const string &msg);

static void dropCwd();
static void finishProcess(int code) {
  dropCwd();
  for (pid_t p : kids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(s)) { st->signals++; } }
  kids.clear();
  if (myToken) st->tokens--;
  if (z3owner == getpid()) z3kill();
  if (cfg_verbose > 2) fprintf(stderr, "[exit %d]\n", getpid());
  _exit(code);
}
static volatile sig_atomic_t hangFlag = 0;
static void hangNow(const char *why) {
  struct itimerval z = {}; setitimer(ITIMER_VIRTUAL, &z, 0);
  st->aborted_cpu++; writeCandidate("hang", why); finishProcess(0);
}
static void onCpu(int) {
  // first expiry: let the next instrumented operation report it from a clean context; second: report from here
  if (!hangFlag) { hangFlag = 1; struct itimerval z = {}; z.it_value.tv_sec = 3; setitimer(ITIMER_VIRTUAL, &z, 0); return; }
  alarm(60); signal(SIGALRM, SIG_DFL);
  hangNow("no progress: CPU budget exceeded outside floating-point code");
}
static void onCrash(int sig) {
  signal(sig, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(60);
  st->signals++; writeCandidate("crash", "killed by signal " + std::to_string(sig)); finishProcess(0);
}
static void installSignals() {
  stack_t ss = {}; ss.ss_size = 16 << 20; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sigaltstack(&ss, 0);
  struct sigaction a = {}; a.sa_handler = onCpu; a.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &a, 0);
  struct sigaction b = {}; b.sa_handler = onCrash; b.sa_flags = SA_ONSTACK | SA_NODEFER; for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(g, &b, 0);
}
static void armCpu() { struct itimerval z = {}; z.it_value.tv_sec = cfg_cpu_s; setitimer(ITIMER_VIRTUAL, &z, 0); }

static void mergeModel() {
  if (chiro) { modelOk = lastExact; if (modelOk) model = lastM; return; }
  if (!lastExact) { modelOk = false; return; }
  if (modelOk) for (auto &x : lastM) model[x.first] = x.second;
}
static bool evalPoly(const Poly &p, Q &out) {
  out = 0; for (auto &x : p.t) { Q c = x.second; for (int a : x.first) { auto it = model.find(a); if (it == model.end()) return false; c *= it->second; } out += c; } return true;
}
static int evalF(const Formula &f) {  // 1 true 0 false -1 unknown
  switch (f.k) {
    case FTRUE: return 1; case FFALSE: return 0;
    case FATOM: { if (chiro) { int t, s; Q c; if (!chiMatch(f.p, t, s, c)) return -1; auto it = model.find(-1 - t); if (it == model.end()) return -1; int v = s * sgn(it->second); if (f.op == LE && c == 0) return v <= 0; if (f.op == LE && c == 1) return v < 0; if (c != 0) return -1; return f.op == EQ ? v == 0 : f.op == NE ? v != 0 : -1; }
      Q v; if (!evalPoly(f.p, v)) return -1; int s = sgn(v); return f.op == LT ? s < 0 : f.op == LE ? s <= 0 : f.op == EQ ? s == 0 : s != 0; }
    case FAND: { int r = 1; for (auto &c : f.ch) { int e = evalF(c); if (e == 0) return 0; if (e < 0) r = -1; } return r; }
    case FOR: { int r = 0; for (auto &c : f.ch) { int e = evalF(c); if (e == 1) return 1; if (e < 0) r = -1; } return r; }
    default: return -1;
  }
}
static void addPC(const Formula &f) { if (f.k == FTRUE) return; if (f.k == FAND) { for (auto &c : f.ch) addPC(c); return; } pc.push_back(f); }
static void dead() { st->dead++; finishProcess(0); }
static void checkDeadline() { if (now() > cfg_deadline) { st->aborted_deadline++; finishProcess(0); } }

// fork; returns true in the child.
static string cwdPriv; static int cwdOn = 0;
struct Priv { string dir, pre; vector<std::tuple<int, string, off_t>> fds; };
static Priv prepareCwd() {   // before a fork: a copy of the working directory for the child, and what is open in it
  Priv r; static int seq = 0; char old[4096]; if (!getcwd(old, sizeof old)) return r;
  const char *base = getenv("SYM_OUT"); r.dir = string(base ? base : "/tmp") + "/cwd-" + std::to_string(getpid()) + "-" + std::to_string(seq++); mkdir(r.dir.c_str(), 0755);
  if (DIR *d = opendir(".")) { while (dirent *e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue;
    std::ifstream in(n, std::ios::binary); std::ofstream out(r.dir + "/" + n, std::ios::binary); if (in.peek() != EOF) out << in.rdbuf(); } closedir(d); }
  string pre = string(old) + "/";
  if (DIR *d = opendir("/proc/self/fd")) { while (dirent *e = readdir(d)) { char b[4096]; string l = string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(l.c_str(), b, sizeof b - 1); if (n <= 0) continue; b[n] = 0;
    if (!strncmp(b, pre.c_str(), pre.size())) { int fd = atoi(e->d_name); r.fds.push_back({fd, string(b + pre.size()), lseek(fd, 0, SEEK_CUR)}); } } closedir(d); }
  return r;
}
static void enterCwd(const Priv &r) {   // in the child
  for (auto &x : r.fds) { int fd = std::get<0>(x), fl = fcntl(fd, F_GETFL), cl = fcntl(fd, F_GETFD); int n = open((r.dir + "/" + std::get<1>(x)).c_str(), fl & (O_ACCMODE | O_APPEND)); if (n < 0) continue;
    lseek(n, std::get<2>(x), SEEK_SET); dup2(n, fd); fcntl(fd, F_SETFD, cl); close(n); }
  if (chdir(r.dir.c_str())) _exit(3); cwdPriv = r.dir;
}
static void dropCwd() {
  if (cwdPriv.empty()) return;
  if (DIR *d = opendir(cwdPriv.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.' ) unlink((cwdPriv + "/" + e->d_name).c_str()); closedir(d); }
  rmdir(cwdPriv.c_str()); cwdPriv.clear();
}
static bool doFork() {
  checkDeadline();
  st->forks++;
  bool par = false;
  if (cfg_workers > 1) { long t = st->tokens.load(); while (t < cfg_workers - 1) if (st->tokens.compare_exchange_weak(t, t + 1)) { par = true; break; } }
  fflush(0);
  Priv priv; if (cwdOn) priv = prepareCwd();
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    cwdPriv.clear(); if (cwdOn) enterCwd(priv);
    kids.clear(); myToken = par ? 1 : 0; hangFlag = 0; armCpu(); prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (par) { if (z3in >= 0) { close(z3in); close(z3out); z3in = z3out = -1; } z3pid = 0; z3owner = 0; z3buf.clear(); }
    return true;
  }
  if (par) kids.push_back(p);
  else {
    int s = 0; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    if (chiro || linInc) chiPop(pc.size());
    if (WIFSIGNALED(s)) { st->signals++; return false; }
  }
  return false;
}

static bool decide(const Formula &F) {
  if (F.k == FTRUE) return true; if (F.k == FFALSE) return false;
  Formula N = fnot(F);
  for (auto &g : pc) { if (g == F) return true; if (g == N) return false; }
  st->branch_queries++;
  Res rt = UNK, rf = UNK; map<int, Q> mt, mf; bool et = false, ef = false, kt = false, kf = false;
  if (mode != FP && modelOk) {
    int e = evalF(F); if (e == 1) { rt = SAT; kt = true; } else if (e == 0) { rf = SAT; kf = true; }
  }
  if (!kt) { rt = check(pc, F, false, cfg_timeout_ms); mt = lastM; et = lastExact; if (rt == UNSAT) {
      if (!kf) { /* other side must be feasible if pc is */ }
      return false; } }
  if (!kf) { rf = check(pc, N, false, cfg_timeout_ms); mf = lastM; ef = lastExact; if (rf == UNSAT) return true; }
  if (rt == UNK || rf == UNK) { st->unknown_branches++; tainted = true; }
  bool child = doFork();
  // The child takes the true side.
  if (child) { addPC(F); if (!kt) { lastM = mt; lastExact = et && rt == SAT && !mt.empty(); mergeModel(); } return true; }
  addPC(N); if (!kf) { lastM = mf; lastExact = ef && rf == SAT && !mf.empty(); mergeModel(); } return false;
}

static double evalD(const Poly &p, map<int, double> &m) { double s = 0; for (auto &x : p.t) { double c = x.second.get_d(); for (int a : x.first) c *= m[a]; s += c; } return s; }
static double evalRat(const Rat &r, map<int, double> &m) { double n = evalD(r.n, m); for (auto &x : r.d) n /= std::pow(evalD(factors[x.first].p, m), x.second); return n; }

static vector<pair<string, double>> observed;

static bool produceModel(const Formula &extra, map<int, double> &md, map<int, uint64_t> &mf, bool snap) {
  Res r = check(pc, extra, true, cfg_timeout_ms, false);
  if (r != SAT) return false;
  if (mode == FP) { mf = lastFP; return true; }
  map<int, Q> best = lastM;
  if (snap && mode == REAL) {
    // move inputs onto coarse grids one by one while the query stays satisfiable, for readable and robust replays
    vector<Formula> p2 = pc; double t0 = now();
    for (auto &in : inputs) {
      if (in.a < 0 || in.kind != "real") continue; auto it = best.find(in.a); if (it == best.end()) continue;
      bool done = false;
      for (int g : {4, 64, 4096}) {
        if (now() - t0 > 20) break;
        Q v = it->second * g; mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
        for (int d = 0; d < 2 && !done; d++) {
          Q c(fl + d, g); c.canonicalize(); if (atoms[in.a].haslo && c < atoms[in.a].lo) continue; if (atoms[in.a].hashi && c > atoms[in.a].hi) continue;
          vector<Formula> p3 = p2; p3.push_back(fatom(padd(patom(in.a), pconst(c), -1), EQ));
          if (check(p3, extra, true, 2000, false) == SAT) { p2 = p3; best = lastM; done = true; }
        }
        if (done) break;
      }
    }
  }
  for (size_t a = 0; a < atoms.size(); a++) { auto it = best.find(a); if (it != best.end()) md[a] = it->second.get_d(); else { Q v = 0; auto im = model.find(a); if (im != model.end()) v = im->second; else { if (atoms[a].haslo && v < atoms[a].lo) v = atoms[a].lo; if (atoms[a].hashi && v > atoms[a].hi) v = atoms[a].hi; } md[a] = v.get_d(); if (atoms[a].kind == A_COS && im == model.end()) md[a] = 1; } }
  return true;
}
static void writeAssignment(FILE *f, map<int, double> &md, map<int, uint64_t> &mf) {
  for (auto &in : inputs) {
    double v = in.conc, w = 0;
    if (in.kind == "choice") v = in.conc;
    else if (mode == FP && in.fnode >= 0) { auto it = mf.find(in.fnode); v = it == mf.end() ? in.conc : dbl(it->second); }
    else if (in.kind == "angle") { Atom &a = atoms[in.a]; if (a.hc >= 0 && md.count(a.hc)) { v = 2 * std::atan2(md[a.hs], md[a.hc]); if (v < 0) v += 2 * M_PI; } else v = md[in.a]; }
    else if (in.kind == "unit") { v = md[in.a]; w = md[in.b]; double h = std::hypot(v, w); if (h > 0) { v /= h; w /= h; } else { v = 1; w = 0; } }
    else v = md[in.a];
    fprintf(f, "in %s %s %016llx %016llx %.17g %.17g\n", in.kind.c_str(), in.name.c_str(), (unsigned long long)bitsOf(v), (unsigned long long)bitsOf(w), v, w);
  }
}
static string clean(string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static void emitCandidate(const char *kind, const string &msg, const Formula &extra) {
  long n = st->violations++;
  if (n >= cfg_max_cand) return;
  map<int, double> md; map<int, uint64_t> mf;
  if (!produceModel(extra, md, mf, true)) { st->undecided++; if (cfg_verbose) { fprintf(stderr, "no model: %s\n", msg.c_str()); if (chiro) { checkChiro(pc, extra); for (auto &x : lastM) { auto &t = chiTri[-1 - x.first]; fprintf(stderr, "%d%d%d=%s ", t[0], t[1], t[2], x.second.get_str().c_str()); } fprintf(stderr, "\n"); } } return; }
  string fn = cfg_out + "/cand-" + std::to_string(n) + ".txt"; FILE *f = fopen(fn.c_str(), "w");
  fprintf(f, "kind %s\nmsg %s\ntainted %d\n", kind, clean(msg).c_str(), (int)tainted);
  writeAssignment(f, md, mf); fclose(f);
}
static void writeCandidate(const char *kind, const string &msg) { emitCandidate(kind, msg, ftrue()); }

static void writeWitness() {
  long n = st->witnesses.load(); if (n >= cfg_witness) return;
  long idx = st->paths.load(); if (idx > 8 && (idx & (idx - 1)) && idx % 37) return;
  map<int, double> md; map<int, uint64_t> mf; chiWitness = true; bool got = produceModel(ftrue(), md, mf, false); chiWitness = false; if (!got) return;
  n = st->witnesses++;
  string fn = cfg_out + "/wit-" + std::to_string(n) + ".txt"; FILE *f = fopen(fn.c_str(), "w");
  fprintf(f, "kind witness\nmsg -\n"); writeAssignment(f, md, mf);
  if (mode != FP) for (auto &o : observed) { double v = o.second; int id; if (boxed(v, id)) { v = evalRat(vals[id].r, md); if (vals[id].isAbs) v = std::fabs(v); } fprintf(f, "obs %s %.17g\n", o.first.c_str(), v); }
  fclose(f);
}

// ---------------------------------------------------------------- helpers on values
static int fconst(double d) { vector<int> k = {F_CONST, (int)(bitsOf(d) >> 32), (int)bitsOf(d)}; auto it = fnodeIx.find(k); if (it != fnodeIx.end()) return it->second; FNode f; f.op = F_CONST; f.bits = bitsOf(d); fnodes.push_back(f); return fnodeIx[k] = fnodes.size() - 1; }
static int fmk(int op, vector<int> args) { vector<int> k = {op}; k.insert(k.end(), args.begin(), args.end()); auto it = fnodeIx.find(k); if (it != fnodeIx.end()) return it->second; FNode f; f.op = op; f.args = args; fnodes.push_back(f); return fnodeIx[k] = fnodes.size() - 1; }
static int fnew(int op) { FNode f; f.op = op; fnodes.push_back(f); return fnodes.size() - 1; }
static int fofD(double d) { int id; if (boxed(d, id)) return vals[id].f; return fconst(d); }
static double fbox(int n) { if (fnodes[n].op == F_CONST) return dbl(fnodes[n].bits); Val v; v.f = n; return mkbox(v); }

static void countOp() { if (++st->ops, true) { static long my = 0; if (++my > cfg_max_ops) { st->aborted_ops++; hangNow("operation budget exceeded"); } if (hangFlag) hangNow("CPU budget exceeded"); if ((my & 1023) == 0) checkDeadline(); } }

static int factorSign(int f);
static Formula ratCond(const Rat &r, Op op) {  // r op 0
  Poly p = r.n; int s = 1;
  if (op == EQ || op == NE) return fatom(p, op);
  for (auto &x : r.d) if (x.second % 2) { int g = factorSign(x.first); if (g == 0) p = pmul(p, factors[x.first].p); else s *= g; }
  if (s < 0) p = pscale(p, -1);
  return fatom(p, op);
}
static int factorSign(int f) {
  if (factors[f].sign) return factors[f].sign;
  Formula neg = fatom(factors[f].p, LT);
  if (neg.k == FFALSE) return factors[f].sign = 1;
  int e = (modelOk && mode != FP) ? evalF(neg) : -1;
  if (e != 1 && check(pc, neg, false, 3000) == UNSAT) return factors[f].sign = 1;
  if (e != 0 && check(pc, fatom(pscale(factors[f].p, -1), LT), false, 3000) == UNSAT) return factors[f].sign = -1;
  return 0;
}
static int mkFactor(const Poly &p0, Q &scale) {  // p0 = scale * factor
  scale = p0.lc(); Poly p = pscale(p0, 1 / scale);
  auto it = factorIx.find(p); if (it != factorIx.end()) return it->second;
  Factor f; f.p = p;
  factors.push_back(f); return factorIx[p] = factors.size() - 1;
}
static Rat absResolve(const Val &v) {
  if (!v.isAbs) return v.r;
  Formula neg = ratCond(v.r, LT);
  return decide(neg) ? rneg(v.r) : v.r;
}
static bool special(double x) { return !isBox(x) && !std::isfinite(x); }
static Rat ratOf(double x) { int id; if (boxed(x, id)) { Val v = vals[id]; if (v.isAbs) { Rat r = absResolve(v); vals[id].isAbs = false; vals[id].r = r; return r; } return v.r; } return rconst(exactQ(x)); }

// "manifestly non-negative" products of square roots / non-negative constants; returns square
static bool nonnegSquare(const Rat &r, Rat &sq) {
  if (r.n.isZero()) { sq = r; return true; }
  if (r.n.t.size() != 1 || r.n.lc() < 0) return false;
  for (int a : r.n.lm()) if (atoms[a].kind != A_SQRT) return false;
  for (auto &x : r.d) if (x.second % 2 && factorSign(x.first) != 1) return false;
  sq = rmul(r, r); return true;
}
static bool hasSqrt(const Rat &r) { for (auto &x : r.n.t) for (int a : x.first) if (atoms[a].kind == A_SQRT) return true; return false; }

static Formula cmpF(double a, double b, Op op) {  // a op b, at least one boxed, no specials
  int ia = -1, ib = -1; boxed(a, ia); boxed(b, ib);
  bool aa = ia >= 0 && vals[ia].isAbs, ab = ib >= 0 && vals[ib].isAbs;
  if (aa && ab) {
    Rat x = vals[ia].r, y = vals[ib].r; return ratCond(radd(rmul(x, x), rmul(y, y), -1), op);
  }
  if (aa) {
    Rat x = vals[ia].r, r = ib >= 0 ? vals[ib].r : rconst(exactQ(b)); Rat nx = rneg(x);
    if (op == LT || op == LE) return fand(ratCond(radd(x, r, -1), op), ratCond(radd(nx, r, -1), op));
    Formula eq = fand(fand(ratCond(radd(x, r, -1), LE), ratCond(radd(nx, r, -1), LE)), forr(ratCond(radd(x, r, -1), EQ), ratCond(radd(nx, r, -1), EQ)));
    return op == EQ ? eq : fnot(eq);
  }
  if (ab) {  // a op |y|
    Rat y = vals[ib].r, r = ia >= 0 ? vals[ia].r : rconst(exactQ(a)); Rat ny = rneg(y);
    if (op == LT) return forr(ratCond(radd(r, y, -1), LT), ratCond(radd(r, ny, -1), LT));
    if (op == LE) return forr(ratCond(radd(r, y, -1), LE), ratCond(radd(r, ny, -1), LE));
    Formula eq = fand(fand(ratCond(radd(y, r, -1), LE), ratCond(radd(ny, r, -1), LE)), forr(ratCond(radd(y, r, -1), EQ), ratCond(radd(ny, r, -1), EQ)));
    return op == EQ ? eq : fnot(eq);
  }
  Rat x = ratOf(a), y = ratOf(b);
  if (hasSqrt(x) || hasSqrt(y)) { Rat sx, sy; if (nonnegSquare(x, sx) && nonnegSquare(y, sy)) return ratCond(radd(sx, sy, -1), op); }
  return ratCond(radd(x, y, -1), op);
}

static bool symcmp(double a, double b, int op) {  // 0 lt 1 le 2 eq ; ordered comparison
  countOp();
  if (mode == FP) { Formula f; f.k = FFP; f.fp = fmk(op == 0 ? F_CMP_LT : op == 1 ? F_CMP_LE : F_CMP_EQ, {fofD(a), fofD(b)}); return decide(f); }
  if (special(a) || special(b)) {
    double x = isBox(a) ? 0 : a, y = isBox(b) ? 0 : b; return op == 0 ? x < y : op == 1 ? x <= y : x == y;
  }
  return decide(cmpF(a, b, op == 0 ? LT : op == 1 ? LE : EQ));
}
static bool symnan(double a) {
  if (!isBox(a)) return std::isnan(a);
  if (mode == FP) { Formula f; f.k = FFP; f.fp = fmk(F_CMP_UNO, {fofD(a), fofD(a)}); return decide(f); }
  return false;
}

// ---------------------------------------------------------------- trigonometry
static const double PI_ = 3.14159265358979323846, TAU_ = 2 * PI_;
struct CS { Rat c, s; };
static map<Poly, int> opaqueAngle, constAngle, sqrtIx;
static Formula F2(const Poly &p, Op o) { Formula f; f.k = FATOM; f.p = p; f.op = o; return f; }
static void mkPair(int &c, int &s, const string &nm) {
  c = newAtom(nm + "c", A_COS); s = newAtom(nm + "s", A_SIN);
  Poly C = patom(c), S = patom(s); Poly CC = pmulRaw(C, C), SS = pmulRaw(S, S);
  atoms[s].rhs = padd(pconst(1), CC, -1); atoms[s].rule = true;
  atoms[s].facts.push_back(F2(padd(padd(SS, CC), pconst(-1)), EQ)); atoms[c].facts.push_back(atoms[s].facts[0]);
  for (int a : {c, s}) { atoms[a].haslo = atoms[a].hashi = true; atoms[a].lo = -1; atoms[a].hi = 1; }
}
static CS addAng(const CS &a, const CS &b) { CS r; r.c = radd(rmul(a.c, b.c), rmul(a.s, b.s), -1); r.s = radd(rmul(a.s, b.c), rmul(a.c, b.s)); return r; }
static void halfPair(int a) {
  if (atoms[a].hc >= 0) return;
  int c, s; string nm = atoms[a].name + "h"; mkPair(c, s, nm); atoms[a].hc = c; atoms[a].hs = s;
  Poly C = patom(c), S = patom(s), A = patom(a), mA = pscale(A, -1);
  if (atoms[a].ranged) {
    Poly P = pconst(exactQ(PI_));
    vector<Formula> fs;
    fs.push_back(F2(pscale(S, -1), LE));
    fs.push_back(forr(fand(F2(padd(A, P, -1), LE), F2(pscale(C, -1), LE)), fand(F2(padd(P, A, -1), LT), F2(C, LT))));
    fs.push_back(forr(fand(F2(A, EQ), F2(S, EQ)), fand(F2(mA, LT), F2(pscale(S, -1), LT))));
    for (auto &f : fs) { atoms[c].facts.push_back(f); atoms[s].facts.push_back(f); }
  } else if (atoms[a].kind == A_FRESH) {  // atan2 result in (-pi,pi]
    vector<Formula> fs;
    fs.push_back(F2(pscale(C, -1), LE));
    fs.push_back(forr(forr(fand(F2(A, EQ), F2(S, EQ)), fand(F2(mA, LT), F2(pscale(S, -1), LT))), fand(F2(A, LT), F2(S, LT))));
    for (auto &f : fs) { atoms[c].facts.push_back(f); atoms[s].facts.push_back(f); }
  }
}
static CS trig(double x) {
  if (mode == FP) { fprintf(stderr, "trig in FP mode\n"); _exit(3); }
  Rat r = ratOf(x); CS res; res.c = rconst(1); res.s = rconst(0);
  Poly lin; bool opaque = !r.d.empty();
  if (!opaque) for (auto &t : r.n.t) { if (t.first.size() > 1) { opaque = true; break; } if (t.first.size() == 1) { Q m = t.second * 2; if (m.get_den() != 1 || abs(m) > 16) opaque = true; } }
  if (opaque) {
    st->opaque++;
    Poly key = r.n; for (auto &d : r.d) key = padd(key, pmul(fpow(d.first, d.second), pconst(0)));
    int a; auto it = opaqueAngle.find(key); if (it != opaqueAngle.end() && r.d.empty()) a = it->second; else { a = newAtom("opq", A_INPUT); if (r.d.empty()) opaqueAngle[key] = a; }
    lin = patom(a);
  } else lin = r.n;
  for (auto &t : lin.t) {
    if (t.first.empty()) {
      double k = t.second.get_d(); double q = k / (PI_ / 2); double rq = std::nearbyint(q);
      CS b;
      if (std::fabs(q - rq) < 1e-12) { int j = ((int)rq % 4 + 4) % 4; static const int cc[4] = {1, 0, -1, 0}, ss[4] = {0, 1, 0, -1}; b.c = rconst(cc[j]); b.s = rconst(ss[j]); }
      else {
        Poly key = pconst(t.second); int a; auto it = constAngle.find(key); if (it != constAngle.end()) a = it->second; else {
          a = newAtom("kang", A_INPUT); constAngle[key] = a; int c, s; mkPair(c, s, atoms[a].name); atoms[a].hc = c; atoms[a].hs = s;
          double cv = std::cos(k), sv = std::sin(k); Q e(1e-12);
          atoms[c].lo = Q(cv) - e; atoms[c].hi = Q(cv) + e; atoms[s].lo = Q(sv) - e; atoms[s].hi = Q(sv) + e; }
        b.c.n = patom(atoms[a].hc); b.s.n = patom(atoms[a].hs);
      }
      res = addAng(res, b);
    } else {
      int a = t.first[0]; halfPair(a); CS h; h.c.n = patom(atoms[a].hc); h.s.n = patom(atoms[a].hs);
      Q m2 = t.second * 2; long m = m2.get_num().get_si(); if (m < 0) { h.s = rneg(h.s); m = -m; }
      for (long i = 0; i < m; i++) res = addAng(res, h);
    }
  }
  return res;
}
static Rat sqrtRat(Rat x, bool &isAbs) {
  isAbs = false;
  Poly R = x.n; Rat out; map<int, int> den; 
  for (auto &f : x.d) { int e = f.second; if (e % 2) { R = pmul(R, factors[f.first].p); e++; } den[f.first] = e / 2; }
  // denominators must be positive for sqrt(N/D^2) = sqrt(N)/D
  int sgnDen = 1;
  for (auto &f : den) if (f.second % 2) { int g = factorSign(f.first); if (!g) { g = decide(fatom(factors[f.first].p, LT)) ? -1 : 1; factors[f.first].sign = g; } sgnDen *= g; }
  if (R.isZero()) { return rconst(0); }
  Poly s;
  if (psqrtExact(R, s)) { out.n = sgnDen < 0 ? pscale(s, -1) : s; out.d = den; cancel(out); if (isC(out)) { if (out.n.constant() < 0) out = rneg(out); } else isAbs = true; return out; }
  Q lc = abs(R.lc()); bool ok; Q k = isqrtQ(lc, ok); if (ok) R = pscale(R, 1 / lc); else k = 1;
  int a; auto it = sqrtIx.find(R);
  if (it != sqrtIx.end()) a = it->second; else {
    a = newAtom("sq", A_SQRT); sqrtIx[R] = a; Poly A = patom(a);
    atoms[a].haslo = true; atoms[a].lo = 0; atoms[a].rule = true; atoms[a].rhs = R;
    atoms[a].facts.push_back(F2(padd(pmulRaw(A, A), R, -1), EQ));
    modelOk = modelOk && false;  // no exact model for square roots in general
  }
  out.n = pscale(patom(a), k); if (sgnDen < 0) out.n = pscale(out.n, -1); out.d = den; cancel(out); return out;
}

// ---------------------------------------------------------------- instrumentation entry points
#define NATIVE2(x, y) (!isBox(x) && !isBox(y))
extern "C" {
double sym_fadd(double a, double b) {
  if (NATIVE2(a, b)) return a + b; countOp();
  if (mode == FP) return fbox(fmk(F_ADD, {fofD(a), fofD(b)}));
  if (special(a)) return a; if (special(b)) return b;
  return box(radd(ratOf(a), ratOf(b)));
}
double sym_fsub(double a, double b) {
  if (NATIVE2(a, b)) return a - b; countOp();
  if (mode == FP) return fbox(fmk(F_SUB, {fofD(a), fofD(b)}));
  if (special(a)) return a; if (special(b)) return -b;
  return box(radd(ratOf(a), ratOf(b), -1));
}
static double mulSpecial(double inf, double x) {  // inf is NaN/inf, x symbolic
  if (std::isnan(inf)) return inf;
  if (symcmp(x, 0.0, 2)) return NAN;
  return symcmp(x, 0.0, 0) ? -inf : inf;
}
double sym_fmul(double a, double b) {
  if (NATIVE2(a, b)) return a * b; countOp();
  if (mode == FP) return fbox(fmk(F_MUL, {fofD(a), fofD(b)}));
  if (special(a)) return mulSpecial(a, b); if (special(b)) return mulSpecial(b, a);
  int ia, ib;
  if (boxed(a, ia) && vals[ia].isAbs && !isBox(b) && b >= 0) { Val v; v.isAbs = true; v.r = rmul(vals[ia].r, rconst(exactQ(b))); return mkbox(v); }
  if (boxed(b, ib) && vals[ib].isAbs && !isBox(a) && a >= 0) { Val v; v.isAbs = true; v.r = rmul(vals[ib].r, rconst(exactQ(a))); return mkbox(v); }
  return box(rmul(ratOf(a), ratOf(b)));
}
double sym_fneg(double a) {
  if (!isBox(a)) return -a; countOp();
  if (mode == FP) return fbox(fmk(F_NEG, {fofD(a)}));
  return box(rneg(ratOf(a)));
}
double sym_fdiv(double a, double b) {
  if (NATIVE2(a, b)) {
    double q = a / b;
    if (exact_div && mode == REAL && std::isfinite(q) && std::isfinite(b) && b != 0 && std::fma(q, b, -a) != 0) return box(rconst(exactQ(a) / exactQ(b)));
    return q;
  }
  countOp();
  if (mode == FP) return fbox(fmk(F_DIV, {fofD(a), fofD(b)}));
  if (special(a)) { if (std::isnan(a)) return a; return mulSpecial(a, b); }
  if (special(b)) return std::isnan(b) ? b : 0.0;
  if (!isBox(b) && b != 0) {
    int ia; if (boxed(a, ia) && vals[ia].isAbs && b > 0) { Val v; v.isAbs = true; v.r = rmul(vals[ia].r, rconst(1 / exactQ(b))); return mkbox(v); }
    return box(rmul(ratOf(a), rconst(1 / exactQ(b))));
  }
  if (isBox(b)) {
    Rat rb = ratOf(b);
    bool z = rb.n.isZero() ? true : decide(fatom(rb.n, EQ));
    if (!z) {
      Rat inv; inv.n = pconst(1);
      Poly n = rb.n; Poly mult = pconst(1);
      // rationalise square-root monomial divisors
      if (n.t.size() == 1) {
        Mono m = n.lm(); Q c = n.lc(); Poly rest = pconst(c); bool any = false;
        for (int at : m) if (atoms[at].kind == A_SQRT) { mult = pmul(mult, patom(at)); rest = pmul(rest, atoms[at].rhs); any = true; } else rest = pmul(rest, patom(at));
        if (any) n = rest;
      }
      inv.n = mult;
      if (n.isConst()) inv.n = pscale(inv.n, 1 / n.constant());
      else if (n.t.size() == 1) {  // split monomials into atom factors
        Q c = n.lc(); inv.n = pscale(inv.n, 1 / c); for (int at : n.lm()) { Q s; int f = mkFactor(patom(at), s); inv.d[f]++; }
      } else {
        // try to express n as a power/product of known factors
        Poly q; bool ch = true;
        while (ch && !n.isConst()) { ch = false; for (size_t f = 0; f < factors.size(); f++) if (pdivExact(n, factors[f].p, q)) { n = q; inv.d[f]++; ch = true; break; } }
        if (n.isConst()) inv.n = pscale(inv.n, 1 / n.constant()); else { Q s; int f = mkFactor(n, s); inv.n = pscale(inv.n, 1 / s); inv.d[f]++; }
      }
      for (auto &x : rb.d) inv.n = pmul(inv.n, fpow(x.first, x.second));
      cancel(inv);
      return box(rmul(ratOf(a), inv));
    }
    b = 0.0;
  }
  // division by zero (sign of zero is not modelled: +0)
  if (!isBox(a)) return a == 0 ? NAN : a > 0 ? INFINITY : -INFINITY;
  if (symcmp(a, 0.0, 2)) return NAN;
  return symcmp(a, 0.0, 0) ? -INFINITY : INFINITY;
}
double sym_fabs(double a) {
  if (!isBox(a)) return std::fabs(a); countOp();
  if (mode == FP) return fbox(fmk(F_ABS, {fofD(a)}));
  int id; boxed(a, id); if (vals[id].isAbs) return a;
  Val v; v.isAbs = true; v.r = vals[id].r; return mkbox(v);
}
double sym_sqrt(double a) {
  if (!isBox(a)) return std::sqrt(a); countOp();
  if (mode == FP) return fbox(fmk(F_SQRT, {fofD(a)}));
  bool ab; Rat r = sqrtRat(ratOf(a), ab); if (ab) { Val v; v.isAbs = true; v.r = r; return mkbox(v); } return box(r);
}
double sym_min(double a, double b) {
  if (NATIVE2(a, b)) return std::isnan(a) ? b : std::isnan(b) ? a : (b < a ? b : a);
  if (mode == FP) return fbox(fmk(F_MIN, {fofD(a), fofD(b)}));
  if (!isBox(a) && std::isnan(a)) return b; if (!isBox(b) && std::isnan(b)) return a;
  return symcmp(b, a, 0) ? b : a;
}
double sym_max(double a, double b) {
  if (NATIVE2(a, b)) return std::isnan(a) ? b : std::isnan(b) ? a : (b > a ? b : a);
  if (mode == FP) return fbox(fmk(F_MAX, {fofD(a), fofD(b)}));
  if (!isBox(a) && std::isnan(a)) return b; if (!isBox(b) && std::isnan(b)) return a;
  return symcmp(a, b, 0) ? b : a;
}
double sym_copysign(double a, double b) {
  if (NATIVE2(a, b)) return std::copysign(a, b);
  bool neg = isBox(b) ? symcmp(b, 0.0, 0) : std::signbit(b);
  double m = sym_fabs(a); return neg ? sym_fneg(m) : m;
}
double sym_fma(double a, double b, double c) { if (!isBox(a) && !isBox(b) && !isBox(c)) return std::fma(a, b, c); if (mode == FP) return fbox(fmk(F_FMA, {fofD(a), fofD(b), fofD(c)})); return sym_fadd(sym_fmul(a, b), c); }
double sym_sin(double a) { if (!isBox(a)) return std::sin(a); countOp(); return box(trig(a).s); }
double sym_cos(double a) { if (!isBox(a)) return std::cos(a); countOp(); return box(trig(a).c); }
double sym_tan(double a) { if (!isBox(a)) return std::tan(a); countOp(); CS x = trig(a); return sym_fdiv(box(x.s), box(x.c)); }
double sym_powi(double a, int n) { if (!isBox(a)) return __builtin_powi(a, n); if (n < 0) return sym_fdiv(1.0, sym_powi(a, -n)); double r = 1.0; for (int i = 0; i < n; i++) r = i == 0 ? a : sym_fmul(r, a); return r; }
double sym_pow(double a, double b) { if (NATIVE2(a, b)) return std::pow(a, b); if (!isBox(b) && b == 0.5) return sym_sqrt(a); if (!isBox(b) && b == std::floor(b) && std::fabs(b) < 64) return sym_powi(a, (int)b); fprintf(stderr, "unsupported pow\n"); st->opaque++; _exit(3); }
double sym_hypot(double a, double b) { if (NATIVE2(a, b)) return std::hypot(a, b); return sym_sqrt(sym_fadd(sym_fmul(a, a), sym_fmul(b, b))); }
struct Atan { Rat y, x; int atom; }; static vector<Atan> atans;  // arguments seen before: the same angle again
double sym_atan2(double y, double x) {
  if (NATIVE2(y, x)) return std::atan2(y, x); countOp();
  if (mode == FP) return fbox(fnew(F_FRESH));
  Rat ry = ratOf(y), rx = ratOf(x);
  if (!ry.n.isZero() || !rx.n.isZero()) {  // both are constant multiples of one number: a constant angle, given its sign
    const Rat &w = rx.n.isZero() ? ry : rx; const Mono &m = w.n.lm(); auto coef = [&](const Rat &r) { auto it = r.n.t.find(m); return it == r.n.t.end() ? Q(0) : it->second; };
    Q cy = coef(ry), cx = coef(rx);
    if (radd(rmul(ry, rconst(cx)), rmul(rx, rconst(cy)), -1).n.isZero() && ry.d == rx.d) {
      Rat b = rmul(w, rconst(1 / w.n.lc()));
      double vy = cy.get_d(), vx = cx.get_d();
      if (decide(ratCond(rneg(b), LT))) return std::atan2(vy, vx);
      if (decide(ratCond(b, LT))) return std::atan2(cy == 0 ? 0.0 : -vy, -vx);
      return 0.0;
    }
  }
  for (auto &k : atans) if (radd(k.y, ry, -1).n.isZero() && radd(k.x, rx, -1).n.isZero()) { Rat rv; rv.n = patom(k.atom); return box(rv); }
  for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].kind == A_ANGLE) {
    Rat ra; ra.n = patom(a); CS cs = trig(box(ra));
    Rat t = radd(rmul(ry, cs.c), rmul(rx, cs.s), -1);
    if (!t.n.isZero()) continue;
    Rat m = radd(rmul(rx, cs.c), rmul(ry, cs.s));
    Poly A = patom(a); Rat res;
    if (decide(ratCond(rneg(m), LT))) {
      if (!atoms[a].ranged || decide(fatom(padd(A, pconst(exactQ(PI_)), -1), LE))) { res.n = A; return box(res); }
      res.n = padd(A, pconst(exactQ(TAU_)), -1); return box(res);
    }
    if (decide(ratCond(m, EQ))) return 0.0;
    if (decide(fatom(A, EQ))) return PI_;
    res.n = padd(A, pconst(exactQ(PI_)), -1); return box(res);
  }
  st->opaque++;
  int a = newAtom("atan", A_FRESH); atoms[a].haslo = atoms[a].hashi = true; atoms[a].lo = -exactQ(PI_); atoms[a].hi = exactQ(PI_);
  halfPair(a); modelOk = false;
  Rat rv; rv.n = patom(a); CS cs = trig(box(rv)); bool ab; Rat h = sqrtRat(radd(rmul(rx, rx), rmul(ry, ry)), ab); if (ab) { Val v; v.isAbs = true; v.r = h; h = absResolve(v); }
  addPC(ratCond(radd(rx, rmul(h, cs.c), -1), EQ)); addPC(ratCond(radd(ry, rmul(h, cs.s), -1), EQ));
  atans.push_back({ry, rx, a});
  return box(rv);
}
double sym_unary_unsupported(double a, const char *nm) { fprintf(stderr, "unsupported float function %s on symbolic value\n", nm); st->opaque++; _exit(3); }
double sym_acos(double a) { if (!isBox(a)) return std::acos(a); double s = sym_sqrt(sym_fsub(1.0, sym_fmul(a, a))); return sym_atan2(s, a); }
double sym_asin(double a) { if (!isBox(a)) return std::asin(a); double s = sym_sqrt(sym_fsub(1.0, sym_fmul(a, a))); return sym_atan2(a, s); }
double sym_atan(double a) { if (!isBox(a)) return std::atan(a); return sym_atan2(a, 1.0); }
double sym_exp(double a) { if (!isBox(a)) return std::exp(a); return sym_unary_unsupported(a, "exp"); }
double sym_log(double a) { if (!isBox(a)) return std::log(a); return sym_unary_unsupported(a, "log"); }
double sym_cbrt(double a) { if (!isBox(a)) return std::cbrt(a); return sym_unary_unsupported(a, "cbrt"); }
// integer-valued functions: enumerate the feasible integers
static double enumFloor(double a) {
  for (int i = 0; i < 64; i++) {
    Rat r = ratOf(a); map<int, double> md; map<int, uint64_t> mf; long k;
    Q v; bool have = false;
    if (modelOk && r.d.empty() && evalPoly(r.n, v)) have = true;
    if (!have) { if (!produceModel(ftrue(), md, mf, false)) break; k = (long)std::floor(evalRat(r, md)); }
    else { mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); k = fl.get_si(); }
    st->concretised++;
    Formula in = fand(ratCond(radd(rconst(k), r, -1), LE), ratCond(radd(r, rconst(k + 1), -1), LT));
    if (decide(in)) return (double)k;
  }
  dead(); return 0;
}
double sym_floor(double a) { if (!isBox(a)) return std::floor(a); countOp(); return enumFloor(a); }
double sym_ceil(double a) { if (!isBox(a)) return std::ceil(a); countOp(); return -enumFloor(sym_fneg(a)); }
double sym_trunc(double a) { if (!isBox(a)) return std::trunc(a); return symcmp(a, 0.0, 0) ? sym_ceil(a) : sym_floor(a); }
double sym_round(double a) { if (!isBox(a)) return std::round(a); return symcmp(a, 0.0, 0) ? sym_ceil(sym_fsub(a, 0.5)) : sym_floor(sym_fadd(a, 0.5)); }
double sym_rint(double a) { if (!isBox(a)) return std::nearbyint(a); if (mode == FP) return fbox(fmk(F_RTI, {fofD(a)})); return sym_round(a); }
double sym_frem(double a, double b) { if (NATIVE2(a, b)) return std::fmod(a, b); double q = sym_trunc(sym_fdiv(a, b)); return sym_fsub(a, sym_fmul(q, b)); }
int64_t sym_fptosi(double a) { if (isBox(a)) a = sym_trunc(a); if (std::isnan(a)) return 0; if (a >= 9.2233720368547758e18) return INT64_MAX; if (a <= -9.2233720368547758e18) return INT64_MIN; return (int64_t)a; }
int64_t sym_fptosi_w(double a, int w) { if (isBox(a)) a = sym_trunc(a); if (std::isnan(a)) return 0; double m = std::ldexp(1.0, w - 1); if (a >= m - 1) return (int64_t)(m - 1); if (a <= -m) return (int64_t)-m; return (int64_t)a; }
uint64_t sym_fptoui_w(double a, int w) { if (isBox(a)) a = sym_trunc(a); if (std::isnan(a) || a <= 0) return 0; double m = std::ldexp(1.0, w); if (a >= m - 1) return (uint64_t)(m - 1); return (uint64_t)a; }
uint64_t sym_fptoui(double a) { if (isBox(a)) a = sym_trunc(a); if (std::isnan(a) || a <= 0) return 0; if (a >= 1.8446744073709552e19) return UINT64_MAX; return (uint64_t)a; }

bool sym_fcmp_olt(double a, double b) { if (NATIVE2(a, b)) return a < b; return symcmp(a, b, 0); }
bool sym_fcmp_ole(double a, double b) { if (NATIVE2(a, b)) return a <= b; return symcmp(a, b, 1); }
bool sym_fcmp_ogt(double a, double b) { if (NATIVE2(a, b)) return a > b; return symcmp(b, a, 0); }
bool sym_fcmp_oge(double a, double b) { if (NATIVE2(a, b)) return a >= b; return symcmp(b, a, 1); }
bool sym_fcmp_oeq(double a, double b) { if (NATIVE2(a, b)) return a == b; return symcmp(a, b, 2); }
bool sym_fcmp_uno(double a, double b) { if (NATIVE2(a, b)) return std::isnan(a) || std::isnan(b); if (mode == FP) { Formula f; f.k = FFP; f.fp = fmk(F_CMP_UNO, {fofD(a), fofD(b)}); return decide(f); } return symnan(a) || symnan(b); }
bool sym_fcmp_ord(double a, double b) { return !sym_fcmp_uno(a, b); }
bool sym_fcmp_une(double a, double b) { return !sym_fcmp_oeq(a, b); }
bool sym_fcmp_one(double a, double b) { return !sym_fcmp_uno(a, b) && !sym_fcmp_oeq(a, b); }
bool sym_fcmp_ueq(double a, double b) { return sym_fcmp_uno(a, b) || sym_fcmp_oeq(a, b); }
bool sym_fcmp_ult(double a, double b) { return !sym_fcmp_oge(a, b); }
bool sym_fcmp_ule(double a, double b) { return !sym_fcmp_ogt(a, b); }
bool sym_fcmp_ugt(double a, double b) { return !sym_fcmp_ole(a, b); }
bool sym_fcmp_uge(double a, double b) { return !sym_fcmp_olt(a, b); }

// f32: a boxed f32 carries the value id in its mantissa; rounding to single precision is modelled as the identity
// in the algebraic modes and exactly in FP mode.
static const uint32_t TAG32 = 0x5E000000u;
float sym_fptrunc(double a) {
  if (!isBox(a)) return (float)a;
  int id; boxed(a, id);
  if (mode == FP) { double b = fbox(fmk(F_TO32, {fofD(a)})); boxed(b, id); }
  if (id >= (1 << 23)) { fprintf(stderr, "f32 box overflow\n"); _exit(3); }
  uint32_t b = TAG32 | (uint32_t)id; float f; memcpy(&f, &b, 4); return f;
}
double sym_fpext(float f) {
  uint32_t b; memcpy(&b, &f, 4); if ((b & 0xff800000u) == TAG32 && active) { uint32_t id = b & 0x7fffff; if (id < vals.size()) return dbl((TAG << 32) | id); }
  return (double)f;
}
uint64_t sym_to_bits(double a) { if (isBox(a)) st->to_bits++; return bitsOf(a); }
bool sym_is_neg(double a) { if (!isBox(a)) return std::signbit(a); return symcmp(a, 0.0, 0); }
int8_t sym_total_cmp(const double *a, const double *b) { double x = *a, y = *b; if (sym_fcmp_olt(x, y)) return -1; if (sym_fcmp_oeq(x, y)) return 0; return 1; }
bool sym_ulps_eq(const double *a, const double *b, double eps, uint32_t max_ulps) {
  double x = *a, y = *b;
  if (NATIVE2(x, y)) {
    if (std::fabs(x - y) <= eps) return true; if (std::isnan(x) || std::isnan(y)) return false;
    if (std::signbit(x) != std::signbit(y)) return false;
    int64_t i = (int64_t)bitsOf(x), j = (int64_t)bitsOf(y); uint64_t d = i > j ? (uint64_t)i - j : (uint64_t)j - i; return d <= max_ulps;
  }
  // model: absolute tolerance only (the ulp test adds a relative tolerance of 4 * 2^-52)
  return sym_fcmp_ole(sym_fabs(sym_fsub(x, y)), eps);
}

// ---------------------------------------------------------------- harness API
static string S(const char *p, size_t n) { return string(p, n); }
double sym_real(const char *p, size_t n, double lo, double hi) {
  InputRec in; in.kind = "real"; in.name = S(p, n);
  if (mode == FP) {
    int f = fnew(F_IN); in.fnode = f; inputs.push_back(in); double b = fbox(f);
    Formula a; a.k = FFP; a.fp = fmk(F_CMP_LE, {fconst(lo), f}); Formula c; c.k = FFP; c.fp = fmk(F_CMP_LE, {f, fconst(hi)}); pc.push_back(a); pc.push_back(c); return b;
  }
  int a = newAtom(in.name, mode == LATTICE ? A_INT : A_INPUT); in.a = a; inputs.push_back(in);
  atoms[a].haslo = atoms[a].hashi = true; atoms[a].lo = exactQ(lo); atoms[a].hi = exactQ(hi);
  Q v = atoms[a].lo; if (v < 0 && atoms[a].hi >= 0) v = 0; model[a] = v;
  Rat r; r.n = patom(a); Val vv; vv.r = r; return mkbox(vv);
}
double sym_any_fp(const char *p, size_t n) {  // any IEEE double, NaN and infinities included
  InputRec in; in.kind = "real"; in.name = S(p, n); int f = fnew(F_IN); in.fnode = f; inputs.push_back(in); return fbox(f);
}
double sym_angle(const char *p, size_t n) {
  InputRec in; in.kind = "angle"; in.name = S(p, n); int a = newAtom(in.name, A_ANGLE); in.a = a; inputs.push_back(in);
  atoms[a].ranged = true; atoms[a].haslo = atoms[a].hashi = true; atoms[a].lo = 0; atoms[a].hi = exactQ(TAU_);
  atoms[a].facts.push_back(F2(padd(patom(a), pconst(exactQ(TAU_)), -1), LT)); modelOk = false;
  Rat r; r.n = patom(a); return box(r);
}
void sym_unit(const char *p, size_t n, double *c, double *s) {
  InputRec in; in.kind = "unit"; in.name = S(p, n); int ca, sa; mkPair(ca, sa, in.name); in.a = ca; in.b = sa; inputs.push_back(in);
  model[ca] = 1; model[sa] = 0;
  Rat r; r.n = patom(ca); *c = box(r); r.n = patom(sa); *s = box(r);
}
static vector<double> randoms;
double sym_random() {
  int a0 = inputs.size(); string nm = "rnd" + std::to_string(a0); double x = sym_real(nm.data(), nm.size(), 0.0, 1.0);
  inputs.back().kind = "random";
  if (mode != FP) { Rat r = ratOf(x); addPC(fatom(padd(r.n, pconst(-1)), LT)); } else { Formula f; f.k = FFP; f.fp = fmk(F_CMP_LT, {fofD(x), fconst(1.0)}); pc.push_back(f); }
  return x;
}
uint64_t sym_choice(const char *p, size_t n, uint64_t k) {
  InputRec in; in.kind = "choice"; in.name = S(p, n);
  static const char *fix = getenv("SYM_FIX");  // "name=val,name=val"
  uint64_t pick = k - 1;
  if (fix) { string s = string(",") + fix + ","; size_t q = s.find("," + in.name + "="); if (q != string::npos) { pick = strtoul(s.c_str() + q + in.name.size() + 2, 0, 10); in.conc = pick; inputs.push_back(in); return pick; } }
  for (uint64_t i = 0; i + 1 < k; i++) if (doFork()) { pick = i; break; }
  in.conc = pick; inputs.push_back(in); return pick;
}
// ---- text: tokens
static Formula cmpFormula(double a, double b, int op); static bool assumeF(const Formula &f);
static const uint32_t TOKHI = []{ double v = 987654144.0; uint64_t b; memcpy(&b, &v, 8); return (uint32_t)(b >> 32); }(); static vector<double> toks;
double sym_token(double v) {
  uint64_t b = bitsOf(v); uint32_t h = b >> 32; if ((h & 0x7fffffffu) != TOKHI) return v;
  uint32_t l = (uint32_t)b; if ((l & 8191) != 4096 || (l >> 13) >= toks.size()) return v;
  double r = toks[l >> 13]; return h >> 31 ? sym_fneg(r) : r;
}
double sym_make_token(double a, int prec) {
  if (prec >= 0) {
    double p = std::pow(10.0, prec);
    if (mode == FP) a = sym_fdiv(sym_rint(sym_fmul(a, p)), p);
    else {
      int t = newAtom("text" + std::to_string(toks.size()), A_FRESH); Rat r; r.n = patom(t); double b = box(r), h = 0.5 / p * (1 + 1e-9); modelOk = false;
      assumeF(cmpFormula(sym_fsub(b, a), h, 1)); assumeF(cmpFormula(sym_fsub(a, b), h, 1));
      a = b;
    }
    if (!isBox(a)) return a;
  }
  for (size_t i = 0; i < toks.size(); i++) if (bitsOf(toks[i]) == bitsOf(a)) { uint64_t b = ((uint64_t)TOKHI << 32) | (i * 8192 + 4096); return dbl(b); }
  toks.push_back(a); uint64_t b = ((uint64_t)TOKHI << 32) | ((toks.size() - 1) * 8192 + 4096); return dbl(b);
}
void sym_private_cwd() { cwdOn = 1; }
void sym_enter(int i) { if (st && i < 8192) st->entered[i].store(1, std::memory_order_relaxed); }
void sym_assume(bool b) { if (!b) dead(); }
static bool assumeF(const Formula &f) {
  if (f.k == FTRUE) return true; if (f.k == FFALSE) dead();
  int e = (mode != FP && modelOk) ? evalF(f) : -1;
  if (e != 1) { Res r = check(pc, f, false, cfg_timeout_ms); if (r == UNSAT) dead(); if (r == UNK) { tainted = true; modelOk = false; } else mergeModel(); }
  addPC(f); return true;
}
static Formula cmpFormula(double a, double b, int op) {  // 0 lt 1 le 2 eq 3 ne
  if (NATIVE2(a, b)) { bool v = op == 0 ? a < b : op == 1 ? a <= b : op == 2 ? a == b : a != b; return v ? ftrue() : ffalse(); }
  if (mode == FP) { Formula f; f.k = FFP; f.fp = fmk(op == 0 ? F_CMP_LT : op == 1 ? F_CMP_LE : F_CMP_EQ, {fofD(a), fofD(b)}); if (op == 3) f.neg = true; return f; }
  if (special(a) || special(b)) { double x = isBox(a) ? 0 : a, y = isBox(b) ? 0 : b; bool v = op == 0 ? x < y : op == 1 ? x <= y : op == 2 ? x == y : x != y; return v ? ftrue() : ffalse(); }
  return cmpF(a, b, op == 0 ? LT : op == 1 ? LE : op == 2 ? EQ : NE);
}
static vector<Formula> fh;
uint32_t sym_f_cmp(double a, double b, int op) { fh.push_back(cmpFormula(a, b, op)); return fh.size() - 1; }
uint32_t sym_f_and(uint32_t a, uint32_t b) { fh.push_back(fand(fh[a], fh[b])); return fh.size() - 1; }
uint32_t sym_f_or(uint32_t a, uint32_t b) { fh.push_back(forr(fh[a], fh[b])); return fh.size() - 1; }
uint32_t sym_f_not(uint32_t a) { fh.push_back(fnot(fh[a])); return fh.size() - 1; }
uint32_t sym_f_const(bool v) { fh.push_back(v ? ftrue() : ffalse()); return fh.size() - 1; }
void sym_assume_f(uint32_t f) { assumeF(fh[f]); }
static void obligation(const Formula &f, const string &msg);
void sym_prove_f(uint32_t f, const char *p, size_t n) { obligation(fh[f], S(p, n)); }
bool sym_branch_f(uint32_t f) { return decide(fh[f]); }
void sym_assume_cmp(double a, double b, int op) { assumeF(cmpFormula(a, b, op)); }
void sym_assume_or_cmp(double a, double b, int op1, double c, double d, int op2) { assumeF(forr(cmpFormula(a, b, op1), cmpFormula(c, d, op2))); }
static void obligation(const Formula &f, const string &msg) {
  st->obligations++;
  if (f.k == FTRUE) { st->trivially++; st->discharged++; return; }
  Formula n = fnot(f);
  Res r = f.k == FFALSE ? SAT : check(pc, n, false, cfg_timeout_ms);
  if (r == UNSAT) { st->discharged++; return; }
  if (r == UNK) { st->undecided++; fprintf(stderr, "undecided: %s\n", msg.c_str()); return; }
  emitCandidate("prove", msg, n);
  // continue on the part of the path where the property holds
  if (f.k == FFALSE) finishProcess(0);
  if (check(pc, f, false, cfg_timeout_ms) == UNSAT) finishProcess(0);
  modelOk = false; addPC(f);
}
void sym_prove(bool b, const char *p, size_t n) { st->obligations++; if (b) { st->discharged++; return; } emitCandidate("prove", S(p, n), ftrue()); finishProcess(0); }
void sym_prove_cmp(double a, double b, int op, const char *p, size_t n) { obligation(cmpFormula(a, b, op), S(p, n)); }
// interval bounds of a polynomial over the declared atom ranges
static bool polyRange(const Poly &p, Q &lo, Q &hi) {
  lo = hi = 0;
  for (auto &x : p.t) {
    Q l = 1, h = 1;
    for (size_t i = 0; i < x.first.size(); i++) {
      Atom &a = atoms[x.first[i]]; Q al, ah;
      if (a.haslo && a.hashi) { al = a.lo; ah = a.hi; } else if (a.kind == A_COS || a.kind == A_SIN) { al = -1; ah = 1; } else return false;
      if (i + 1 < x.first.size() && x.first[i + 1] == x.first[i]) {  // square
        Q m = std::max(Q(al * al), Q(ah * ah)), n = (al <= 0 && ah >= 0) ? Q(0) : std::min(Q(al * al), Q(ah * ah)); al = n; ah = m; i++;
      }
      Q c[4] = {l * al, l * ah, h * al, h * ah}; l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
    }
    if (x.second < 0) std::swap(l, h);
    lo += x.second * l; hi += x.second * h;
  }
  return true;
}
static bool boundedBy(const Rat &r, double tol) {
  Q lo, hi; if (!polyRange(r.n, lo, hi)) return false;
  Q m = std::max(Q(abs(lo)), Q(abs(hi))), t = exactQ(tol);
  for (auto &x : r.d) { Q a, b; if (!polyRange(factors[x.first].p, a, b) || (a <= 0 && b >= 0)) return false; Q k = std::min(Q(abs(a)), Q(abs(b))); for (int i = 0; i < x.second; i++) m /= k; }
  return m <= t;
}
void sym_prove_near(double a, double b, double tol, const char *p, size_t n) {
  string m = S(p, n);
  if (mode != FP && (special(a) || special(b))) {
    bool same = !isBox(a) && !isBox(b) && (a == b || (std::isnan(a) && std::isnan(b)));
    obligation(same ? ftrue() : ffalse(), m); return;
  }
  if (NATIVE2(a, b)) { obligation(std::fabs(a - b) <= tol ? ftrue() : ffalse(), m); return; }
  if (mode == FP) { obligation(cmpFormula(sym_fabs(sym_fsub(a, b)), tol, 1), m); return; }
  Rat d = radd(ratOf(a), ratOf(b), -1);
  if (d.n.isZero() || boundedBy(d, tol)) { obligation(ftrue(), m); return; }
  obligation(fand(ratCond(radd(d, rconst(exactQ(tol)), -1), LE), ratCond(radd(rneg(d), rconst(exactQ(tol)), -1), LE)), m);
}
void sym_observe(const char *p, size_t n, double v) { if (observed.size() < 400) observed.push_back({S(p, n), v}); }
void sym_reach(uint64_t k) { if (k < 64) st->reach[k]++; }
bool sym_is_symbolic(double a) { return isBox(a); }
void sym_set_mode(int m) { linInc = m == 3; mode = m == 3 ? LATTICE : (Mode)m; }  // 3: LATTICE with linear conditions only, decided incrementally
void sym_points(const double *xy, size_t n, bool withX) { chiPts.clear(); for (size_t i = 0; i < n; i++) chiPts.push_back({ratOf(xy[2 * i]).n, ratOf(xy[2 * i + 1]).n}); chiInit(withX); }
void sym_set_exact(bool b) { exact_div = b; }
void sym_set_timeout(int ms) { cfg_timeout_ms = ms; }
void sym_set_cpu(long s) { cfg_cpu_s = s; armCpu(); }
void sym_set_max_ops(long n) { cfg_max_ops = n; }
void sym_violation(const char *kind, const char *p, size_t n) { if (!strcmp(kind, "panic")) st->panics++; st->obligations++; emitCandidate(kind, S(p, n), ftrue()); finishProcess(0); }
int sym_decide_lt(double a, double b) { return sym_fcmp_olt(a, b); }

void sym_begin() {
  active = true; signal(SIGPIPE, SIG_IGN);
  auto E = [](const char *k, const char *d) { const char *v = getenv(k); return string(v ? v : d); };
  cfg_out = E("SYM_OUT", "/tmp/symout"); cfg_timeout_ms = atoi(E("SYM_TIMEOUT_MS", "20000").c_str()); cfg_workers = atoi(E("SYM_WORKERS", "1").c_str());
  cfg_deadline = now() + atof(E("SYM_DEADLINE_S", "100000").c_str()); cfg_max_ops = atol(E("SYM_MAX_OPS", "4000000").c_str()); cfg_witness = atol(E("SYM_WITNESS", "12").c_str());
  cfg_max_cand = atol(E("SYM_MAX_CAND", "6").c_str()); cfg_cpu_s = atol(E("SYM_CPU_S", "60").c_str()); cfg_z3 = E("SYM_Z3", "z3-new"); cfg_verbose = atoi(E("SYM_VERBOSE", "0").c_str());
  st = (Stats *)mmap(0, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  installSignals(); vals.reserve(1 << 16);
  if (doFork()) { return; }  // explore in a child; the root only reports
  if (!kids.empty()) { for (pid_t p : kids) { int s; waitpid(p, &s, 0); } kids.clear(); }
  string fn = cfg_out + "/stats.json"; FILE *f = fopen(fn.c_str(), "w"); if (!f) { perror(fn.c_str()); _exit(3); }
#define P(x) fprintf(f, "\"%s\": %ld, ", #x, st->x.load());
  fprintf(f, "{"); P(paths) P(dead) P(panics) P(ops) P(queries) P(q_sat) P(q_unsat) P(q_unknown) P(solver_us) P(forks) P(obligations) P(discharged) P(trivially) P(undecided) P(violations) P(witnesses) P(aborted_ops) P(aborted_cpu) P(aborted_deadline) P(signals) P(branch_queries) P(unknown_branches) P(inexact) P(concretised) P(to_bits) P(opaque) P(max_query_ms)
  fprintf(f, "\"reach\": ["); for (int i = 0; i < 64; i++) fprintf(f, "%s%ld", i ? "," : "", st->reach[i].load()); fprintf(f, "], \"entered\": ["); bool c1 = false; for (int i = 0; i < 8192; i++) if (st->entered[i]) { fprintf(f, "%s%d", c1 ? "," : "", i); c1 = true; } fprintf(f, "]}\n"); fclose(f);
  _exit(0);
}
void sym_end() { st->paths++; writeWitness(); finishProcess(0); }
}
