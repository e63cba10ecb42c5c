// sym.cpp -- term construction, path exploration, solver queries, replay.
#include "engine.hpp"
#include <gmpxx.h>
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <memory>
#include <fstream>
#include <iostream>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <atomic>
#include <chrono>
#include <unistd.h>
#include <pthread.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace sym {

#define NOINST __attribute__((no_instrument_function))

// =============================================================================
// terms
// =============================================================================
enum Op : unsigned char { CONST, ATOM, ADD, MUL };

struct Node {
    Op op;
    int id;
    const Node *a = nullptr, *b = nullptr;
    mpq_class c;       // CONST
    int atom = -1;     // ATOM
    Z3_ast z = nullptr;
};

struct Den {
    std::vector<const Node *> f;    // sorted by id, with multiplicity
    const Node *prod = nullptr;
};

struct AtomInfo {
    std::string name;
    bool is_int = false, is_input = false;
    bool pos = false, nonneg = false;   // known sign
    const Node *sqrt_num = nullptr, *sqrt_den = nullptr;  // this atom squared is sqrt_num/sqrt_den
    std::vector<std::vector<Cond>> ax;  // axioms: each a disjunction of conditions
    double lo = 0, hi = 0; bool bounded = false;  // numeric bounds for constants
};
static std::vector<AtomInfo> atoms;

static std::vector<Node *> nodes;
struct Key { int op; int a, b; };
struct KeyHash { size_t operator()(const Key &k) const { return ((size_t)k.op * 1000003u + k.a) * 1000033u + k.b; } };
inline bool operator==(const Key &x, const Key &y) { return x.op == y.op && x.a == y.a && x.b == y.b; }
static std::unordered_map<Key, const Node *, KeyHash> cons_tab;
static std::map<mpq_class, const Node *> const_tab;

static Node *new_node(Op op) { Node *n = new Node; n->op = op; n->id = (int)nodes.size(); nodes.push_back(n); return n; }
static const Node *mk_const(const mpq_class &q) {
    auto it = const_tab.find(q);
    if (it != const_tab.end()) return it->second;
    Node *n = new_node(CONST); n->c = q; const_tab[q] = n; return n;
}
static const Node *mk_atom(int id) {
    Key k{ATOM, id, 0};
    auto it = cons_tab.find(k);
    if (it != cons_tab.end()) return it->second;
    Node *n = new_node(ATOM); n->atom = id; cons_tab[k] = n; return n;
}
static bool isc(const Node *n) { return n->op == CONST; }
static bool is0(const Node *n) { return n->op == CONST && n->c == 0; }
static bool is1(const Node *n) { return n->op == CONST && n->c == 1; }
static const Node *n_add(const Node *a, const Node *b);
static const Node *n_mul(const Node *a, const Node *b) {
    if (isc(a) && isc(b)) return mk_const(a->c * b->c);
    if (isc(b)) std::swap(a, b);
    if (is0(a)) return a;
    if (is1(a)) return b;
    if (isc(a) && b->op == MUL && isc(b->a)) return n_mul(mk_const(a->c * b->a->c), b->b);
    // keep constants outermost
    if (!isc(a)) {
        mpq_class k = 1; bool has = false;
        const Node *x = a, *y = b;
        if (a->op == MUL && isc(a->a)) { k *= a->a->c; x = a->b; has = true; }
        if (b->op == MUL && isc(b->a)) { k *= b->a->c; y = b->b; has = true; }
        if (has) return n_mul(mk_const(k), n_mul(x, y));
        if (a->id > b->id) std::swap(a, b);
    }
    Key key{MUL, a->id, b->id};
    auto it = cons_tab.find(key);
    if (it != cons_tab.end()) return it->second;
    Node *n = new_node(MUL); n->a = a; n->b = b; cons_tab[key] = n; return n;
}
static const Node *n_neg(const Node *a) { return n_mul(mk_const(-1), a); }
static void split_coef(const Node *a, mpq_class &k, const Node *&base) {
    if (a->op == MUL && isc(a->a)) { k = a->a->c; base = a->b; }
    else { k = 1; base = a; }
}
static const Node *n_add(const Node *a, const Node *b) {
    if (isc(a) && isc(b)) return mk_const(a->c + b->c);
    if (is0(a)) return b;
    if (is0(b)) return a;
    if (!isc(a) && !isc(b)) {
        mpq_class ka, kb; const Node *x, *y;
        split_coef(a, ka, x); split_coef(b, kb, y);
        if (x == y) return n_mul(mk_const(ka + kb), x);
    }
    if (a->id > b->id) std::swap(a, b);
    Key key{ADD, a->id, b->id};
    auto it = cons_tab.find(key);
    if (it != cons_tab.end()) return it->second;
    Node *n = new_node(ADD); n->a = a; n->b = b; cons_tab[key] = n; return n;
}
static const Node *n_sub(const Node *a, const Node *b) { return n_add(a, n_neg(b)); }

// ---- denominators -------------------------------------------------------------
static std::map<std::vector<int>, Den *> den_tab;
static const Den *mk_den(std::vector<const Node *> f) {
    std::sort(f.begin(), f.end(), [](const Node *x, const Node *y) { return x->id < y->id; });
    std::vector<int> k; for (auto p : f) k.push_back(p->id);
    auto it = den_tab.find(k);
    if (it != den_tab.end()) return it->second;
    Den *d = new Den; d->f = f;
    const Node *p = mk_const(1);
    for (auto x : f) p = n_mul(p, x);
    d->prod = p;
    den_tab[k] = d;
    return d;
}
static const Den *den1() { static const Den *d = mk_den({}); return d; }

static void factors(const Node *n, std::vector<const Node *> &out, mpq_class &k) {
    if (isc(n)) { k *= n->c; return; }
    if (n->op == MUL) { factors(n->a, out, k); factors(n->b, out, k); return; }
    out.push_back(n);
}
static const Node *prod_of(const std::vector<const Node *> &f, const mpq_class &k) {
    const Node *p = mk_const(k);
    for (auto x : f) p = n_mul(p, x);
    return p;
}

Sym Sym::frac(const Node *n, const Den *d) {
    Sym s; s.kind = K_FRAC; s.num = n; s.den = d;
    if (is0(n)) { s.den = den1(); }
    return s;
}
static Sym fr(const Node *n, const Den *d) { return Sym::frac(n, d); }
static Sym fr(const Node *n) { return Sym::frac(n, den1()); }

static Sym special_const(double c);
static const Node *num_of(const Sym &s, const Den *&d) {
    if (s.kind == K_CONST) {
        Sym t = special_const(s.c);
        if (t.kind == K_FRAC) { d = t.den; return t.num; }
        d = den1();
        return mk_const(mpq_class(s.c));
    }
    d = s.den; return s.num;
}

// =============================================================================
// polynomials (only used to canonicalize arguments of non-polynomial functions)
// =============================================================================
typedef std::vector<std::pair<int, int>> Mono;     // (atom, exponent), sorted
typedef std::map<Mono, mpq_class> Poly;
static std::unordered_map<const Node *, std::shared_ptr<Poly>> poly_memo;
static const size_t POLY_LIMIT = 400;
static std::shared_ptr<Poly> to_poly(const Node *n) {
    auto it = poly_memo.find(n);
    if (it != poly_memo.end()) return it->second;
    std::shared_ptr<Poly> r;
    if (n->op == CONST) { r = std::make_shared<Poly>(); if (n->c != 0) (*r)[Mono()] = n->c; }
    else if (n->op == ATOM) { r = std::make_shared<Poly>(); (*r)[Mono{{n->atom, 1}}] = 1; }
    else {
        auto A = to_poly(n->a), B = to_poly(n->b);
        if (A && B && A->size() * (n->op == MUL ? B->size() : 1) <= 20000) {
            r = std::make_shared<Poly>();
            if (n->op == ADD) {
                *r = *A;
                for (auto &t : *B) { auto &x = (*r)[t.first]; x += t.second; if (x == 0) r->erase(t.first); }
            } else {
                for (auto &s : *A) for (auto &t : *B) {
                    Mono m; size_t i = 0, j = 0;
                    while (i < s.first.size() || j < t.first.size()) {
                        if (j == t.first.size() || (i < s.first.size() && s.first[i].first < t.first[j].first)) m.push_back(s.first[i++]);
                        else if (i == s.first.size() || t.first[j].first < s.first[i].first) m.push_back(t.first[j++]);
                        else { m.push_back({s.first[i].first, s.first[i].second + t.first[j].second}); ++i; ++j; }
                    }
                    auto &x = (*r)[m]; x += s.second * t.second; if (x == 0) r->erase(m);
                }
            }
            if (r->size() > POLY_LIMIT) r.reset();
        }
    }
    poly_memo[n] = r;
    return r;
}
static std::string poly_str(const Poly &p) {
    std::string s;
    for (auto &t : p) {
        s += t.second.get_str(); 
        for (auto &f : t.first) { s += "*a" + std::to_string(f.first); if (f.second != 1) s += "^" + std::to_string(f.second); }
        s += "+";
    }
    return s;
}
static const Node *poly_node(const Poly &p) {
    const Node *r = mk_const(0);
    for (auto &t : p) {
        const Node *m = mk_const(t.second);
        for (auto &f : t.first) for (int i = 0; i < f.second; ++i) m = n_mul(m, mk_atom(f.first));
        r = n_add(r, m);
    }
    return r;
}
// canonical key of a fraction
static std::string key_of(const Sym &x) {
    const Den *d; const Node *n = num_of(x, d);
    auto P = to_poly(n);
    std::string s;
    auto Q = to_poly(d->prod);
    if (P && Q && !P->empty()) {
        // scale numerator and denominator so that leading coefficient of the denominator is one
        mpq_class k = Q->begin()->second;
        Poly p2 = *P, q2 = *Q;
        for (auto &t : p2) t.second /= k;
        for (auto &t : q2) t.second /= k;
        return poly_str(p2) + "/" + poly_str(q2);
    }
    return "n" + std::to_string(n->id) + "/n" + std::to_string(d->prod->id);
}
static bool is_const(const Sym &x, mpq_class &q) {
    if (x.kind == K_CONST) {
        const Den *d; const Node *n = num_of(x, d);
        if (isc(n) && d == den1()) { q = n->c; return true; }
        return false;
    }
    if (x.kind != K_FRAC) return false;
    if (isc(x.num) && x.den == den1()) { q = x.num->c; return true; }
    return false;
}

// =============================================================================
// atoms
// =============================================================================
static std::map<std::string, int> atom_tab;
static int new_atom(const std::string &key, bool *fresh) {
    auto it = atom_tab.find(key);
    if (it != atom_tab.end()) { *fresh = false; return it->second; }
    *fresh = true;
    atoms.emplace_back();
    atoms.back().name = key.size() < 60 ? key : key.substr(0, 50) + "#" + std::to_string(atoms.size());
    atom_tab[key] = (int)atoms.size() - 1;
    return (int)atoms.size() - 1;
}
static void axiom(int a, const Node *p, Rel r) { atoms[a].ax.push_back({Cond{p, r}}); }
static void axiom_or(int a, std::vector<Cond> v) { atoms[a].ax.push_back(v); }

static Sym const_atom(const std::string &name, double value) {
    bool f; int a = new_atom("const:" + name, &f);
    const Node *n = mk_atom(a);
    if (f) {
        double e = std::fabs(value) * 1e-13 + 1e-300;
        axiom(a, n_sub(n, mk_const(mpq_class(value - e))), GT);
        axiom(a, n_sub(n, mk_const(mpq_class(value + e))), LT);
        if (value > 0) atoms[a].pos = true;
    }
    return fr(n);
}
Sym pi() { return const_atom("pi", 3.14159265358979323846); }

// doubles that can only be roundings of a well known irrational are read as it
static Sym special_const(double c) {
    static bool busy = false;
    if (busy || c == std::floor(c) || c == 0) return Sym();
    static std::map<double, int> tab;
    static std::vector<Sym> vals;
    if (tab.empty()) {
        busy = true;
        auto add = [&](double v, Sym s) { tab[v] = (int)vals.size(); vals.push_back(s); tab[-v] = (int)vals.size(); vals.push_back(-s); };
        Sym p = pi(), l2 = log(Sym(2)), l10 = log(Sym(10)), two(2);
        add(M_PI, p); add(M_PI / 2, p / two); add(M_PI / 4, p / Sym(4)); add(2 * M_PI, p * two);
        add(1 / M_PI, Sym(1) / p); add(M_2_PI, two / p);
        add(M_LN2, l2); add(M_LN10, l10); add(1 / M_LN2, Sym(1) / l2); add(1 / M_LN10, Sym(1) / l10);
        add(M_LOG2E, Sym(1) / l2); add(M_LOG10E, Sym(1) / l10);
        add(M_SQRT2, sqrt(two)); add(M_SQRT1_2, Sym(1) / sqrt(two));
        add(M_2_SQRTPI, two / sqrt(p)); add(M_2_SQRTPI / 2, Sym(1) / sqrt(p));
        add(1.0 / std::sqrt(M_PI), Sym(1) / sqrt(p)); add(2.0 / std::sqrt(M_PI), two / sqrt(p));
        add(std::sqrt(M_PI), sqrt(p));
        add(std::sqrt(3.0), sqrt(Sym(3))); add(1 / std::sqrt(3.0), Sym(1) / sqrt(Sym(3)));
        add(std::sqrt(12.0), two * sqrt(Sym(3))); add(1 / std::sqrt(12.0), Sym(1) / (two * sqrt(Sym(3))));
        busy = false;
    }
    auto it = tab.find(c);
    if (it != tab.end()) return vals[it->second];
    // simple fractions n/d, d odd
    for (int d = 3; d <= 45; d += 2) {
        double n = std::nearbyint(c * d);
        if (n != 0 && std::fabs(n) < 100000 && n / d == c) return fr(mk_const(mpq_class((long)n, (long)d)), den1());
    }
    return Sym();
}

// =============================================================================
// path state
// =============================================================================
struct Decision { int val; std::vector<int> rest; };
static struct Path {
    std::vector<int> prefix;
    std::vector<Decision> dec;
    std::vector<std::vector<Cond>> pc;          // conjunction of disjunctions
    std::unordered_map<const Node *, int> mask; // known sign sets: 1 neg, 2 zero, 4 pos
    std::vector<int> choices;                   // structural choices
    int asserts = 0;
    void reset() { dec.clear(); pc.clear(); mask.clear(); choices.clear(); asserts = 0; }
} path;
static jmp_buf path_jmp;
static bool in_path = false;
static int max_decisions = 400;
static std::string kill_why;
static pthread_t main_thread;
static void path_kill(const char *why) {
    if (!pthread_equal(pthread_self(), main_thread)) throw PathDead{why};     // (caught where the thread is joined)
    kill_why = why; longjmp(path_jmp, 1);
}

struct Stats {
    long paths = 0, killed = 0, assume_pruned = 0, asserts = 0, trivial = 0, rewriter = 0, unsat = 0, sat = 0,
         unknown = 0, feas = 0, feas_unknown = 0, infeasible = 0, reach_sat = 0, reach_unknown = 0, candidates = 0, confirmed = 0,
         unreproduced = 0, crossck = 0, cross_dis = 0;
    double solver_s = 0;
} st;
static double deadline = 0;
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static int rel_mask(Rel r) {
    switch (r) { case EQ: return 2; case NE: return 5; case LT: return 1; case LE: return 3; case GT: return 4; default: return 6; }
}
static int flip(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static Rel negate(Rel r) {
    switch (r) { case EQ: return NE; case NE: return EQ; case LT: return GE; case LE: return GT; case GT: return LE; default: return LT; }
}
static void norm(const Node *p, const Node *&base, bool &neg) {
    mpq_class k; split_coef(p, k, base); neg = k < 0;
    // also normalize the sign of sums  (a + -1*b) vs (b + -1*a)
    if (base->op == ADD) {
        const Node *f = base->a; mpq_class kf; const Node *fb; split_coef(f, kf, fb);
        if (!isc(f) && kf < 0) { base = n_add(n_neg(base->a), n_neg(base->b)); neg = !neg; }
    }
}
static int known_mask(const Node *p);
static int struct_mask(const Node *p, int depth = 0) {
    // sign from structure
    if (p->op == CONST) return p->c < 0 ? 1 : p->c == 0 ? 2 : 4;
    if (p->op == ATOM) return atoms[p->atom].pos ? 4 : atoms[p->atom].nonneg ? 6 : 7;
    if (depth > 40) return 7;
    auto get = [&](const Node *q) {
        int m = struct_mask(q, depth + 1);
        const Node *b; bool ng; norm(q, b, ng);
        auto it = path.mask.find(b);
        if (it != path.mask.end()) m &= ng ? flip(it->second) : it->second;
        return m ? m : 7;
    };
    if (p->op == MUL && p->a == p->b) { int m = get(p->a); return m == 2 ? 2 : (m & 2) ? 6 : 4; }
    // flatten the chain (long sums would exceed the depth); what was learned about a part is kept
    std::vector<const Node *> st2{p->b, p->a}, lv;
    while (!st2.empty()) {
        const Node *x = st2.back(); st2.pop_back();
        if (x->op == p->op && st2.size() + lv.size() < 4000 && !(x->op == MUL && x->a == x->b)) {
            const Node *b; bool ng; norm(x, b, ng);
            if (!path.mask.count(b)) { st2.push_back(x->b); st2.push_back(x->a); continue; }
        }
        lv.push_back(x);
    }
    if (p->op == MUL) {
        std::sort(lv.begin(), lv.end());
        int r = 4;
        for (size_t i = 0; i < lv.size(); ++i) {
            int y;
            if (i + 1 < lv.size() && lv[i] == lv[i + 1]) { int m = get(lv[i++]); y = m == 2 ? 2 : (m & 2) ? 6 : 4; }
            else y = get(lv[i]);
            int q = 0;
            for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t)
                if ((r >> s & 1) && (y >> t & 1)) q |= 1 << ((s - 1) * (t - 1) + 1);
            r = q;
        }
        return r;
    }
    int r = 2;
    for (auto l : lv) {
        int y = get(l), q = 0;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            if ((r >> i & 1) && (y >> j & 1)) {
                int s = i - 1, t = j - 1;
                if (s == 0) q |= 1 << (t + 1);
                else if (t == 0 || s == t) q |= 1 << (s + 1);
                else q = 7;
            }
        r = q;
        if (r == 7) break;
    }
    return r;
}
static int known_mask(const Node *p) {
    const Node *b; bool ng; norm(p, b, ng);
    int m = struct_mask(b);
    auto it = path.mask.find(b);
    if (it != path.mask.end()) m &= it->second;
    if (!m) m = 7;
    return ng ? flip(m) : m;
}
static void learn(const Node *p, Rel r) {
    const Node *b; bool ng; norm(p, b, ng);
    int m = rel_mask(r); if (ng) m = flip(m);
    auto it = path.mask.find(b);
    if (it == path.mask.end()) path.mask[b] = m; else it->second &= m;
}
static void add_pc(const Node *p, Rel r) { path.pc.push_back({Cond{p, r}}); learn(p, r); }

// =============================================================================
// z3
// =============================================================================
static Z3_context Z = nullptr;
static Z3_sort zreal, zint;
static std::vector<Z3_ast> atom_z;
static void z_err(Z3_context, Z3_error_code) {}
static void z_init() {
    if (Z) return;
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(Z, z_err);
    zreal = Z3_mk_real_sort(Z); zint = Z3_mk_int_sort(Z);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, zreal)); Z3_inc_ref(Z, Z3_sort_to_ast(Z, zint));
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast z_atom(int i) {
    if ((int)atom_z.size() <= i) atom_z.resize(atoms.size(), nullptr);
    if (!atom_z[i]) {
        std::string nm = "a" + std::to_string(i) + "_" + atoms[i].name;
        Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), atoms[i].is_int ? zint : zreal));
        atom_z[i] = v;
    }
    return atom_z[i];
}
static Z3_ast z_node(const Node *n) {
    if (n->z) return n->z;
    Z3_ast r;
    if (n->op == CONST) r = Z3_mk_numeral(Z, n->c.get_str().c_str(), zreal);
    else if (n->op == ATOM) { r = z_atom(n->atom); if (atoms[n->atom].is_int) r = Z3_mk_int2real(Z, r); }
    else {
        // flatten chains to keep terms shallow
        std::vector<const Node *> st2{n}; std::vector<Z3_ast> args;
        while (!st2.empty()) {
            const Node *x = st2.back(); st2.pop_back();
            if (x->op == n->op && (x == n || !x->z) && args.size() < 5000) { st2.push_back(x->b); st2.push_back(x->a); }
            else args.push_back(z_node(x));
        }
        r = n->op == ADD ? Z3_mk_add(Z, args.size(), args.data()) : Z3_mk_mul(Z, args.size(), args.data());
    }
    const_cast<Node *>(n)->z = keep(r);
    return r;
}
static Z3_ast z_cond(const Cond &c) {
    Z3_ast p = z_node(c.p), z = z_node(mk_const(0));
    switch (c.rel) {
    case EQ: return Z3_mk_eq(Z, p, z);
    case NE: return Z3_mk_not(Z, Z3_mk_eq(Z, p, z));
    case LT: return Z3_mk_lt(Z, p, z);
    case LE: return Z3_mk_le(Z, p, z);
    case GT: return Z3_mk_gt(Z, p, z);
    default: return Z3_mk_ge(Z, p, z);
    }
}
static Z3_ast z_clause(const std::vector<Cond> &v) {
    if (v.size() == 1) return z_cond(v[0]);
    std::vector<Z3_ast> a; for (auto &c : v) a.push_back(keep(z_cond(c)));
    Z3_ast r = keep(Z3_mk_or(Z, a.size(), a.data()));
    for (auto x : a) Z3_dec_ref(Z, x);
    return r;       // (stays referenced: clauses are few)
}
static std::unordered_map<const Node *, std::shared_ptr<std::set<int>>> atoms_memo;
static const std::set<int> &atoms_of(const Node *n) {
    auto it = atoms_memo.find(n);
    if (it != atoms_memo.end()) return *it->second;
    auto s = std::make_shared<std::set<int>>();
    if (n->op == ATOM) s->insert(n->atom);
    else if (n->op != CONST) {
        *s = atoms_of(n->a);
        auto &b = atoms_of(n->b);
        s->insert(b.begin(), b.end());
    }
    atoms_memo[n] = s;
    return *s;
}
static std::set<int> atoms_of(const std::vector<Cond> &cl) {
    std::set<int> s; for (auto &c : cl) { auto &x = atoms_of(c.p); s.insert(x.begin(), x.end()); } return s;
}

static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct QueryOut { int res; /* -1 unsat 0 unknown 1 sat */ std::map<int, double> model; };
static int cur_conf = 0;
static void assertion_failed(const char *what);
static bool any_scale_mode = false;  // counterexamples of any magnitude are tried (arithmetic of the type modelled)
static double log_slack_bound = 0;     // log10(x) is that of a number above x by at most this relative distance (never rounded down past a power of ten); powers of ten have the range of double
static bool digit_mode = false;      // harness with symbolic digits (linear integer arithmetic)
static const bool trace = std::getenv("VERIF_TRACE") != nullptr;
static std::string smt_dir;
static int smt_seq = 0;

static double num_value(Z3_ast v) {
    if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST || Z3_is_algebraic_number(Z, v)) {
        std::string s = Z3_get_numeral_decimal_string(Z, v, 40);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return std::strtod(s.c_str(), nullptr);
    }
    return 0;
}

static QueryOut query(std::vector<std::vector<Cond>> goal, bool use_slice, unsigned timeout_ms, bool want_model,
                      const std::vector<std::vector<Cond>> &extra = {}) {
    z_init();
    double t0 = now();
    QueryOut out; out.res = 0;
    // select path conditions (independence slicing) and axioms
    std::vector<std::vector<Cond>> sel = goal;
    sel.insert(sel.end(), extra.begin(), extra.end());
    std::set<int> reach;
    std::vector<char> used(path.pc.size(), 0);
    std::set<int> ax_done;
    for (auto &g : sel) { auto s = atoms_of(g); reach.insert(s.begin(), s.end()); }
    if (!use_slice) for (size_t i = 0; i < path.pc.size(); ++i) {
        used[i] = 1; sel.push_back(path.pc[i]);
        auto s = atoms_of(path.pc[i]); reach.insert(s.begin(), s.end());
    }
    bool change = true;
    while (change) {
        change = false;
        for (int a : std::vector<int>(reach.begin(), reach.end())) if (!ax_done.count(a)) {
            ax_done.insert(a); change = true;
            for (auto &cl : atoms[a].ax) {
                sel.push_back(cl);
                auto s = atoms_of(cl); reach.insert(s.begin(), s.end());
            }
        }
        for (size_t i = 0; i < path.pc.size(); ++i) if (!used[i]) {
            auto s = atoms_of(path.pc[i]);
            bool hit = false; for (int a : s) if (reach.count(a)) { hit = true; break; }
            if (hit) { used[i] = 1; change = true; sel.push_back(path.pc[i]); reach.insert(s.begin(), s.end()); }
        }
    }
    bool ints = false;
    for (int a : reach) if (atoms[a].is_int) ints = true;
    std::vector<Z3_ast> as;
    for (auto &cl : sel) as.push_back(keep(z_clause(cl)));
    Z3_solver s;
    if (ints) s = digit_mode ? Z3_mk_simple_solver(Z) : Z3_mk_solver(Z);
    else s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA"));
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeout_ms);
    Z3_solver_set_params(Z, s, p);
    for (auto a : as) Z3_solver_assert(Z, s, a);
    Z3_lbool r = Z3_L_UNDEF;
    for (int i = 0; i < 6; ++i) {          // (the limit is wall time: again if the process did not get the processor)
        const double c0 = cpu();
        r = Z3_solver_check(Z, s);
        if (r != Z3_L_UNDEF || cpu() - c0 > 0.0007 * timeout_ms) break;
        const char *why = Z3_solver_get_reason_unknown(Z, s);
        if (!std::strstr(why, "timeout") && !std::strstr(why, "cancel")) break;
    }
    out.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
    if (!smt_dir.empty() && (want_model || trace)) {
        std::ofstream f(smt_dir + "/q" + std::to_string(getpid()) + "_" + std::to_string(smt_seq++) +
                        (out.res > 0 ? "_sat" : out.res < 0 ? "_unsat" : "_unknown") + ".smt2");
        f << "(set-logic " << (ints ? "QF_NIRA" : "QF_NRA") << ")\n" << Z3_solver_to_string(Z, s) << "(check-sat)\n";
    }
    if (out.res == 1 && want_model) {
        Z3_model m = Z3_solver_get_model(Z, s);
        if (m) {
            Z3_model_inc_ref(Z, m);
            for (size_t i = 0; i < atoms.size(); ++i) if (atoms[i].is_input) {
                Z3_ast v;
                if (Z3_model_eval(Z, m, z_atom((int)i), true, &v) && v) out.model[(int)i] = num_value(v);
            }
            Z3_model_dec_ref(Z, m);
        }
    }
    Z3_params_dec_ref(Z, p);
    Z3_solver_dec_ref(Z, s);
    for (auto a : as) Z3_dec_ref(Z, a);
    st.solver_s += now() - t0;
    return out;
}

// does z3's rewriter (sum-of-monomials normal form) decide p == 0 ?
static bool rewriter_zero(const Node *p) {
    z_init();
    double t0 = now();
    Z3_params prm = Z3_mk_params(Z); Z3_params_inc_ref(Z, prm);
    Z3_params_set_bool(Z, prm, Z3_mk_string_symbol(Z, "som"), true);
    Z3_params_set_uint(Z, prm, Z3_mk_string_symbol(Z, "som_blowup"), 1000000);
    Z3_ast e = keep(Z3_mk_eq(Z, z_node(p), z_node(mk_const(0))));
    Z3_ast r = keep(Z3_simplify_ex(Z, e, prm));
    bool ok = Z3_get_bool_value(Z, r) == Z3_L_TRUE;
    Z3_dec_ref(Z, r); Z3_dec_ref(Z, e); Z3_params_dec_ref(Z, prm);
    st.solver_s += now() - t0;
    return ok;
}

// =============================================================================
// decisions
// =============================================================================
static int decide(const std::vector<int> &opts) {
    if ((int)path.dec.size() >= max_decisions) path_kill("too many decisions on a path");
    if (now() > deadline) path_kill("time budget");
    Decision d;
    d.val = opts[0];
    d.rest.assign(opts.begin() + 1, opts.end());
    path.dec.push_back(d);
    return d.val;
}
static bool from_prefix(int &v) {
    size_t i = path.dec.size();
    if (i < path.prefix.size()) { v = path.prefix[i]; Decision d; d.val = v; path.dec.push_back(d); return true; }
    return false;
}
static unsigned feas_timeout = 1500;
static bool branch(const Node *p, Rel r) {
    if (isc(p)) { int m = p->c < 0 ? 1 : p->c == 0 ? 2 : 4; return m & rel_mask(r); }
    int k = known_mask(p), rm = rel_mask(r);
    if ((k & rm) == k) return true;
    if ((k & rm) == 0) return false;
    if (!in_path) { std::fprintf(stderr, "symbolic branch outside of a path\n"); _exit(3); }
    int v;
    if (!from_prefix(v)) {
        st.feas += 2;
        int rt = query({{Cond{p, r}}}, true, feas_timeout, false).res;
        std::vector<int> opts;
        if (rt < 0) opts = {0};
        else {
            int rf = query({{Cond{p, negate(r)}}}, true, feas_timeout, false).res;
            if (rt == 0 || rf == 0) st.feas_unknown++;
            if (rf < 0) opts = {1}; else opts = {1, 0};
        }
        v = decide(opts);
    }
    if (trace) { z_init(); std::fprintf(stderr, "%s %s  %s\n", path.dec.back().rest.empty() ? "  " : "FORK", v ? "yes" : "no ", Z3_ast_to_string(Z, z_cond(Cond{p, r}))); }
    add_pc(p, v ? r : negate(r));
    return v;
}

static std::map<int, Sym> log_arg;       // atom -> argument of the logarithm it is
static Cond cond_of(const Sym &a, Rel r, const Sym &b);
static Sym ipow(Sym b, long n);
// a linear combination of logarithms compared with zero is compared by exponentiating:
// sum c_i log(a_i) REL 0  <=>  prod a_i^c_i REL 1   (the a_i are positive where the logarithm was taken)
static bool log_linear(const Node *p, std::vector<std::pair<int, mpq_class>> *terms) {
    bool any = false;
    for (int a : atoms_of(p)) if (log_arg.count(a)) { any = true; break; }
    if (!any) return false;
    auto P = to_poly(p);
    if (!P || P->empty()) return false;
    for (auto &t : *P) {
        const Mono &m = t.first;
        if (m.size() != 1 || m[0].second != 1 || !log_arg.count(m[0].first)) return false;
        if (terms) terms->push_back({m[0].first, t.second});
    }
    return true;
}
static bool log_cond(const Node *p, Rel r, Cond &out) {
    std::vector<std::pair<int, mpq_class>> ts;
    if (!log_linear(p, &ts)) return false;
    mpz_class l = 1;
    for (auto &t : ts) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den().get_mpz_t());
    Sym up(1), dn(1);
    for (auto &t : ts) {
        mpz_class k = mpq_class(t.second * l).get_num();
        mpq_class q; const Sym &a = log_arg[t.first];
        if (abs(k) > (is_const(a, q) ? 1100 : 8)) return false;
        long n = k.get_si();
        if (n > 0) up = up * ipow(a, n); else dn = dn * ipow(a, -n);
    }
    out = cond_of(up, r, dn);
    return true;
}
static bool compare(const Sym &a, Rel r, const Sym &b) {
    if (a.kind == K_NAN || b.kind == K_NAN) return r == NE;
    if (a.kind == K_CONST && b.kind == K_CONST) {
        double x = a.c, y = b.c;
        int m = x < y ? 1 : x == y ? 2 : 4;
        return m & rel_mask(r);
    }
    if (!a.fin() || !b.fin()) {
        int x = a.kind == K_PINF ? 1 : a.kind == K_NINF ? -1 : 0;
        int y = b.kind == K_PINF ? 1 : b.kind == K_NINF ? -1 : 0;
        int m = x < y ? 1 : x == y ? 2 : 4;
        return m & rel_mask(r);
    }
    Sym d = a - b;
    const Den *dd; const Node *n = num_of(d, dd);
    { Cond lc; bool posden = true;
      for (auto f : dd->f) if ((known_mask(f) & 3)) posden = false;
      if (posden && log_cond(n, r, lc)) return branch(lc.p, lc.rel); }
    if (r == EQ || r == NE) return branch(n, r);
    // n / prod(f): multiply by factors of odd multiplicity and unknown sign
    const Node *p = n;
    for (size_t i = 0; i < dd->f.size();) {
        size_t j = i; while (j < dd->f.size() && dd->f[j] == dd->f[i]) ++j;
        if ((j - i) % 2) {
            int k = known_mask(dd->f[i]) & 5;
            if (k == 4) {} else if (k == 1) p = n_neg(p); else p = n_mul(p, dd->f[i]);
        }
        i = j;
    }
    return branch(p, r);
}
bool operator<(const Sym &a, const Sym &b) { return compare(a, LT, b); }
bool operator<=(const Sym &a, const Sym &b) { return compare(a, LE, b); }
bool operator==(const Sym &a, const Sym &b) { return compare(a, EQ, b); }
bool operator!=(const Sym &a, const Sym &b) { return compare(a, NE, b); }

// sign poly of a finite value (for non-forking assertions and assumptions)
static Cond cond_of(const Sym &a, Rel r, const Sym &b) {
    Sym d = a - b;
    const Den *dd; const Node *n = num_of(d, dd);
    const Node *p = n;
    { Cond lc; bool posden = true;
      for (auto f : dd->f) if ((known_mask(f) & 3)) posden = false;
      if (posden && log_cond(n, r, lc)) return lc; }
    if (r != EQ && r != NE)
        for (size_t i = 0; i < dd->f.size();) {
            size_t j = i; while (j < dd->f.size() && dd->f[j] == dd->f[i]) ++j;
            if ((j - i) % 2) {
                int k = known_mask(dd->f[i]) & 5;
                if (k == 4) {} else if (k == 1) p = n_neg(p); else p = n_mul(p, dd->f[i]);
            }
            i = j;
        }
    return Cond{p, r};
}

// =============================================================================
// arithmetic
// =============================================================================
static bool small_int(double c) { return c == std::floor(c) && std::fabs(c) < 1e6; }
static int sgn_fork(const Sym &x) {   // sign of a finite value, forking
    if (compare(x, EQ, Sym(0))) return 0;
    return compare(x, GT, Sym(0)) ? 1 : -1;
}
Sym Sym::operator-() const {
    switch (kind) {
    case K_CONST: { Sym s = *this; s.c = c == 0 ? 0 : -c; return s; }
    case K_FRAC: return fr(n_neg(num), den);
    case K_PINF: return inf(-1);
    case K_NINF: return inf(1);
    default: return *this;
    }
}
static Sym tidy(const Sym &s) {
    if (s.kind == K_FRAC && s.den == den1() && isc(s.num) && s.num->c.get_den() == 1 && abs(s.num->c) < 1000000)
        return Sym(s.num->c.get_d());
    return s;
}
Sym operator+(const Sym &a, const Sym &b) {
    if (a.kind == K_NAN || b.kind == K_NAN) return Sym::nan();
    if (!a.fin() || !b.fin()) {
        if (!a.fin() && !b.fin()) return a.kind == b.kind ? a : Sym::nan();
        return a.fin() ? b : a;
    }
    if (a.kind == K_CONST && b.kind == K_CONST && small_int(a.c) && small_int(b.c)) return Sym(a.c + b.c);
    const Den *da, *db; const Node *na = num_of(a, da), *nb = num_of(b, db);
    if (is0(na)) return b;
    if (is0(nb)) return a;
    if (da == db) return tidy(fr(n_add(na, nb), da));
    // least common multiple
    std::vector<const Node *> l, ma, mb;
    size_t i = 0, j = 0;
    while (i < da->f.size() || j < db->f.size()) {
        if (j == db->f.size() || (i < da->f.size() && da->f[i]->id < db->f[j]->id)) { l.push_back(da->f[i]); mb.push_back(da->f[i]); ++i; }
        else if (i == da->f.size() || db->f[j]->id < da->f[i]->id) { l.push_back(db->f[j]); ma.push_back(db->f[j]); ++j; }
        else { l.push_back(da->f[i]); ++i; ++j; }
    }
    return tidy(fr(n_add(n_mul(na, prod_of(ma, 1)), n_mul(nb, prod_of(mb, 1))), mk_den(l)));
}
Sym operator-(const Sym &a, const Sym &b) { return a + (-b); }
static void cancel(const Node *&n, std::vector<const Node *> &d) {
    if (d.empty() || isc(n)) return;
    std::vector<const Node *> f; mpq_class k = 1;
    factors(n, f, k);
    bool any = false;
    for (auto it = f.begin(); it != f.end();) {
        auto jt = std::find(d.begin(), d.end(), *it);
        if (jt != d.end()) { d.erase(jt); it = f.erase(it); any = true; } else ++it;
    }
    if (any) n = prod_of(f, k);
}
// reduce squares of square-root atoms in a product:  r*r -> num/den
static bool reduce_sqrt(const Node *&n, std::vector<const Node *> &d) {
    std::vector<const Node *> f; mpq_class k = 1;
    if (n->op != MUL) return false;
    factors(n, f, k);
    for (size_t i = 0; i < f.size(); ++i)
        if (f[i]->op == ATOM && atoms[f[i]->atom].sqrt_num)
            for (size_t j = i + 1; j < f.size(); ++j)
                if (f[j] == f[i]) {
                    const AtomInfo &ai = atoms[f[i]->atom];
                    f.erase(f.begin() + j); f.erase(f.begin() + i);
                    n = n_mul(prod_of(f, k), ai.sqrt_num);
                    mpq_class kk = 1; std::vector<const Node *> g; factors(ai.sqrt_den, g, kk);
                    if (kk != 1) n = n_mul(n, mk_const(1 / kk));
                    d.insert(d.end(), g.begin(), g.end());
                    return true;
                }
    return false;
}
static void reduce_sqrt_den(const Node *&n, std::vector<const Node *> &d) {
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = 0; i < d.size() && !again; ++i)
            if (d[i]->op == ATOM && atoms[d[i]->atom].sqrt_num)
                for (size_t j = i + 1; j < d.size(); ++j)
                    if (d[j] == d[i]) {
                        const AtomInfo &ai = atoms[d[i]->atom];
                        d.erase(d.begin() + j); d.erase(d.begin() + i);
                        mpq_class kk = 1; std::vector<const Node *> g; factors(ai.sqrt_num, g, kk);
                        n = n_mul(n, n_mul(ai.sqrt_den, mk_const(1 / kk)));
                        d.insert(d.end(), g.begin(), g.end());
                        again = true; break;
                    }
    }
}
static Sym mk_frac(const Node *n, std::vector<const Node *> d) {
    cancel(n, d);
    while (reduce_sqrt(n, d)) cancel(n, d);
    reduce_sqrt_den(n, d);
    cancel(n, d);
    return tidy(fr(n, mk_den(d)));
}
Sym operator*(const Sym &a, const Sym &b) {
    if (a.kind == K_NAN || b.kind == K_NAN) return Sym::nan();
    if (!a.fin() || !b.fin()) {
        auto sg = [](const Sym &x) { return x.kind == K_PINF ? 1 : x.kind == K_NINF ? -1 : sgn_fork(x); };
        int s = sg(a) * sg(b);
        return s == 0 ? Sym::nan() : Sym::inf(s);
    }
    if (a.kind == K_CONST && b.kind == K_CONST && small_int(a.c) && small_int(b.c)) return Sym(a.c * b.c);
    if (a.kind == K_CONST && a.c == 0) return Sym(0);
    if (b.kind == K_CONST && b.c == 0) return Sym(0);
    const Den *da, *db; const Node *na = num_of(a, da), *nb = num_of(b, db);
    std::vector<const Node *> d1 = da->f, d2 = db->f;
    if (!d2.empty()) cancel(na, d2);
    if (!d1.empty()) cancel(nb, d1);
    d1.insert(d1.end(), d2.begin(), d2.end());
    return mk_frac(n_mul(na, nb), d1);
}
Sym operator/(const Sym &a, const Sym &b) {
    if (a.kind == K_NAN || b.kind == K_NAN) return Sym::nan();
    if (!b.fin()) return a.fin() ? Sym(0) : Sym::nan();
    if (compare(b, EQ, Sym(0))) {
        if (!a.fin()) return a;
        int s = sgn_fork(a);
        return s == 0 ? Sym::nan() : Sym::inf(s);
    }
    if (!a.fin()) {
        int s = (a.kind == K_PINF ? 1 : -1) * sgn_fork(b);
        return Sym::inf(s);
    }
    const Den *da, *db; const Node *na = num_of(a, da), *nb = num_of(b, db);
    if (na == nb && da == db) return Sym(1);
    mpq_class k = 1; std::vector<const Node *> fb;
    factors(nb, fb, k);
    std::vector<const Node *> d = da->f;
    d.insert(d.end(), fb.begin(), fb.end());
    const Node *n = n_mul(na, mk_const(1 / k));
    // numerator gets the factors of b's denominator
    std::vector<const Node *> up;
    for (auto f : db->f) {
        auto it = std::find(d.begin(), d.end(), f);
        if (it != d.end()) d.erase(it); else up.push_back(f);
    }
    n = n_mul(n, prod_of(up, 1));
    return mk_frac(n, d);
}
Sym &Sym::operator+=(const Sym &o) { return *this = *this + o; }
Sym &Sym::operator-=(const Sym &o) { return *this = *this - o; }
Sym &Sym::operator*=(const Sym &o) { return *this = *this * o; }
Sym &Sym::operator/=(const Sym &o) { return *this = *this / o; }
Sym::operator bool() const { return *this != Sym(0); }
Sym::operator double() const {
    mpq_class q;
    if (kind == K_CONST) return c;
    if (kind == K_NAN) return std::numeric_limits<double>::quiet_NaN();
    if (kind == K_PINF) return std::numeric_limits<double>::infinity();
    if (kind == K_NINF) return -std::numeric_limits<double>::infinity();
    if (is_const(*this, q)) return q.get_d();
    path_kill("conversion of a symbolic value to double");
    return 0;
}
Sym::operator long() const {
    mpq_class q;
    if (is_const(*this, q)) return (long)q.get_d();
    if (!fin()) {
        if (log_slack_bound > 0) assertion_failed("conversion of a non-finite value to integer");
        path_kill("conversion of a non-finite value to integer");
    }
    Sym t = trunc(*this);
    // value fork: enumerate the feasible integers (bounded)
    for (int i = 0; i < 64; ++i) {
        int v;
        size_t idx = path.dec.size();
        if (idx < path.prefix.size()) { v = path.prefix[idx]; Decision d; d.val = v; path.dec.push_back(d); }
        else {
            const Den *dd; const Node *n = num_of(t, dd); (void)n;
            z_init();
            int found = INT32_MIN;
            for (int k = -20; k <= 20 && found == INT32_MIN; ++k) {
                Cond c = cond_of(t, EQ, Sym(k));
                if (known_mask(c.p) == 5) continue;
                if (query({{c}}, true, feas_timeout, false).res >= 0) found = k;
            }
            if (found == INT32_MIN) path_kill("integer conversion out of bounds");
            v = decide({found});
        }
        if (compare(t, EQ, Sym(v))) return v;
    }
    path_kill("integer conversion: too many values");
    return 0;
}
static const long long TOKEN_BASE = 1000003;
static std::vector<Sym> tokens;
// digit tokens: stand-ins for symbolic integers between 0 and 9 in integer variables and in text.  '0' + token,
// truncated to a byte, is the placeholder character 0x80 + index of the digit.
static const long long DIGIT_BASE = (1ll << 24) + 0x50, DIGIT_STRIDE = 257, DIGIT_OFFS = 16;
static std::vector<Sym> digit_tokens;      // of the current path

static bool digit_token(long long v, size_t &i, int &off) {
    if (v < DIGIT_BASE - DIGIT_OFFS) return false;
    long long k = (v - DIGIT_BASE + DIGIT_STRIDE / 2) / DIGIT_STRIDE, o = v - DIGIT_BASE - k * DIGIT_STRIDE;
    if (k >= (long long)digit_tokens.size() || o < -DIGIT_OFFS || o > DIGIT_OFFS) return false;
    i = k; off = (int)o; return true;
}
namespace detail {
    bool is_token(long long v) {
        size_t i; int o;
        return (v >= TOKEN_BASE && v < TOKEN_BASE + (long long)tokens.size()) || digit_token(v, i, o);
    }
    Sym token_value(long long v) {
        size_t i; int o;
        if (digit_token(v, i, o)) return digit_tokens[i] + Sym(o);
        return tokens[v - TOKEN_BASE];
    }
}
static long long new_digit(const Sym &x) {
    if (digit_tokens.size() >= 120) path_kill("too many digits");
    digit_tokens.push_back(x);
    return DIGIT_BASE + DIGIT_STRIDE * (long long)(digit_tokens.size() - 1);
}
char digit_char(const Sym &x) {
    size_t i; int o;
    digit_token(new_digit(x), i, o);
    return (char)(0x80 + i);
}
void log_slack(double bound) { log_slack_bound = bound; }
int conf_now() { return cur_conf; }
void any_scale(bool on) { any_scale_mode = on; }
void digits_mode(bool on) { digit_mode = on; digit_tokens.clear(); }
Sym digit_of(unsigned char ch) {
    if (ch >= '0' && ch <= '9') return Sym(ch - '0');
    size_t i = ch - 0x80;
    if (ch < 0x80 || i >= digit_tokens.size()) path_kill("not a digit");
    return digit_tokens[i];
}
bool is_digit(unsigned char ch) { return (ch >= '0' && ch <= '9') || (ch >= 0x80 && (size_t)(ch - 0x80) < digit_tokens.size()); }
std::string digit_string(long long v) {
    size_t i; int o;
    if (!digit_token(v, i, o)) return std::to_string(v);
    if (o == 0) return std::string(1, (char)(0x80 + i));
    long long w = new_digit(detail::token_value(v));
    digit_token(w, i, o);
    return std::string(1, (char)(0x80 + i));
}
Sym::operator int() const {
    mpq_class q;
    if (digit_mode && kind == K_FRAC && !is_const(*this, q)) {
        Sym t = trunc(*this);
        if (!is_const(t, q) && t.kind == K_FRAC) {
            Cond lo = cond_of(t, LT, Sym(0)), hi = cond_of(t, GT, Sym(9));
            int v;      // (recorded as a decision so that re-execution takes the same way)
            if (!from_prefix(v)) {
                st.feas++;
                v = decide({query({{lo, hi}}, true, feas_timeout, false).res < 0 ? 1 : 0});
            }
            if (trace) std::fprintf(stderr, "   digit %d\n", v);
            if (v) return (int)new_digit(t);
        }
    }
    return (int)static_cast<long>(*this);
}

std::ostream &operator<<(std::ostream &os, const Sym &x) {
    if (x.kind == K_CONST) return os << x.c;
    if (x.kind == K_NAN) return os << "nan";
    if (x.kind == K_PINF) return os << "inf";
    if (x.kind == K_NINF) return os << "-inf";
    return os << "<sym>";
}

// =============================================================================
// functions
// =============================================================================
static bool perfect_root(const mpq_class &q, int n, mpq_class &r) {
    mpz_class a = q.get_num(), b = q.get_den(), x, y;
    bool neg = a < 0; if (neg) { if (n % 2 == 0) return false; a = -a; }
    if (!mpz_root(x.get_mpz_t(), a.get_mpz_t(), n)) return false;
    if (!mpz_root(y.get_mpz_t(), b.get_mpz_t(), n)) return false;
    r = mpq_class(neg ? mpz_class(-x) : x, y); return true;
}
static Sym q2s(const mpq_class &q) { return tidy(fr(mk_const(q))); }

Sym abs(const Sym &x) {
    if (x.kind == K_NAN || x.kind == K_PINF) return x;
    if (x.kind == K_NINF) return -x;
    return x >= Sym(0) ? x : -x;
}
Sym sqrt(const Sym &x) {
    if (x.kind == K_NAN || x.kind == K_PINF) return x;
    if (x.kind == K_NINF) return Sym::nan();
    mpq_class q, r;
    if (is_const(x, q)) {
        if (q < 0) return Sym::nan();
        if (perfect_root(q, 2, r)) return q2s(r);
    }
    if (compare(x, LT, Sym(0))) return Sym::nan();
    const Den *d; const Node *n = num_of(x, d);
    if (n->op == MUL && n->a == n->b && d == den1()) return abs(fr(n->a));
    bool f; int a = new_atom("sqrt(" + key_of(x) + ")", &f);
    const Node *an = mk_atom(a);
    if (f) {
        atoms[a].nonneg = true;
        if (is_const(x, q)) { atoms[a].pos = true; }
        atoms[a].sqrt_num = n; atoms[a].sqrt_den = d->prod;
        axiom(a, an, GE);
        axiom(a, n_sub(n_mul(n_mul(an, an), d->prod), n), EQ);
    }
    if (known_mask(n) == 4 || known_mask(n) == 1 || known_mask(n) == 5) learn(an, GT);
    return fr(an);
}
Sym cbrt(const Sym &x) {
    if (!x.fin()) return x;
    mpq_class q, r;
    if (is_const(x, q) && perfect_root(q, 3, r)) return q2s(r);
    const Den *d; const Node *n = num_of(x, d);
    bool f; int a = new_atom("cbrt(" + key_of(x) + ")", &f);
    const Node *an = mk_atom(a);
    if (f) {
        axiom(a, n_sub(n_mul(n_mul(n_mul(an, an), an), d->prod), n), EQ);
    }
    if (d == den1()) {
        int m = known_mask(n);
        if (m == 4) learn(an, GT); else if (m == 1) learn(an, LT); else if (m == 5) learn(an, NE);
    }
    return fr(an);
}
static Sym ipow(Sym b, long n) {
    if (n < 0) return Sym(1) / ipow(b, -n);
    mpq_class q;
    if (is_const(b, q)) {
        mpq_class r = 1, w = q;
        for (unsigned long e = n; e; e >>= 1) { if (e & 1) r *= w; if (e > 1) w *= w; }
        return q2s(r);
    }
    Sym r(1); while (n-- > 0) r = r * b; return r;
}
static Sym exp_atom(const std::string &key, double cval, bool has_c) {
    bool f; int a = new_atom("exp(" + key + ")", &f);
    if (f) {
        atoms[a].pos = true;
        axiom(a, mk_atom(a), GT);
        if (has_c) {
            double v = std::exp(cval), e = v * 1e-12;
            axiom(a, n_sub(mk_atom(a), mk_const(mpq_class(v - e))), GT);
            axiom(a, n_sub(mk_atom(a), mk_const(mpq_class(v + e))), LT);
        }
    }
    return fr(mk_atom(a));
}
Sym exp(const Sym &x) {
    if (x.kind == K_NAN || x.kind == K_PINF) return x;
    if (x.kind == K_NINF) return Sym(0);
    const Den *d; const Node *n = num_of(x, d);
    auto P = to_poly(n);
    if (!P || d != den1()) {
        // opaque argument; canonical up to sign
        Sym m = -x;
        std::string k1 = key_of(x), k2 = key_of(m);
        if (k2 < k1) return Sym(1) / exp_atom(k2, 0, false);
        return exp_atom(k1, 0, false);
    }
    Sym r(1);
    for (auto &t : *P) {
        mpq_class cf = t.second;
        const Mono &m = t.first;
        long p = cf.get_num().get_si(), q = cf.get_den().get_si();
        if (m.size() == 1 && m[0].second == 1 && log_arg.count(m[0].first)) {
            Sym a = log_arg[m[0].first];
            if (q == 1 && std::labs(p) <= 16) { r = r * ipow(a, p); continue; }
            if (q == 2 && std::labs(p) <= 16) { r = r * ipow(sqrt(a), p); continue; }
            if (q == 3 && std::labs(p) <= 16) { r = r * ipow(cbrt(a), p); continue; }
        }
        if (std::labs(p) <= 16 && q <= 1000) {
            Poly base; base[m] = mpq_class(1, q);
            Sym e = exp_atom(poly_str(base), 1.0 / q, m.empty());
            if (q > 1 && q <= 6) {
                // link with the atom for q = 1
                Poly b1; b1[m] = 1;
                Sym e1 = exp_atom(poly_str(b1), 1.0, m.empty());
                int ea = e.num->atom;
                if (atoms[ea].ax.size() < 4)
                    axiom(ea, n_sub(ipow(e, q).num, e1.num), EQ);
            }
            r = r * ipow(e, p);
        } else {
            Poly base; base[m] = cf < 0 ? mpq_class(-cf) : cf;
            Sym e = exp_atom(poly_str(base), base[m].get_d(), m.empty());
            r = cf < 0 ? r / e : r * e;
        }
    }
    return r;
}
Sym log(const Sym &x) {
    if (x.kind == K_NAN || x.kind == K_PINF) return x;
    if (x.kind == K_NINF) return Sym::nan();
    mpq_class q;
    if (is_const(x, q)) {
        if (q < 0) return Sym::nan();
        if (q == 0) return Sym::inf(-1);
        if (q == 1) return Sym(0);
        if (q < 1) return -log(q2s(1 / q));
        bool f; int a = new_atom("log(" + key_of(x) + ")", &f);
        if (f) {
            double v = std::log(q.get_d()), e = v * 1e-13;
            atoms[a].pos = true;
            axiom(a, n_sub(mk_atom(a), mk_const(mpq_class(v - e))), GT);
            axiom(a, n_sub(mk_atom(a), mk_const(mpq_class(v + e))), LT);
            log_arg[a] = x;
        }
        return fr(mk_atom(a));
    }
    if (compare(x, LE, Sym(0))) return compare(x, EQ, Sym(0)) ? Sym::inf(-1) : Sym::nan();
    bool f; int a = new_atom("log(" + key_of(x) + ")", &f);
    if (f) {
        log_arg[a] = x;
        // log x > 0 iff x > 1
        const Den *d; const Node *n = num_of(x, d);
        const Node *t = n_mul(n_sub(n, d->prod), d->prod);  // same sign as x - 1
        const Node *l = mk_atom(a);
        axiom_or(a, {Cond{t, LE}, Cond{l, GT}});
        axiom_or(a, {Cond{t, GE}, Cond{l, LT}});
        axiom_or(a, {Cond{t, NE}, Cond{l, EQ}});
    }
    return fr(mk_atom(a));
}
Sym exp2(const Sym &x) { return exp(x * log(Sym(2))); }
Sym expm1(const Sym &x) { return exp(x) - Sym(1); }
Sym log2(const Sym &x) { return log(x) / log(Sym(2)); }
Sym log10(const Sym &x) {
    mpq_class q;
    if (log_slack_bound > 0 && x.kind == K_FRAC && !is_const(x, q)) {   // the logarithm of a number near x
        const Den *d; const Node *n = num_of(x, d);
        if (d == den1()) {
            bool f; int a = new_atom("near(" + key_of(x) + ")", &f);
            const Node *y = mk_atom(a);
            if (f) {
                const mpq_class b(log_slack_bound);
                if (known_mask(n) == 4) atoms[a].pos = true;
                axiom(a, n_sub(y, n), GE);
                axiom(a, n_sub(y, n_mul(n, mk_const(1 + b))), LE);
            }
            return log(fr(y)) / log(Sym(10));
        }
    }
    return log(x) / log(Sym(10));
}
Sym log1p(const Sym &x) { return log(Sym(1) + x); }
Sym pow(const Sym &x, const Sym &y) {
    if (x.kind == K_NAN || y.kind == K_NAN) return Sym::nan();
    mpq_class q;
    if (is_const(y, q) && x.fin()) {
        mpq_class b;
        if (q.get_den() == 1 && abs(q) <= 400 && is_const(x, b)) {  // exact powers of constants
            long n = q.get_num().get_si();
            if (n < 0 && b == 0) return Sym::inf(1);
            mpq_class r = 1, w = b;
            for (unsigned long e = std::labs(n); e; e >>= 1) { if (e & 1) r *= w; if (e > 1) w *= w; }
            if (n < 0) r = 1 / r;
            if (log_slack_bound > 0 && b == 10) {       // the range of double (and its denormal numbers, counted as exact)
                if (n > 308) return Sym::inf(1);
                if (n < -324) return Sym(0);
            }
            return q2s(r);
        }
        if (q.get_den() == 1 && abs(q) <= 32) {
            long n = q.get_num().get_si();
            if (n == 0) return Sym(1);
            if (n < 0 && compare(x, EQ, Sym(0))) return Sym::inf(1);
            return ipow(x, n);
        }
        if (compare(x, LT, Sym(0))) return Sym::nan();
        if (compare(x, EQ, Sym(0))) return q > 0 ? Sym(0) : Sym::inf(1);
        return exp(y * log(x));
    }
    if (!x.fin() || !y.fin()) path_kill("pow of a non-finite value");
    if (is_const(x, q) && q == 1) return Sym(1);
    if (compare(x, GT, Sym(0))) return exp(y * log(x));
    if (compare(y, EQ, Sym(0))) return Sym(1);
    if (compare(x, EQ, Sym(0))) return compare(y, GT, Sym(0)) ? Sym(0) : Sym::inf(1);
    return Sym::nan();
}
Sym hypot(const Sym &x, const Sym &y) {
    if (isinf(x) || isinf(y)) return Sym::inf(1);
    return sqrt(x * x + y * y);
}
static bool lead_negative(const Sym &x) {
    const Den *d; const Node *n = num_of(x, d);
    auto P = to_poly(n);
    if (!P || P->empty()) return false;
    return P->begin()->second < 0;
}
static void sincos(const Sym &x, Sym &s, Sym &c) {
    Sym y = x; bool ng = lead_negative(x);
    if (ng) y = -x;
    std::string k = key_of(y);
    bool f; int a = new_atom("sin(" + k + ")", &f);
    bool f2; int b = new_atom("cos(" + k + ")", &f2);
    const Node *sn = mk_atom(a), *cn = mk_atom(b);
    if (f2) {
        const Node *p = n_sub(n_add(n_mul(sn, sn), n_mul(cn, cn)), mk_const(1));
        axiom(a, p, EQ); axiom(b, p, EQ);
        mpq_class q;
        if (is_const(y, q)) {
            for (int i = 0; i < 2; ++i) {
                double v = i ? std::cos(q.get_d()) : std::sin(q.get_d());
                axiom(i ? b : a, n_sub(i ? cn : sn, mk_const(mpq_class(v - 1e-12))), GE);
                axiom(i ? b : a, n_sub(i ? cn : sn, mk_const(mpq_class(v + 1e-12))), LE);
            }
        }
    }
    s = ng ? -fr(sn) : fr(sn); c = fr(cn);
}
Sym sin(const Sym &x) { if (!x.fin()) return Sym::nan(); mpq_class q; if (is_const(x, q) && q == 0) return Sym(0); Sym s, c; sincos(x, s, c); return s; }
Sym cos(const Sym &x) { if (!x.fin()) return Sym::nan(); mpq_class q; if (is_const(x, q) && q == 0) return Sym(1); Sym s, c; sincos(x, s, c); return c; }
Sym tan(const Sym &x) { if (!x.fin()) return Sym::nan(); return sin(x) / cos(x); }
static Sym opaque(const char *fn, const Sym &x, bool odd) {
    Sym y = x; bool ng = odd && lead_negative(x);
    if (ng) y = -x;
    mpq_class q;
    if (odd && is_const(y, q) && q == 0) return Sym(0);
    bool f; int a = new_atom(std::string(fn) + "(" + key_of(y) + ")", &f);
    if (f && odd) {   // odd increasing functions: same sign as the argument
        const Den *d; const Node *n = num_of(y, d);
        const Node *t = n_mul(n, d->prod), *v = mk_atom(a);
        axiom_or(a, {Cond{t, LE}, Cond{v, GT}});
        axiom_or(a, {Cond{t, GE}, Cond{v, LT}});
        axiom_or(a, {Cond{t, NE}, Cond{v, EQ}});
    }
    return ng ? -fr(mk_atom(a)) : fr(mk_atom(a));
}
Sym asin(const Sym &x) {
    if (!x.fin() || x > Sym(1) || x < Sym(-1)) return Sym::nan();
    return opaque("asin", x, true);
}
Sym acos(const Sym &x) {
    if (!x.fin() || x > Sym(1) || x < Sym(-1)) return Sym::nan();
    return pi() / Sym(2) - opaque("asin", x, true);
}
Sym atan(const Sym &x) {
    if (x.kind == K_NAN) return x;
    if (!x.fin()) return x.kind == K_PINF ? pi() / Sym(2) : -(pi() / Sym(2));
    return opaque("atan", x, true);
}
Sym atan2(const Sym &y, const Sym &x) {
    if (!x.fin() || !y.fin()) path_kill("atan2 of a non-finite value");
    mpq_class a, b;
    if (is_const(y, a) && is_const(x, b)) {
        if (a == 0) return b < 0 ? pi() : Sym(0);
        if (b == 0) return a > 0 ? pi() / Sym(2) : -(pi() / Sym(2));
        if (a == b && a > 0) return pi() / Sym(4);
    }
    bool f; int i = new_atom("atan2(" + key_of(y) + ";" + key_of(x) + ")", &f);
    return fr(mk_atom(i));
}
Sym sinh(const Sym &x) { if (!x.fin()) return x; Sym e = exp(x), i = Sym(1) / e; return (e - i) / Sym(2); }
Sym cosh(const Sym &x) { if (!x.fin()) return abs(x); Sym e = exp(x), i = Sym(1) / e; return (e + i) / Sym(2); }
Sym tanh(const Sym &x) {
    if (x.kind == K_NAN) return x;
    if (!x.fin()) return Sym(x.kind == K_PINF ? 1 : -1);
    Sym e = exp(x), i = Sym(1) / e; return (e - i) / (e + i);
}
Sym asinh(const Sym &x) { return x.fin() ? opaque("asinh", x, true) : x; }
Sym acosh(const Sym &x) {
    if (!x.fin()) return x.kind == K_PINF ? x : Sym::nan();
    if (x < Sym(1)) return Sym::nan();
    return opaque("acosh", x, false);
}
Sym atanh(const Sym &x) {
    if (!x.fin() || x > Sym(1) || x < Sym(-1)) return Sym::nan();
    if (x == Sym(1)) return Sym::inf(1);
    if (x == Sym(-1)) return Sym::inf(-1);
    return opaque("atanh", x, true);
}
Sym erf(const Sym &x) {
    if (x.kind == K_NAN) return x;
    if (!x.fin()) return Sym(x.kind == K_PINF ? 1 : -1);
    return opaque("erf", x, true);
}
Sym erfc(const Sym &x) { return Sym(1) - erf(x); }

// integer-valued functions: fresh integer atoms
enum Rnd { R_FLOOR, R_RINT };
static Sym int_atom(Rnd kind, const Sym &x) {
    mpq_class q;
    if (is_const(x, q)) {
        mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        if (kind == R_FLOOR) return q2s(fl);
        mpq_class fr2 = q - fl;
        if (fr2 < mpq_class(1, 2)) return q2s(fl);
        if (fr2 > mpq_class(1, 2)) return q2s(fl + 1);
        return q2s(fl % 2 == 0 ? fl : mpz_class(fl + 1));
    }
    const Den *d; const Node *n = num_of(x, d);
    if (d == den1()) {     // integer combination of integers
        auto P = to_poly(n);
        bool integral = (bool)P;
        if (P) for (auto &t : *P) {
            if (t.second.get_den() != 1) integral = false;
            for (auto &f : t.first) if (!atoms[f.first].is_int) integral = false;
        }
        if (integral) return x;
    }
    if (kind == R_FLOOR) {  // logarithms: search the integer by comparisons
        bool posden = true;
        for (auto f : d->f) if (known_mask(f) & 3) posden = false;
        bool anylog = false;
        for (int at : atoms_of(n)) if (log_arg.count(at)) anylog = true;
        if (posden && anylog && log_linear(n, nullptr)) {
            int k = 0;
            int lo, hi;                       // doubling, then bisection: lo <= x < hi
            if (compare(x, GE, Sym(0))) {
                for (lo = 0, hi = 1; compare(x, GE, Sym(hi)); hi *= 2) { if (hi >= 512) path_kill("floor of a logarithm out of bounds"); lo = hi; }
            } else {
                for (lo = -1, hi = 0; compare(x, LT, Sym(lo)); lo *= 2) { if (lo <= -512) path_kill("floor of a logarithm out of bounds"); hi = lo; }
            }
            while (hi - lo > 1) { const int mid = lo + (hi - lo) / 2; if (compare(x, GE, Sym(mid))) lo = mid; else hi = mid; }
            k = lo;
            return Sym(k);
        }
    }
    // quotient atom so that integer reasoning stays linear
    const Node *qn = n;
    if (d != den1()) {
        bool f; int a = new_atom("quo(" + key_of(x) + ")", &f);
        qn = mk_atom(a);
        if (f) axiom(a, n_sub(n_mul(qn, d->prod), n), EQ);
    }
    bool f; int a = new_atom((kind == R_FLOOR ? "floor(" : "rint(") + key_of(x) + ")", &f);
    const Node *k = mk_atom(a);
    if (f) {
        atoms[a].is_int = true;
        const Node *e = n_sub(qn, k);     // x - k
        if (kind == R_FLOOR) { axiom(a, e, GE); axiom(a, n_sub(e, mk_const(1)), LT); }
        else { axiom(a, n_add(e, mk_const(mpq_class(1, 2))), GE); axiom(a, n_sub(e, mk_const(mpq_class(1, 2))), LE); }
    }
    return fr(k);
}
Sym floor(const Sym &x) { return x.fin() ? int_atom(R_FLOOR, x) : x; }
Sym ceil(const Sym &x) { return x.fin() ? -int_atom(R_FLOOR, -x) : x; }
Sym trunc(const Sym &x) { if (!x.fin()) return x; return x >= Sym(0) ? floor(x) : ceil(x); }
Sym rint(const Sym &x) { return x.fin() ? int_atom(R_RINT, x) : x; }
Sym round(const Sym &x) {   // half away from zero
    if (!x.fin()) return x;
    const Sym half(0.5);
    return x >= Sym(0) ? floor(x + half) : -floor(half - x);
}
Sym fmod(const Sym &x, const Sym &y) {
    if (!x.fin() || y.kind == K_NAN) return Sym::nan();
    if (!y.fin()) return x;
    if (y == Sym(0)) return Sym::nan();
    return x - y * trunc(x / y);
}
Sym remainder(const Sym &x, const Sym &y) {
    if (!x.fin() || y.kind == K_NAN) return Sym::nan();
    if (!y.fin()) return x;
    if (y == Sym(0)) return Sym::nan();
    return x - y * rint(x / y);
}
Sym fmax(const Sym &x, const Sym &y) {
    if (x.kind == K_NAN) return y;
    if (y.kind == K_NAN) return x;
    return x >= y ? x : y;
}
Sym fmin(const Sym &x, const Sym &y) {
    if (x.kind == K_NAN) return y;
    if (y.kind == K_NAN) return x;
    return x <= y ? x : y;
}
Sym copysign(const Sym &x, const Sym &y) { return signbit(y) ? -abs(x) : abs(x); }
bool signbit(const Sym &x) { return x < Sym(0); }
bool isnormal(const Sym &x) {   // (symbolic values are taken to be of ordinary size)
    if (x.kind == K_CONST) return x.c != 0 && std::fabs(x.c) >= std::numeric_limits<double>::min();
    if (x.kind == K_FRAC && isc(x.num) && x.den == den1())
        return x.num->c != 0 && ::abs(x.num->c) >= mpq_class(std::numeric_limits<double>::min());
    if (log_slack_bound > 0) return isfinite(x) && abs(x) >= Sym(std::numeric_limits<double>::min());
    return x.fin() && x != Sym(0);
}
bool isfinite(const Sym &x) {   // (with the range of double where that is modelled)
    if (!x.fin()) return false;
    if (log_slack_bound > 0 && x.kind == K_FRAC) return abs(x) <= Sym(std::numeric_limits<double>::max());
    return true;
}
Sym uf(const char *name, const std::vector<Sym> &args) {
    std::string k = std::string("uf:") + name + "(";
    for (auto &a : args) { if (!a.fin()) path_kill("uninterpreted function of a non-finite value"); k += key_of(a) + ";"; }
    bool f; int a = new_atom(k + ")", &f);
    return fr(mk_atom(a));
}

// =============================================================================
// harness context
// =============================================================================
static Sym input(const std::string &name) {
    bool f; int a = new_atom("in:" + name, &f);
    if (f) { atoms[a].is_input = true; atoms[a].name = name; }
    return fr(mk_atom(a));
}
Sym Ctx<Sym>::in(const std::string &name) { return input(name); }
Sym Ctx<Sym>::integer(const std::string &name, int lo, int hi) {
    Sym x = input(name);
    atoms[x.num->atom].is_int = true;
    assume_rel(x, GE, Sym(lo)); assume_rel(x, LE, Sym(hi));
    return x;
}
Sym Ctx<Sym>::nonneg(const std::string &name) { Sym x = input(name); assume_rel(x, GE, Sym(0)); return x; }
Sym Ctx<Sym>::pos(const std::string &name) { Sym x = input(name); assume_rel(x, GT, Sym(0)); return x; }
Sym Ctx<Sym>::nonzero(const std::string &name) { Sym x = input(name); assume_rel(x, NE, Sym(0)); return x; }
int Ctx<Sym>::token(const std::string &name, long long lo) {
    Sym x = input(name);
    assume_rel(x, GE, Sym(lo));
    // token ids must be stable across re-executions
    static std::map<std::string, int> ids;
    auto it = ids.find(name);
    if (it == ids.end()) { it = ids.insert({name, (int)tokens.size()}).first; tokens.push_back(x); }
    return (int)(TOKEN_BASE + it->second);
}
int Ctx<Sym>::choose(int n, const char *) {
    int v;
    if (!from_prefix(v)) { std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); v = decide(o); }
    path.choices.push_back(v);
    return v;
}
void Ctx<Sym>::assume(bool b) { if (!b) throw AssumeFailed(); }
void Ctx<Sym>::assume_rel(const Sym &a, Rel r, const Sym &b) {
    if (!a.fin() || !b.fin()) throw AssumeFailed();
    Cond c = cond_of(a, r, b);
    int k = known_mask(c.p), rm = rel_mask(r);
    if ((k & rm) == 0) throw AssumeFailed();
    if ((k & rm) == k) return;
    add_pc(c.p, r);
}
void Ctx<Sym>::assume_any(const std::vector<Lit> &ls) {
    std::vector<Cond> cl;
    for (auto &l : ls) {
        Cond c = cond_of(l.a, l.r, l.b);
        if (isc(c.p)) {
            int m = c.p->c < 0 ? 1 : c.p->c == 0 ? 2 : 4;
            if (m & rel_mask(c.rel)) return;
            continue;
        }
        cl.push_back(c);
    }
    if (cl.empty()) throw AssumeFailed();
    path.pc.push_back(cl);
    if (cl.size() == 1) learn(cl[0].p, cl[0].rel);
}
Sym Ctx<Sym>::uf(const char *name, const std::vector<Sym> &args) { return ::sym::uf(name, args); }
Sym Ctx<Sym>::special(int w) { return w == 0 ? Sym::inf(1) : w == 1 ? Sym::inf(-1) : Sym::nan(); }
void Ctx<Sym>::note(const std::string &) {}

// ---- violations ----------------------------------------------------------------
static const Harness *cur_h = nullptr;
ReplayState *g_replay = nullptr;
static std::string out_dir, prop_id;
static std::vector<std::string> notes;
struct Shared { std::atomic<int> next; std::atomic<int> stop; std::atomic<long> dummy; };
static Shared *shared = nullptr;
static unsigned q_timeout = 10000;

template<class R> static void run_num(const Harness *h, int conf);
template<> void run_num<double>(const Harness *h, int conf) { cur_conf = conf; Ctx<double> c; h->run_d(c, conf); }
template<> void run_num<long double>(const Harness *h, int conf) { cur_conf = conf; Ctx<long double> c; h->run_ld(c, conf); }

struct ReplayOut { bool voided = false, crashed = false; std::string exc; std::vector<ReplayState::Rec> recs; };
template<class R> static ReplayOut replay_child(const Harness *h, int conf, const Model &m, bool relative) {
    ReplayOut out;
    int fd[2]; if (pipe(fd)) return out;
    std::cout.flush(); std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGALRM, SIG_DFL);
        int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
        alarm(20);
        struct rlimit rl = {4ul << 30, 4ul << 30}; (void)rl;
        ReplayState rs; rs.model = m; rs.relative = relative; g_replay = &rs;
        std::string exc, voided;
        try { run_num<R>(h, conf); }
        catch (const ReplayVoid &) { voided = "1"; }
        catch (const std::exception &e) { exc = std::string("exception: ") + e.what(); }
        catch (...) { exc = "exception"; }
        std::ostringstream os; os.precision(21);
        os << "V" << voided << "\n" << "E" << exc << "\n";
        for (auto &r : rs.recs) os << (r.ok ? "+" : "-") << (r.numeric ? "n" : "b") << " " << r.a << " " << r.b << " " << r.disc << " " << r.label << "\n";
        os << "END\n";
        std::string s = os.str();
        size_t off = 0; while (off < s.size()) { ssize_t k = write(fd[1], s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string s; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k);
    close(fd[0]);
    int status; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
    std::istringstream is(s); std::string line; bool end = false;
    while (std::getline(is, line)) {
        if (line == "END") end = true;
        else if (line[0] == 'V') out.voided = line.size() > 1;
        else if (line[0] == 'E') out.exc = line.substr(1);
        else if (line[0] == '+' || line[0] == '-') {
            ReplayState::Rec r; r.ok = line[0] == '+'; r.numeric = line[1] == 'n';
            char *p = const_cast<char *>(line.c_str()) + 2;
            r.a = strtold(p, &p); r.b = strtold(p, &p); r.disc = strtold(p, &p);
            if (*p == ' ') ++p;
            r.label = p; out.recs.push_back(r);
        }
    }
    if (!end) out.crashed = true;
    return out;
}
// replay on double and long double; a violation must show in both, with the same size
static bool reproduces(const Harness *h, int conf, const Model &m, std::string &detail, bool relative = false, const std::string *only = nullptr) {
    ReplayOut a = replay_child<double>(h, conf, m, relative), b = replay_child<long double>(h, conf, m, relative);
    // an assumption that fails only after a failed assertion (an input the path never asked for) does not excuse it
    const bool cut = a.voided || b.voided;
    if (a.crashed && b.crashed) { detail = "the program crashes or does not terminate"; return true; }
    if (!a.exc.empty() && !b.exc.empty()) { detail = "unexpected " + a.exc; return true; }
    if (a.crashed || b.crashed || !a.exc.empty() || !b.exc.empty()) return false;
    if (!cut && a.recs.size() != b.recs.size()) return false;
    for (size_t i = 0; i < std::min(a.recs.size(), b.recs.size()); ++i) {
        auto &x = a.recs[i]; auto &y = b.recs[i];
        if (x.ok || y.ok || x.label != y.label || (only && x.label != *only)) continue;
        if (x.numeric) {
            bool fin = std::isfinite(x.disc) && std::isfinite(y.disc);
            if (fin && std::fabs(x.disc - y.disc) > 0.1L * std::fabs(y.disc)) continue;   // rounding noise
            if (!fin && std::isfinite(x.disc) != std::isfinite(y.disc)) continue;
        }
        std::ostringstream os; os.precision(17);
        os << x.label;
        if (x.numeric) os << ": got " << (double)x.a << ", expected " << (double)x.b;
        detail = os.str();
        return true;
    }
    return false;
}
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
// known findings: "<harness> <conf or *> <text contained in the detail of the violation>"
static std::vector<std::array<std::string, 3>> known_list;
static bool is_known(const std::string &, const std::string &detail) {
    for (auto &k : known_list)
        if (k[0] == cur_h->name && (k[1] == "*" || k[1] == std::to_string(cur_conf)) && detail.find(k[2]) != std::string::npos) return true;
    return false;
}
static void write_violation(const Model &m, const std::string &label, const std::string &detail, bool known = false, bool relative = false) {
    static int seq = 0;
    std::string f = out_dir + (known ? "/known_" : "/viol_") + cur_h->name + "_" + std::to_string(getpid()) + "_" + std::to_string(seq++) + ".txt";
    std::ofstream o(f); o.precision(17);
    o << "property " << prop_id << "\nharness " << cur_h->name << "\nconf " << cur_conf << "\nlabel " << label << "\ndetail " << detail << "\nrelative " << relative << "\nchoices";
    for (int c : m.choices) o << " " << c;
    o << "\n";
    for (auto &v : m.val) o << "in " << v.first << " " << v.second << "\n";
}
static Model to_model(const std::map<int, double> &z) {
    Model m; m.choices = path.choices;
    for (auto &kv : z) m.val[atoms[kv.first].name] = kv.second;
    return m;
}
static bool sane(const Model &m, double lo = 1e-4, double hi = 1e4) {
    for (auto &v : m.val) { double a = std::fabs(v.second); if (!(a == 0 || (a > lo && a < hi))) return false; }
    return true;
}
static uint64_t rng_state = 88172645463325252ull;
static uint64_t rng() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state; }

// constraints that make replay numerically meaningful
static std::vector<std::vector<Cond>> nice_bounds(const std::vector<std::vector<Cond>> &goal, double lim) {
    std::set<int> s;
    for (auto &g : goal) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    for (auto &g : path.pc) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    std::vector<std::vector<Cond>> e;
    for (int a : s) if (atoms[a].is_input) {
        const Node *n = mk_atom(a);
        e.push_back({Cond{n_sub(n, mk_const(mpq_class(lim))), LE}});
        e.push_back({Cond{n_add(n, mk_const(mpq_class(lim))), GE}});
        mpq_class sm(1, 16);
        e.push_back({Cond{n, EQ}, Cond{n_sub(n, mk_const(sm)), GE}, Cond{n_add(n, mk_const(sm)), LE}});
    }
    return e;
}
static std::vector<std::vector<Cond>> random_pins(const std::vector<std::vector<Cond>> &goal, int percent) {
    std::set<int> s;
    for (auto &g : goal) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    for (auto &g : path.pc) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    std::vector<std::vector<Cond>> e;
    for (int a : std::set<int>(s)) for (auto &cl : atoms[a].ax) { auto x = atoms_of(cl); s.insert(x.begin(), x.end()); }
    static const int nums[] = {1, 2, 3, -1, -2, -3, 1, 5, -5, 7};
    for (int a : s) if (atoms[a].is_input && (int)(rng() % 100) < percent) {
        mpq_class q(nums[rng() % 10], (long)(1 + rng() % 4)); q.canonicalize();
        const Node *n = mk_atom(a);
        if (known_mask(n) == 4 || known_mask(n) == 6) q = ::abs(q);
        if (known_mask(n) == 1) q = -::abs(q);
        e.push_back({Cond{n_sub(n, mk_const(q)), EQ}});
    }
    return e;
}
static bool algebraic(const std::vector<std::vector<Cond>> &goal) {
    std::set<int> s;
    for (auto &g : goal) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    for (auto &g : path.pc) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
    for (int a : s) if (!atoms[a].is_input && !atoms[a].sqrt_num) return false;
    return true;
}
static void record_note(const std::string &s) { if (notes.size() < 40) notes.push_back(s); }

// the negation of an assertion is (possibly) satisfiable: find a model that reproduces
static bool hunt(const std::string &label, const std::vector<std::vector<Cond>> &goal, bool proved_sat, const Model *first,
                 const std::vector<std::vector<Cond>> &margin_goal) {
    st.candidates++;
    std::string detail;
    auto attempt = [&](const Model &m, bool relaxed = false) {
        if (any_scale_mode) relaxed = true;
        else if (relaxed ? !sane(m, 1e-30, 1e30) : !sane(m)) return false;
        if (reproduces(cur_h, cur_conf, m, detail, relaxed, relaxed ? &label : nullptr)) {
            st.confirmed++;
            bool known = is_known(label, detail);
            write_violation(m, label, detail, known, relaxed);
            if (shared && !known) shared->stop = 1;
            return true;
        }
        return false;
    };
    if (first && attempt(*first)) return true;
    double t_end = now() + 30;
    if (any_scale_mode) {      // one quantity at a time at a given scale, the solver chooses the others
        static const double scales[] = {1e-9, 1e-6, 1e-12, 1e-3, 1e-17, 1e160, 1e-170, 1e200, 1e-200, 1e300, 1e-300, 1e100, 1e-100, 1e12, 1e6, 1, 30, 1e3, 0};
        std::set<int> s;
        for (auto &g : goal) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
        for (auto &g : path.pc) { auto x = atoms_of(g); s.insert(x.begin(), x.end()); }
        for (int a : std::set<int>(s)) for (auto &cl : atoms[a].ax) { auto x = atoms_of(cl); s.insert(x.begin(), x.end()); }
        for (double v : scales) for (int sign : {1, -1})
            for (int a : s) if (atoms[a].is_input && atoms[a].name.compare(0, 8, "rounding") && now() < t_end + 30) {
                const Node *n = mk_atom(a);
                if ((known_mask(n) & (v == 0 ? 2 : sign > 0 ? 4 : 1)) == 0 || (v == 0 && sign < 0)) continue;
                mpq_class q(v * 1.37 * sign);
                auto r = query(goal, false, 1000, true, {{Cond{n_sub(n, mk_const(q)), EQ}}});
                if (r.res == 1 && attempt(to_model(r.model))) return true;
            }
        return false;
    }
    auto &mg = margin_goal.empty() ? goal : margin_goal;
    for (double lim : {4.0, 64.0}) {
        auto r = query(mg, false, 4000, true, nice_bounds(mg, lim));
        if (r.res == 1 && attempt(to_model(r.model))) return true;
    }
    for (int i = 0; i < 24 && now() < t_end; ++i) {
        auto r = query(i % 2 ? goal : mg, false, 1500, true, random_pins(goal, i < 8 ? 100 : i < 16 ? 70 : 40));
        if (r.res == 1 && attempt(to_model(r.model))) return true;
    }
    // violated in exact arithmetic, with nothing but algebra involved: accept values of any scale
    if (proved_sat && algebraic(goal)) {
        if (first && attempt(*first, true)) return true;
        for (int i = 0; i < 12 && now() < t_end + 10; ++i) {
            auto r = query(i == 0 ? mg : goal, false, 1500, true, i == 0 ? std::vector<std::vector<Cond>>() : random_pins(goal, 80 - 6 * i));
            if (r.res == 1 && attempt(to_model(r.model), true)) return true;
        }
    }
    return false;
}

static void fail_now(const std::string &label) {   // violated on every input of this path
    st.asserts++; path.asserts++;
    auto r = query({}, false, q_timeout, true);
    if (r.res < 0) { st.unsat++; return; }
    if (r.res == 0) { st.unknown++; } else st.sat++;
    Model m = to_model(r.model);
    if (!hunt(label, {}, r.res > 0, r.res > 0 ? &m : nullptr, {})) {
        st.unreproduced++; record_note(std::string(cur_h->name) + ": not reproduced: " + label);
    }
}
static void check_cond(const std::string &label, const Cond &c) {   // assert c
    st.asserts++; path.asserts++;
    int k = known_mask(c.p), rm = rel_mask(c.rel);
    if (isc(c.p)) { if (k & rm) st.trivial++; else { st.asserts--; path.asserts--; fail_now(label); } return; }
    if ((k & rm) == k) { st.trivial++; return; }
    if (c.rel == EQ && rewriter_zero(c.p)) { st.rewriter++; return; }
    std::vector<std::vector<Cond>> goal{{Cond{c.p, negate(c.rel)}}};
    auto r = query(goal, true, q_timeout, true);
    if (r.res < 0) { st.unsat++; return; }
    // (sat: model is for the slice; get a model of the whole path)
    std::vector<std::vector<Cond>> mg;
    const mpq_class e(1, 8);
    if (c.rel == EQ) mg = {{Cond{n_sub(c.p, mk_const(e)), GE}, Cond{n_add(c.p, mk_const(e)), LE}}};
    else if (c.rel == GE || c.rel == GT) mg = {{Cond{n_add(c.p, mk_const(e)), LE}}};
    else if (c.rel == LE || c.rel == LT) mg = {{Cond{n_sub(c.p, mk_const(e)), GE}}};
    auto r2 = query(goal, false, q_timeout, true);
    if (r2.res < 0) { st.unsat++; return; }
    if (r2.res > 0) st.sat++; else st.unknown++;
    Model m = to_model(r2.model);
    if (!hunt(label, goal, r2.res > 0, r2.res > 0 ? &m : nullptr, mg)) {
        if (r2.res > 0) st.unreproduced++;
        record_note(std::string(cur_h->name) + "/" + std::to_string(cur_conf) + (r2.res > 0 ? ": not reproduced: " : ": undecided: ") + label);
    }
}
void Ctx<Sym>::eq(const std::string &label, const Sym &a, const Sym &b) {
    if (shared && shared->stop) path_kill("stopped");
    if (!a.fin() || !b.fin()) {
        if (a.kind == b.kind) { st.asserts++; path.asserts++; st.trivial++; return; }
        fail_now(label + " (non-finite)"); return;
    }
    check_cond(label, cond_of(a, EQ, b));
}
void Ctx<Sym>::rel(const std::string &label, const Sym &a, Rel r, const Sym &b) {
    if (shared && shared->stop) path_kill("stopped");
    if (!a.fin() || !b.fin()) {
        if (a.kind != K_NAN && b.kind != K_NAN && compare(a, r, b)) { st.asserts++; path.asserts++; st.trivial++; return; }
        fail_now(label + " (non-finite)"); return;
    }
    check_cond(label, cond_of(a, r, b));
}
void Ctx<Sym>::truth(const std::string &label, bool ok) {
    if (shared && shared->stop) path_kill("stopped");
    if (ok) { st.asserts++; path.asserts++; st.trivial++; return; }
    fail_now(label);
}

// =============================================================================
// functions actually executed symbolically (instrumentation)
// =============================================================================
static std::unordered_set<void *> fn_seen;
static bool fn_on = false;
extern "C" {
NOINST void __cyg_profile_func_enter(void *f, void *) { if (fn_on) fn_seen.insert(f); }
NOINST void __cyg_profile_func_exit(void *, void *) {}
}
NOINST bool record_functions(bool on) { bool was = fn_on; fn_on = on; return was; }

// =============================================================================
// driver
// =============================================================================
std::vector<Harness> &registry() { static std::vector<Harness> r; return r; }
Register::Register(const Harness &h) {
    for (auto &o : registry()) if (!std::strcmp(o.name, h.name)) {     // the other half of a harness compiled in two parts
        if (h.run_sym) o.run_sym = h.run_sym;
        if (h.run_d) { o.run_d = h.run_d; o.run_ld = h.run_ld; }
        return;
    }
    registry().push_back(h);
}
static bool g_thorough = false;
bool thorough() { return g_thorough; }

static void crash_handler(int sig) {
    // the code under test crashed during symbolic execution: replay on a model of the path
    static bool once = false;
    if (once) _exit(77);
    once = true;
    signal(sig, SIG_DFL);
    fn_on = false;
    alarm(60);
    signal(SIGALRM, SIG_DFL);
    if (cur_h && in_path) {
        auto r = query({}, false, 5000, true, nice_bounds({}, 8));
        if (r.res <= 0) r = query({}, false, 10000, true);
        Model m = to_model(r.model);
        std::string detail;
        if (r.res >= 0 && reproduces(cur_h, cur_conf, m, detail)) {
            write_violation(m, "crash or non-termination", detail);
            if (shared) shared->stop = 1;
            _exit(78);
        }
        if (r.res < 0 && sig == SIGSEGV) {      // a path that turns out not to exist
            once = false; st.infeasible++; st.killed--; kill_why = "stopped";
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sa.sa_flags = SA_NODEFER;
            sigaction(SIGSEGV, &sa, nullptr); sa.sa_flags = 0; sigaction(SIGALRM, &sa, nullptr);
            longjmp(path_jmp, 1);
        }
    }
    _exit(77);
}
// an assertion of the code under test fails
static void assertion_failed(const char *what) {
    fn_on = false;
    auto r = query({}, false, 5000, true, nice_bounds({}, 8));
    if (r.res <= 0) r = query({}, false, 2 * q_timeout, true);
    if (r.res < 0) { st.infeasible++; st.killed--; kill_why = "stopped"; longjmp(path_jmp, 1); }
    Model m = to_model(r.model);
    std::string detail;
    if (reproduces(cur_h, cur_conf, m, detail)) {
        st.confirmed++;
        write_violation(m, std::string("assertion ") + what, detail);
        if (shared) shared->stop = 1;
        path_kill("stopped");
    }
    if (r.res > 0) st.unreproduced++; else st.unknown++;
    path_kill((std::string(r.res > 0 ? "not reproduced: assertion " : "undecided: assertion ") + what).c_str());
}

static std::vector<Decision> &trail() { static std::vector<Decision> v; return v; }
static void explore(const Harness *h, int conf) {
    cur_h = h; cur_conf = conf;
    path.prefix.clear();
    Ctx<Sym> ctx;
    long local = 0; int reach_checked = 0;
    while (true) {
        if (shared && shared->stop) return;
        if (now() > deadline) { record_note(std::string(h->name) + "/" + std::to_string(conf) + ": time budget reached, exploration incomplete"); st.killed++; return; }
        if (trace) std::fprintf(stderr, "---- path %ld\n", st.paths);
        path.reset();
        digit_tokens.clear(); digit_mode = any_scale_mode = false; log_slack_bound = 0;
        bool completed = false;
        alarm(120);
        if (setjmp(path_jmp) == 0) {
            in_path = true; fn_on = true;
            try {
                h->run_sym(ctx, conf);
                completed = true;
            } catch (const AssumeFailed &) { st.assume_pruned++; }
            catch (const PathDead &e) { fn_on = false; st.killed++; record_note(std::string(h->name) + "/" + std::to_string(conf) + ": path given up: " + e.why); }
            catch (const std::exception &e) { fn_on = false; fail_now(std::string("unexpected exception: ") + e.what()); completed = true; }
        } else {
            fn_on = false;
            if (kill_why != "stopped" && now() < deadline && query({}, false, 4000, false).res < 0) { st.infeasible++; kill_why = "stopped"; }
            else st.killed++;
            if (kill_why != "stopped") record_note(std::string(h->name) + "/" + std::to_string(conf) + ": path given up: " + kill_why);
        }
        fn_on = false;
        alarm(0);
        st.paths++; local++;
        if (completed && path.asserts > 0 && (reach_checked < 2 || (local % 37) == 0)) {
            auto r = query({}, false, 3000, false);
            ++reach_checked;
            if (r.res > 0) st.reach_sat++; else if (r.res == 0) st.reach_unknown++;
        }
        in_path = false;
        // next path: the trail holds the untried alternatives of the prefix decisions
        auto &tr = trail();
        std::vector<Decision> full;
        for (size_t i = 0; i < path.dec.size() || i < path.prefix.size(); ++i) {
            if (i < path.prefix.size() && i < tr.size()) full.push_back(tr[i]);
            else if (i < path.dec.size()) full.push_back(path.dec[i]);
        }
        while (!full.empty() && full.back().rest.empty()) full.pop_back();
        if (full.empty()) { tr.clear(); return; }
        full.back().val = full.back().rest.front();
        full.back().rest.erase(full.back().rest.begin());
        tr = full;
        path.prefix.clear();
        for (auto &x : full) path.prefix.push_back(x.val);
    }
}

static std::string demangle(void *f) {
    Dl_info i; if (!dladdr(f, &i) || !i.dli_sname) return "";
    int s; char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &s);
    std::string r = s == 0 ? d : i.dli_sname; std::free(d);
    return r;
}

static int replay_file(const std::string &f) {
    std::ifstream in(f); std::string line, hname; int conf = 0, rel = 0; Model m;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "harness") is >> hname;
        else if (k == "conf") is >> conf;
        else if (k == "relative") is >> rel;
        else if (k == "choices") { int c; while (is >> c) m.choices.push_back(c); }
        else if (k == "in") { std::string n; double v; is >> n >> v; m.val[n] = v; }
    }
    for (auto &h : registry()) if (hname == h.name) {
        std::string d;
        bool r = reproduces(&h, conf, m, d, rel);
        std::printf(r ? "REPRODUCED %s\n" : "not reproduced\n", d.c_str());
        return r ? 1 : 0;
    }
    std::printf("no such harness\n");
    return 2;
}

} // namespace sym

extern "C" void __assert_fail(const char *what, const char *file, unsigned line, const char *fn) noexcept(true) {
    if (sym::in_path && !sym::g_replay) sym::assertion_failed(what);
    std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, what);
    std::abort();
}

int main(int argc, char **argv) {
    using namespace sym;
    main_thread = pthread_self();
    int jobs = 8; double budget = 240; std::string only; std::string rep; bool list = false; int only_conf = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out_dir = nx();
        else if (a == "--prop") prop_id = nx();
        else if (a == "--jobs") jobs = std::stoi(nx());
        else if (a == "--budget") budget = std::stod(nx());
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--only") only = nx();
        else if (a == "--conf") only_conf = std::stoi(nx());
        else if (a == "--replay") rep = nx();
        else if (a == "--smt") smt_dir = nx();
        else if (a == "--seed") rng_state ^= std::stoull(nx()) * 0x9E3779B97F4A7C15ull;
        else if (a == "--list") list = true;
        else if (a == "--known") {
            std::ifstream kf(nx()); std::string line;
            while (std::getline(kf, line)) {
                std::istringstream is(line); std::array<std::string, 3> k; is >> k[0] >> k[1]; std::getline(is >> std::ws, k[2]);
                known_list.push_back(k);
            }
        }
    }
    if (list) { for (auto &h : registry()) std::printf("%s\t%s\n", h.name, h.bounds); return 0; }
    if (!rep.empty()) return replay_file(rep);
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared->next = 0; shared->stop = 0;
    struct Job { const Harness *h; int conf; };
    std::vector<Job> js;
    for (auto &h : registry()) if (only.empty() || only == h.name)
        for (int c = 0; c < (g_thorough ? h.nconf_thorough : h.nconf_quick); ++c) if (only_conf < 0 || only_conf == c) js.push_back({&h, c});
    deadline = now() + budget;
    if (g_thorough) { q_timeout = 30000; feas_timeout = 4000; }
    std::vector<pid_t> kids;
    for (int w = 0; w < jobs; ++w) {
        pid_t p = fork();
        if (p == 0) {
            static char altst[1 << 18];
            stack_t ss; ss.ss_sp = altst; ss.ss_size = sizeof altst; ss.ss_flags = 0; (void)ss;
            for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sigaction(s, &sa, nullptr); }
            struct HS { Stats s; };
            std::map<std::string, Stats> per;
            std::map<std::string, std::set<std::string>> fns;
            int k;
            while ((k = shared->next++) < (int)js.size()) {
                st = Stats(); fn_seen.clear();
                trail().clear();
                explore(js[k].h, js[k].conf);
                Stats &t = per[js[k].h->name];
                long *x = (long *)&t, *y = (long *)&st;
                for (size_t i = 0; i < offsetof(Stats, solver_s) / sizeof(long); ++i) x[i] += y[i];
                t.solver_s += st.solver_s;
                for (void *f : fn_seen) { std::string n = demangle(f); if (n.find("uncertainties::") != std::string::npos) fns[js[k].h->name].insert(n); }
            }
            std::ofstream o(out_dir + "/worker_" + std::to_string(w) + ".json");
            o << "{\"harness\":{";
            bool first = true;
            for (auto &p2 : per) {
                Stats &t = p2.second;
                o << (first ? "" : ",") << json_str(p2.first) << ":{"; first = false;
                o << "\"paths\":" << t.paths << ",\"killed\":" << t.killed << ",\"pruned\":" << t.assume_pruned << ",\"asserts\":" << t.asserts
                  << ",\"trivial\":" << t.trivial << ",\"rewriter\":" << t.rewriter << ",\"unsat\":" << t.unsat << ",\"sat\":" << t.sat
                  << ",\"unknown\":" << t.unknown << ",\"feas\":" << t.feas << ",\"feas_unknown\":" << t.feas_unknown << ",\"infeasible\":" << t.infeasible
                  << ",\"reach_sat\":" << t.reach_sat << ",\"reach_unknown\":" << t.reach_unknown << ",\"candidates\":" << t.candidates
                  << ",\"confirmed\":" << t.confirmed << ",\"unreproduced\":" << t.unreproduced << ",\"solver_s\":" << t.solver_s << ",\"fns\":[";
                bool f2 = true;
                for (auto &n : fns[p2.first]) { o << (f2 ? "" : ",") << json_str(n); f2 = false; }
                o << "]}";
            }
            o << "},\"notes\":[";
            for (size_t i = 0; i < notes.size(); ++i) o << (i ? "," : "") << json_str(notes[i]);
            o << "]}\n";
            o.close();
            _exit(0);
        }
        kids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : kids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) { std::fprintf(stderr, "worker ended with status %d\n", s); bad++; } }
    return bad ? 4 : 0;
}
