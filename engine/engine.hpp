// engine.hpp -- path exploration, solver interface and harness API.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP

#include "sym.hpp"
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <sstream>

namespace sym {

// ---- relations on terms -----------------------------------------------------
enum Rel { EQ, NE, LT, LE, GT, GE };    // term REL 0

struct Cond { const Node *p; Rel rel; };

struct AssumeFailed {};                  // path leaves the assumed input space
struct PathDead { std::string why; };    // path given up (inconclusive)

// ---- model of the inputs, used to replay on concrete numbers ------------------
struct Model {
    std::map<std::string, double> val;     // named inputs
    std::vector<int> choices;              // structural choices, in order
};

// ---- harness context: symbolic ------------------------------------------------
template<class R> class Ctx;

template<> class Ctx<Sym> {
public:
    using Other = Sym2;
    static constexpr bool symbolic = true;
    Sym in(const std::string &name);             // any real
    Sym integer(const std::string &name, int lo, int hi);   // any integer in the range
    Sym nonneg(const std::string &name);         // >= 0
    Sym pos(const std::string &name);            // > 0
    Sym nonzero(const std::string &name);        // != 0
    int token(const std::string &name, long long lo); // int argument that converts to a real >= lo
    int choose(int n, const char *what = "");    // structural choice, enumerated
    void assume(bool b);                         // forking assumption
    void assume_rel(const Sym &a, Rel r, const Sym &b);  // non-forking assumption a REL b
    struct Lit { Sym a; Rel r; Sym b; };
    void assume_any(const std::vector<Lit> &ls);         // disjunction, non-forking
    Sym uf(const char *name, const std::vector<Sym> &args);
    Sym special(int which);                      // 0: +inf 1: -inf 2: nan
    // assertions
    void eq(const std::string &label, const Sym &code, const Sym &spec);
    void rel(const std::string &label, const Sym &a, Rel r, const Sym &b);
    void truth(const std::string &label, bool ok);
    void note(const std::string &s);
};

// ---- harness context: concrete replay -----------------------------------------
struct ReplayState {
    Model model;
    size_t next_choice = 0;
    bool relative = false;                 // tolerance relative to the values only
    struct Rec { std::string label; long double a, b, disc; bool ok; bool numeric; };
    std::vector<Rec> recs;
};
extern ReplayState *g_replay;

struct ReplayVoid {};

template<class R> struct OtherNum { using type = long double; };
template<> struct OtherNum<long double> { using type = double; };

template<class R> class Ctx {
public:
    using Other = typename OtherNum<R>::type;
    static constexpr bool symbolic = false;
    R in(const std::string &name) {
        auto it = g_replay->model.val.find(name);
        return it == g_replay->model.val.end() ? R(0) : R(it->second);
    }
    R integer(const std::string &n, int lo, int hi) {
        R x = R(std::lround(double(in(n)))); if (x < lo || x > hi) throw ReplayVoid(); return x;
    }
    R nonneg(const std::string &n) { R x = in(n); if (!(x >= 0)) throw ReplayVoid(); return x; }
    R pos(const std::string &n) { R x = in(n); if (!(x > 0)) throw ReplayVoid(); return x; }
    R nonzero(const std::string &n) { R x = in(n); if (x == 0) throw ReplayVoid(); return x; }
    int token(const std::string &n, long long lo) {
        double v = double(in(n));
        int k = int(std::lround(v));
        if (k < lo) throw ReplayVoid();
        return k;
    }
    int choose(int n, const char * = "") {
        (void)n;
        if (g_replay->next_choice < g_replay->model.choices.size())
            return g_replay->model.choices[g_replay->next_choice++];
        return 0;
    }
    void assume(bool b) { if (!b) throw ReplayVoid(); }
    void assume_rel(const R &a, Rel r, const R &b) { if (!holds(a, r, b, 0)) throw ReplayVoid(); }
    R uf(const char *name, const std::vector<R> &args) {
        // a fixed generic smooth function per name (any interpretation is allowed)
        unsigned h = 0;
        for (const char *p = name; *p; ++p) h = h * 131 + (unsigned char)*p;
        long double ph = (long double)(h % 97) / 13.0L, s = ph, q = 1;
        for (size_t i = 0; i < args.size(); ++i) {
            long double a = (long double)args[i];
            s += (0.37L + 0.21L * i + (h % 7) * 0.05L) * a;
            q += (0.11L + 0.07L * i) * a * a;
        }
        return R(std::sin(s) + 0.3L * q + 0.1L * (args.empty() ? 0.0L : (long double)args[0]) * (long double)args.back());
    }
    R special(int w) {
        return w == 0 ? std::numeric_limits<R>::infinity() : w == 1 ? -std::numeric_limits<R>::infinity()
             : std::numeric_limits<R>::quiet_NaN();
    }
    static bool holds(const R &a, Rel r, const R &b, long double tol) {
        long double d = (long double)a - (long double)b;
        switch (r) {
        case EQ: return std::fabs(d) <= tol;
        case NE: return d != 0;
        case LT: return d < tol || (tol == 0 && d < 0);
        case LE: return d <= tol;
        case GT: return d > -tol || (tol == 0 && d > 0);
        default: return d >= -tol;
        }
    }
    static long double tol(const R &a, const R &b) {
        return 1e-6L * ((g_replay->relative ? 0 : 1) + std::fabs((long double)a) + std::fabs((long double)b));
    }
    void eq(const std::string &label, const R &a, const R &b) {
        ReplayState::Rec r; r.label = label; r.a = a; r.b = b; r.numeric = true;
        r.disc = (long double)a - (long double)b;
        r.ok = std::fabs(r.disc) <= tol(a, b) || (std::isinf((long double)a) && a == b)
               || (std::isnan((long double)a) && std::isnan((long double)b));
        g_replay->recs.push_back(r);
    }
    void rel(const std::string &label, const R &a, Rel rl, const R &b) {
        ReplayState::Rec r; r.label = label; r.a = a; r.b = b; r.numeric = true;
        r.disc = (long double)a - (long double)b;
        r.ok = holds(a, rl, b, tol(a, b));
        g_replay->recs.push_back(r);
    }
    void truth(const std::string &label, bool ok) {
        ReplayState::Rec r; r.label = label; r.a = ok; r.b = 1; r.disc = 0; r.ok = ok; r.numeric = false;
        g_replay->recs.push_back(r);
    }
    void note(const std::string &) {}
};

// does f() throw exactly an exception derived from E?  (other exceptions escape)
template<class E, class F> bool throws(F f) {
    try { f(); } catch (const E &) { return true; }
    return false;
}

// ---- harness registration -----------------------------------------------------
struct Harness {
    const char *name;
    const char *bounds;                  // what is symbolic, and within what bounds
    int nconf_quick, nconf_thorough;     // configurations (distributed over workers)
    void (*run_sym)(Ctx<Sym> &, int conf);
    void (*run_d)(Ctx<double> &, int conf);
    void (*run_ld)(Ctx<long double> &, int conf);
};
std::vector<Harness> &registry();
struct Register { Register(const Harness &h); };

// text with symbolic digits (see DIGIT_BASE in sym.cpp)
void digits_mode(bool on);
void any_scale(bool on);
void log_slack(double bound);
int conf_now();                           // configuration of the running harness
Sym digit_of(unsigned char ch);
bool is_digit(unsigned char ch);
std::string digit_string(long long v);
char digit_char(const Sym &x);         // a placeholder character standing for x

// VERIF_PART_SYM / VERIF_PART_REAL: the harness is compiled twice, and the two parts are joined by name
#if defined VERIF_PART_SYM
#define HARNESS_RUN(NAME) &NAME<sym::Sym>, nullptr, nullptr
#elif defined VERIF_PART_REAL
#define HARNESS_RUN(NAME) nullptr, &NAME<double>, &NAME<long double>
#else
#define HARNESS_RUN(NAME) &NAME<sym::Sym>, &NAME<double>, &NAME<long double>
#endif
#define HARNESS(NAME, NQ, NT, BOUNDS)                                               \
    template<class R> void NAME(sym::Ctx<R> &c, int conf);                          \
    static sym::Register reg_##NAME({#NAME, BOUNDS, NQ, NT,                         \
        HARNESS_RUN(NAME)});                                                        \
    template<class R> void NAME(sym::Ctx<R> &c, int conf)

bool thorough();
bool record_functions(bool on);        // whether executed functions are noted for the evidence

} // namespace sym

#endif
