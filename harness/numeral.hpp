// numeral.hpp -- reading decimal text whose digits may be symbolic
#ifndef VERIF_NUMERAL_HPP
#define VERIF_NUMERAL_HPP
using sym::EQ; using sym::NE; using sym::LT; using sym::LE; using sym::GT; using sym::GE;
inline std::string to_s(int i) { return std::to_string(i); }
inline std::string to_s(const char *s) { return s; }
inline const std::string &to_s(const std::string &s) { return s; }
template<class... T> std::string S(const T &...a) { std::string r; (void)std::initializer_list<int>{(r += to_s(a), 0)...}; return r; }

template<class R> R digit(unsigned char ch) {
    if constexpr (std::is_same<R, sym::Sym>::value) return sym::digit_of(ch); else return R(ch - '0');
}
template<class R> bool isdig(unsigned char ch) {
    if constexpr (std::is_same<R, sym::Sym>::value) return sym::is_digit(ch); else return ch >= '0' && ch <= '9';
}
template<class R> R ten(int k) {       // exact for symbolic numbers
    R r(1); for (int i = 0; i < std::abs(k); ++i) r = r * R(10);
    return k < 0 ? R(1) / r : r;
}
// a decimal numeral: [-]digits[.digits]
template<class R> struct Numeral {
    bool ok = false, neg = false, dot = false; int decimals = 0; R coef = R(0);  // value = coef / 10^decimals
    R first = R(0); int nsig = 0;                 // first digit that is not a literal zero, digits from there
    int lead = 0;                                 // digits before the dot
    explicit Numeral(std::string s) {
        size_t i = 0;
        if (i < s.size() && s[i] == '-') { neg = true; ++i; }
        int nd = 0;
        for (; i < s.size(); ++i) {
            if (s[i] == '.') { if (dot || nd == 0) return; dot = true; continue; }
            if (!isdig<R>(s[i])) return;
            ++nd; if (dot) ++decimals; else ++lead;
            const R d = digit<R>(s[i]);
            coef = coef * R(10) + d;
            if (nsig == 0 && s[i] != '0') first = d;
            if (nsig > 0 || s[i] != '0') ++nsig;
        }
        ok = nd > 0 && !(dot && decimals == 0);
    }
    R value() const { const R v = coef * ten<R>(-decimals); return neg ? -v : v; }
    R units() const { return neg ? -coef : coef; }    // in units of the last place
};
#endif
