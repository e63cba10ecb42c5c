// text.hpp -- formatting harnesses.  Compiled twice: with symbolic digits (VERIF_PART_SYM) and for the replay
// (VERIF_PART_REAL).  In the symbolic part the single precision number of digits is a symbolic real as well.
#ifndef VERIF_TEXT_HPP
#define VERIF_TEXT_HPP
#include <bits/stdc++.h>
#include <Eigen/Dense>
#include "../engine/engine.hpp"
#ifdef VERIF_PART_SYM
namespace std { inline string verif_to_string(int v) { return sym::digit_string(v); }
                inline string verif_to_string(long v) { return sym::digit_string(v); }
                inline string verif_to_string(long long v) { return sym::digit_string(v); }
                inline string verif_to_string(unsigned v) { return sym::digit_string(v); }
                inline string verif_to_string(unsigned long v) { return sym::digit_string((long long)v); } }
#define float sym::Sym
#define to_string verif_to_string
#else
#define uncertainties uncertainties_real
#endif
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#undef to_string
namespace unc = uncertainties;
#include "numeral.hpp"
// mean SEP deviation, or (mean SEP deviation)e[sign]digits
template<class R> struct Text {
    bool ok = false; bool par = false; int exp = 0; std::string a, b;
    Text(std::string s, const std::string &sep) {
        if (!s.empty() && s[0] == '(') {
            par = true;
            size_t e = s.rfind(")e");
            if (e == std::string::npos) return;
            std::string x = s.substr(e + 2);
            s = s.substr(1, e - 1);
            if (!parse_exp(x, exp)) return;
        }
        size_t p = s.find(sep);
        if (p == std::string::npos || s.find(sep, p + sep.size()) != std::string::npos) return;
        a = s.substr(0, p); b = s.substr(p + sep.size());
        ok = true;
    }
    static bool parse_exp(const std::string &x, int &e) {
        if (x.size() < 2 || (x[0] != '+' && x[0] != '-') || x.find_first_not_of("0123456789", 1) != std::string::npos) return false;
        e = std::atoi(x.c_str());
        return true;
    }
};
#endif
