// Reference model of the symbolic side: an algebra of any signature defined by
// reordering factor lists, polynomials as plain maps, an independent reader for
// the shell's expression language, and a reader for what the shell prints.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace sr
{
typedef std::map<std::string, int> Mono; // no zero exponents
struct Co
{
    double v, m; // value and magnitude of what was summed into it
};
typedef std::map<Mono, Co> Poly;
typedef std::map<uint32_t, Poly> Mv;

struct Sig
{
    int p, q, r;
    int dim() const { return p + q + r; }
    int square(int i) const { return i < r ? 0 : i < r + p ? 1 : -1; }
};
// sign of e_A e_B, by concatenating the factor lists and bubble sorting
inline int gsign(Sig const& s, uint32_t a, uint32_t b)
{
    std::vector<int> f;
    for (int i = 0; i < s.dim(); ++i)
        if (a >> i & 1) f.push_back(i);
    for (int i = 0; i < s.dim(); ++i)
        if (b >> i & 1) f.push_back(i);
    int sign = 1;
    for (size_t i = 0; i < f.size(); ++i)
        for (size_t j = 0; j + 1 < f.size(); ++j)
            if (f[j] > f[j + 1])
            {
                std::swap(f[j], f[j + 1]);
                sign = -sign;
            }
    for (size_t j = 0; j + 1 < f.size(); ++j)
        if (f[j] == f[j + 1]) sign *= s.square(f[j]);
    return sign;
}
inline int grade(uint32_t b)
{
    int n = 0;
    for (; b; b &= b - 1) ++n;
    return n;
}
inline int wsign(Sig const& s, uint32_t a, uint32_t b) { return (a & b) ? 0 : gsign(s, a, b); }
inline int dsign(Sig const& s, uint32_t a, uint32_t b)
{
    if (!a || !b) return 0;
    int d = grade(a) - grade(b);
    if (d < 0) d = -d;
    return grade(a ^ b) == d ? gsign(s, a, b) : 0;
}
// The duality map of P(R*3,0,1) on the oriented basis e0 e1 e2 e3 | e01 e02 e03
// e23 e31 e12 | e123 e032 e013 e021
inline int orient(uint32_t b) { return (b == 10 || b == 7 || b == 13) ? -1 : 1; }
inline int jsign(uint32_t b) { return orient(b) * orient(15 ^ b); }
inline int rsign(uint32_t a, uint32_t b, uint32_t& out)
{
    Sig s  = {3, 0, 1};
    int w  = wsign(s, 15 ^ a, 15 ^ b);
    uint32_t c = (15 ^ a) | (15 ^ b);
    out    = 15 ^ c;
    return w * jsign(a) * jsign(b) * jsign(c);
}

inline void add(Poly& p, Mono const& m, double v, double mag)
{
    Co& c = p.insert(std::make_pair(m, Co{0, 0})).first->second;
    c.v += v;
    c.m += mag;
}
inline Poly mul(Poly const& a, Poly const& b)
{
    Poly r;
    for (auto& x : a)
        for (auto& y : b)
        {
            Mono m = x.first;
            for (auto& f : y.first)
            {
                int& d = m[f.first];
                d += f.second;
                if (d == 0) m.erase(f.first);
            }
            add(r, m, x.second.v * y.second.v, x.second.m * y.second.m);
        }
    return r;
}
inline void add(Poly& a, Poly const& b, double s)
{
    for (auto& x : b) add(a, x.first, s * x.second.v, std::fabs(s) * x.second.m);
}
inline Mv neg(Mv const& a)
{
    Mv r;
    for (auto& x : a) add(r[x.first], x.second, -1);
    return r;
}
inline Mv rev(Mv const& a)
{
    Mv r;
    for (auto& x : a) add(r[x.first], x.second, (grade(x.first) & 2) ? -1 : 1);
    return r;
}
inline Mv sum(Mv const& a, Mv const& b, double s)
{
    Mv r = a;
    for (auto& x : b) add(r[x.first], x.second, s);
    return r;
}
inline Mv prod(Sig const& s, Mv const& a, Mv const& b, char op)
{
    Mv r;
    for (auto& x : a)
        for (auto& y : b)
        {
            uint32_t e = x.first ^ y.first;
            int k      = 0;
            switch (op)
            {
            case '*': k = gsign(s, x.first, y.first); break;
            case '^': k = wsign(s, x.first, y.first); break;
            case '|': k = dsign(s, x.first, y.first); break;
            case '&': k = rsign(x.first, y.first, e); break;
            }
            if (k) add(r[e], mul(x.second, y.second), k);
        }
    return r;
}
inline size_t size(Mv const& a)
{
    size_t n = 0;
    for (auto& x : a) n += x.second.size();
    return n;
}

// ---------------------------------------------------------------- reader
// expr   := term {("+"|"-") term}
// term   := ext {"*" ext}      ext := reg {"^" reg}     reg := dot {"&" dot}
// dot    := factor {"|" factor}
// factor := {"+"|"-"|"~"} ( (identifier|number) [element] | element | "(" expr ")" )
struct Bad : std::runtime_error
{
    Bad(char const* w)
        : std::runtime_error(w)
    {}
};
struct TooBig : std::runtime_error // work limit of the model, not a verdict
{
    TooBig()
        : std::runtime_error("too big")
    {}
};
struct Reader
{
    std::string s;
    size_t i;
    Sig sig;
    size_t limit;
    int depth, maxdepth;
    Reader(std::string const& in, Sig g, size_t lim = 4000)
        : s(in)
        , i(0)
        , sig(g)
        , limit(lim)
        , depth(0)
        , maxdepth(0)
    {
        size_t z = s.find('\0');
        if (z != std::string::npos) s.resize(z);
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    void ws()
    {
        while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
    }
    char peek()
    {
        ws();
        return i < s.size() ? s[i] : 0;
    }
    // the whole line is read into tokens before anything else: a lexical error
    // anywhere makes the line invalid
    static bool isop(char c) { return c == '+' || c == '-' || c == '~' || c == '*' || c == '^' || c == '&' || c == '|'; }
    void lexical()
    {
        for (size_t k = 0; k < s.size();)
        {
            char c = s[k];
            if (c == ' ' || (c >= 9 && c <= 13) || isop(c) || c == '(' || c == ')') ++k;
            else if (dig(c))
            {
                size_t b = k;
                double v;
                k = number(b, v);
            }
            else if (c == 'e' && k + 1 < s.size() && dig(s[k + 1]))
            {
                ++k;
                uint32_t seen = 0;
                for (; k < s.size() && dig(s[k]); ++k)
                {
                    int d = s[k] - '0';
                    if (d >= sig.dim()) throw Bad("index");
                    if (seen >> d & 1) throw Bad("duplicate");
                    seen |= 1u << d;
                }
            }
            else if (alpha(c))
                while (k < s.size() && (alpha(s[k]) || dig(s[k]))) ++k;
            else
                throw Bad("character");
        }
    }
    size_t number(size_t b, double& v) const
    {
        size_t e = b;
        while (e < s.size() && (dig(s[e]) || s[e] == '.')) ++e;
        if (e - b > 31) throw Bad("long number");
        // digits [ "." digits ]
        size_t k = b;
        while (k < e && dig(s[k])) ++k;
        if (k < e && s[k] == '.')
        {
            ++k;
            while (k < e && dig(s[k])) ++k;
        }
        v = std::strtod(s.substr(b, k - b).c_str(), 0);
        if (k != e) throw Bad("number"); // the rest starts with a dot
        return k;
    }
    Mv all()
    {
        lexical();
        Mv r = expr();
        if (peek()) throw Bad("trailing");
        return r;
    }
    void work(Mv const& m) const
    {
        if (size(m) > limit) throw TooBig();
    }
    Mv bin(int level)
    {
        static char const ops[] = {'*', '^', '&', '|'};
        if (level == 4) return factor();
        Mv a = bin(level + 1);
        while (peek() == ops[level])
        {
            ++i;
            Mv b = bin(level + 1);
            if (size(a) * size(b) > 40 * limit) throw TooBig();
            a = prod(sig, a, b, ops[level]);
            work(a);
        }
        return a;
    }
    Mv expr()
    {
        Mv a = bin(0);
        for (;;)
        {
            char c = peek();
            if (c == '+' || c == '-')
            {
                ++i;
                a = sum(a, bin(0), c == '+' ? 1 : -1);
            }
            else
                return a;
        }
    }
    bool element(uint32_t& b, int& sign)
    {
        if (peek() != 'e' || i + 1 >= s.size() || !dig(s[i + 1])) return false;
        ++i;
        std::vector<int> f;
        for (; i < s.size() && dig(s[i]); ++i) f.push_back(s[i] - '0');
        sign = 1;
        b    = 0;
        for (size_t x = 0; x < f.size(); ++x)
        {
            b |= 1u << f[x];
            for (size_t y = 0; y < x; ++y)
                if (f[y] > f[x]) sign = -sign;
        }
        return true;
    }
    Mv factor()
    {
        bool n = false, r = false;
        for (;; ++i)
        {
            char c = peek();
            if (c == '-') n = !n;
            else if (c == '~') r = !r;
            else if (c == '+') continue;
            else break;
        }
        Mv out;
        char c = peek();
        uint32_t b = 0;
        int sg     = 1;
        if (c == '(')
        {
            ++i;
            if (++depth > maxdepth) maxdepth = depth;
            out = expr();
            --depth;
            if (peek() != ')') throw Bad(")");
            ++i;
        }
        else if (element(b, sg))
            add(out[b], Mono(), sg, 1);
        else if (dig(c))
        {
            double v;
            i = number(i, v);
            v = double(float(v));
            element(b, sg);
            add(out[b], Mono(), sg * v, std::fabs(v));
        }
        else if (alpha(c))
        {
            size_t k = i;
            while (i < s.size() && (alpha(s[i]) || dig(s[i]))) ++i;
            Mono m;
            m[s.substr(k, i - k)] = 1;
            element(b, sg);
            add(out[b], m, sg, 1);
        }
        else
            throw Bad("factor");
        if (r) out = rev(out);
        if (n) out = neg(out);
        return out;
    }
};

// ------------------------------------------------------ printed results
// result := "0" | part { " + " part }       part := poly [" e" digits]
// poly   := mono | "(" mono { " + " mono } ")"
// mono   := coefficient | ["-" | coefficient] factor { " " factor }
// factor := name ["^" integer]
struct Printed
{
    std::string s;
    size_t i;
    Printed(std::string const& in)
        : s(in)
        , i(0)
    {}
    bool lit(char const* t)
    {
        size_t n = std::string(t).size();
        if (s.compare(i, n, t) == 0)
        {
            i += n;
            return true;
        }
        return false;
    }
    bool dig(size_t k) const { return k < s.size() && Reader::dig(s[k]); }
    bool elemAt(size_t k) const { return k + 1 < s.size() && s[k] == 'e' && dig(k + 1); }
    bool coef(double& v)
    {
        size_t k = i;
        if (k < s.size() && s[k] == '-') ++k;
        if (!dig(k)) return false;
        while (dig(k)) ++k;
        if (k < s.size() && s[k] == '.')
        {
            ++k;
            while (dig(k)) ++k;
        }
        if (k + 1 < s.size() && s[k] == 'e' && (s[k + 1] == '+' || s[k + 1] == '-') && dig(k + 2))
        {
            k += 2;
            while (dig(k)) ++k;
        }
        v = std::strtod(s.substr(i, k - i).c_str(), 0);
        i = k;
        return true;
    }
    bool factor(Mono& m)
    {
        if (i >= s.size() || !Reader::alpha(s[i]) || elemAt(i)) return false;
        size_t k = i;
        while (i < s.size() && (Reader::alpha(s[i]) || dig(i))) ++i;
        std::string name = s.substr(k, i - k);
        int d            = 1;
        if (i < s.size() && s[i] == '^')
        {
            ++i;
            char* e;
            d = int(std::strtol(s.c_str() + i, &e, 10));
            i = size_t(e - s.c_str());
        }
        int& x = m[name];
        x += d;
        if (x == 0) m.erase(name);
        return true;
    }
    void mono(Poly& p)
    {
        double v = 1;
        Mono m;
        bool had = coef(v);
        if (!had && i < s.size() && s[i] == '-')
        {
            ++i;
            v = -1;
        }
        bool f = factor(m);
        if (!had && !f) throw Bad("mono");
        while (f && i < s.size() && s[i] == ' ' && !elemAt(i + 1) && i + 1 < s.size() && Reader::alpha(s[i + 1]))
        {
            ++i;
            if (!factor(m)) throw Bad("factor");
        }
        add(p, m, v, std::fabs(v));
    }
    Mv all()
    {
        Mv r;
        if (s == "0") return r;
        for (;;)
        {
            Poly p;
            if (lit("("))
            {
                for (;;)
                {
                    mono(p);
                    if (lit(")")) break;
                    if (!lit(" + ")) throw Bad("inside parentheses");
                }
            }
            else
                mono(p);
            uint32_t b = 0;
            if (i < s.size() && s[i] == ' ' && elemAt(i + 1))
            {
                i += 2;
                int last = -1;
                for (; dig(i); ++i)
                {
                    if (s[i] - '0' <= last) throw Bad("basis order");
                    last = s[i] - '0';
                    b |= 1u << last;
                }
            }
            add(r[b], p, 1);
            if (i == s.size()) return r;
            if (!lit(" + ")) throw Bad("between terms");
        }
    }
};

inline std::string show(Mono const& m)
{
    std::string s;
    for (auto& f : m) s += f.first + "^" + std::to_string(f.second) + " ";
    return s;
}
inline std::string show(Mv const& m)
{
    std::string s;
    for (auto& x : m)
        for (auto& t : x.second)
            if (t.second.v != 0)
            {
                char b[64];
                std::snprintf(b, sizeof b, "%.9g ", t.second.v);
                s += std::string(s.empty() ? "" : "+ ") + b + show(t.first) + "[" + std::to_string(x.first) + "] ";
            }
    return s.empty() ? "0" : s;
}
} // namespace sr
