// Monitors for the symbolic side (algebra of any signature, polynomials, the
// expression language, the shell). Everything is judged by the reference model
// in symref.hpp.
#include "symref.hpp"

#include <ga.hpp>
#include <parser.hpp>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

// ------------------------------------------------------------- recorder
struct Rec
{
    uint64_t evaluations = 0, nfail = 0, skipped = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> ops, fails;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, uint64_t>> extra;
    bool quiet = false;
    void event(std::string const& op, std::string const& in, bool nontriv)
    {
        ++evaluations;
        ++ops[op];
        if (nontriv && distinct.size() < 3000000) distinct.insert(std::hash<std::string>()(op + "|" + in));
        if (samples.size() < 8 && (samples.size() < 2 || evaluations % 4999 == 0)) samples.push_back(op + ": " + in.substr(0, 200));
    }
    void fail(std::string const& op, std::string d)
    {
        ++nfail;
        if (quiet || fails[op]++ < 3)
        {
            for (auto& c : d)
                if ((unsigned char)c < 32) c = '?';
            std::printf("FAIL\t%s\t%s\n", op.c_str(), d.substr(0, 900).c_str());
            std::fflush(stdout);
        }
    }
    bool check(std::string const& op, std::string const& in, bool ok, std::string const& more = "", bool nontriv = true)
    {
        event(op, in, nontriv);
        if (!ok) fail(op, in + " " + more);
        return ok;
    }
    int finish()
    {
        std::printf("STAT\tevaluations\t%llu\n", (unsigned long long)evaluations);
        std::printf("STAT\tdistinct\t%llu\n", (unsigned long long)distinct.size());
        std::printf("STAT\tskipped\t%llu\n", (unsigned long long)skipped);
        std::printf("STAT\tfails\t%llu\n", (unsigned long long)nfail);
        for (auto& e : extra) std::printf("STAT\t%s\t%llu\n", e.first.c_str(), (unsigned long long)e.second);
        for (auto& o : ops) std::printf("OP\t%s\t%llu\n", o.first.c_str(), (unsigned long long)o.second);
        for (auto s : samples)
        {
            for (auto& c : s)
                if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
            std::printf("SAMPLE\t%s\n", s.c_str());
        }
        std::printf("DONE\n");
        return 0;
    }
};
static Rec R;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) // scattered: nearby seeds must not share a stream
        : s(scatter(seed + 0x7654321))
    {}
    static uint64_t scatter(uint64_t z)
    {
        for (int i = 0; i < 3; ++i)
        {
            z ^= z >> 33;
            z *= 0xff51afd7ed558ccdull;
            z ^= z >> 29;
            z *= 0xc4ceb9fe1a85ec53ull;
        }
        return z ^ (z >> 32);
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return int(next() % uint64_t(n)); }
    bool chance(int n) { return below(n) == 0; }
};

static std::string S(long long v) { return std::to_string(v); }
static std::string sigs(sr::Sig const& s) { return "R(" + S(s.p) + "," + S(s.q) + "," + S(s.r) + ")"; }

// --------------------------------------------------- values of the library
static sr::Mono monoOf(mon const& m)
{
    sr::Mono r;
    for (auto& f : m.factors) r[f.first] = f.second;
    return r;
}
static sr::Poly polyOf(poly const& p)
{
    sr::Poly r;
    for (auto& t : p.terms) sr::add(r, monoOf(t.first), double(t.second), std::fabs(double(t.second)));
    return r;
}
static sr::Mv mvOf(mv const& m)
{
    sr::Mv r;
    for (auto& t : m.terms) sr::add(r[t.first], polyOf(t.second), 1);
    return r;
}
// equal as values, up to rel * (magnitude of what was summed into the expected
// coefficient)
static bool same(sr::Poly const& got, sr::Poly const& want, double rel, double relv = 0)
{
    for (auto& w : want)
    {
        auto g   = got.find(w.first);
        double v = g == got.end() ? 0 : g->second.v;
        if (!(std::fabs(v - w.second.v) <= rel * w.second.m + relv * std::fabs(w.second.v))) return false;
    }
    for (auto& g : got)
        if (g.second.v != 0 && !want.count(g.first)) return false;
    return true;
}
static bool same(sr::Mv const& got, sr::Mv const& want, double rel, double relv = 0)
{
    static const sr::Poly none;
    for (auto& w : want)
    {
        auto g = got.find(w.first);
        if (!same(g == got.end() ? none : g->second, w.second, rel, relv)) return false;
    }
    for (auto& g : got)
        if (!want.count(g.first) && !same(g.second, none, 0)) return false;
    return true;
}
static bool huge(sr::Mv const& m)
{
    for (auto& x : m)
        for (auto& t : x.second)
        {
            if (!(t.second.m < 1e30)) return true;
            // products that fall below the range of floats
            if (t.second.m != 0 && t.second.m < 1e-30) return true;
        }
    return false;
}

// ------------------------------------------------------------ generators
static char const* const names[] = {"a", "b", "x", "y", "z", "p1", "ab", "e", "ex", "Xy2", "d", "w", "aLongVariableName1", "aLongVariableName2",
    "v0123456789012345678901234567890123456789", "A", "X", "P1", "aB", "E", "E1", "E12", "Ex", "a1", "a01", "ALongVariableName1"};
enum { NNAMES = sizeof names / sizeof *names };
// beyond small monomials: exponents of any size, dozens of variables
static int steep = 1, crowd = 0;
static mon rmon(Rng& g, int maxv, bool negdeg)
{
    mon m;
    if (crowd && maxv > 1 && g.chance(2))
        for (int i = g.below(crowd); i >= 0; --i) m.push("q" + std::to_string(g.below(crowd)), 1 + g.below(2));
    if (steep > 1)
    {
        for (int i = 0; i < maxv; ++i) m.push(names[g.below(3)], (1 + g.below(steep)) * (negdeg && g.chance(4) ? -1 : 1));
        return m;
    }
    int n = g.below(maxv + 1);
    for (int i = 0; i < n; ++i) m.push(names[g.chance(12) ? g.below(NNAMES) : g.below(6)], negdeg && g.chance(4) ? -1 - g.below(2) : 1 + g.below(3));
    return m;
}
// integers times one power of two: sums and products stay exact
static float unit = 1;
static void newUnit(Rng& g) { unit = g.chance(3) ? std::ldexp(1.f, g.below(41) - 30) : 1.f; }
static poly rpoly(Rng& g, int maxt, int maxv = 2, bool negdeg = false)
{
    poly p;
    int n = g.below(maxt + 1);
    for (int i = 0; i < n; ++i)
    {
        int c = g.below(19) - 9;
        p.push(rmon(g, maxv, negdeg), unit * float(c));
    }
    return p;
}
// many terms; often as many as a counter of few bits just holds
static poly longPoly(Rng& g)
{
    static const int at[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513};
    poly p;
    bool edge = g.chance(2);
    int n     = edge ? at[g.below(int(sizeof at / sizeof *at))] : 20 + g.below(380);
    for (int j = 0; j < n; ++j)
    {
        mon x;
        int i = edge ? j : g.below(400);
        x.push("a", i % 20), x.push("p1", i / 20);
        p.push(x, float(1 + g.below(9)));
    }
    return p;
}
static mv rmv(Rng& g, algebra const& a, int dim, int maxt, bool vars)
{
    mv m{a};
    int n = 1 + g.below(maxt);
    if (dim <= 5 && g.chance(10)) // (almost) every basis element, few values: products cancel often
    {
        int same = 1 + g.below(3);
        poly x;
        x.push(vars ? rmon(g, 1, false) : mon{}, unit);
        for (uint32_t e = 0; e < 1u << dim; ++e)
            if (!g.chance(8))
            {
                poly p;
                p.push(mon{}, unit * float(g.chance(2) ? same : -same));
                m.push(e, vars && g.chance(2) ? x : p);
            }
        return m;
    }
    for (int i = 0; i < n; ++i)
    {
        poly p = rpoly(g, vars ? 3 : 1, vars ? 2 : 0);
        if (p.terms.empty() && !g.chance(6)) p.push(mon{}, unit * float(1 + g.below(4)));
        m.push(uint32_t(g.next()) & ((1u << dim) - 1), p);
    }
    return m;
}
static std::string ms(mv const& m) { return sr::show(mvOf(m)); }

// ============================================================ C24 algebra
static void blades(sr::Sig const& s, algebra const& A, uint32_t a, uint32_t b)
{
    std::string in = sigs(s) + " blades " + S(a) + " " + S(b);
    auto enc       = [](int sign, uint32_t bits) { return sign * int32_t(bits + 1); };
    int gs         = sr::gsign(s, a, b);
    R.check("geometric product of basis elements", in, A.mul(a, b) == enc(gs, a ^ b), "got " + S(A.mul(a, b)) + " want " + S(enc(gs, a ^ b)));
    int ws = sr::wsign(s, a, b);
    R.check("exterior product of basis elements", in, A.ext(a, b) == enc(ws, a | b), "got " + S(A.ext(a, b)), ws != 0);
    int ds = sr::dsign(s, a, b);
    R.check("inner product of basis elements", in, A.dot(a, b) == enc(ds, a ^ b), "got " + S(A.dot(a, b)), ds != 0);
    if (s.p == 3 && s.q == 0 && s.r == 1)
    {
        uint32_t c = 0;
        int k      = sr::rsign(a, b, c);
        R.check("regressive product of basis elements", in, A.reg(a, b) == enc(k, c), "got " + S(A.reg(a, b)) + " want " + S(enc(k, c)), k != 0);
    }
}
static void algebraWork(Rng& g, uint64_t n)
{
    // every pair of basis elements of every signature of up to six dimensions
    for (int d = 1; d <= 6; ++d)
        for (int p = 0; p <= d; ++p)
            for (int q = 0; p + q <= d; ++q)
            {
                sr::Sig s = {p, q, d - p - q};
                if (d == 6 && !(g.chance(3) || (p == 3 && q == 0))) continue;
                algebra A(uint32_t(p), uint32_t(q), uint32_t(s.r));
                R.check("pseudoscalar", sigs(s), A.pss() == (1u << d) - 1);
                algebra B(uint32_t(p), uint32_t(q), uint32_t(s.r)), C(uint32_t(p + 1), uint32_t(q), uint32_t(s.r)),
                    D(uint32_t(p), uint32_t(q + 1), uint32_t(s.r)), E(uint32_t(p), uint32_t(q), uint32_t(s.r + 1));
                R.check("equality of algebras", sigs(s), A == B && !(A == C) && !(A == D) && !(A == E));
                for (uint32_t a = 0; a < 1u << d; ++a)
                {
                    R.check("parity of reversion", sigs(s) + " blade " + S(a), A.rev(a) == ((sr::grade(a) & 2) != 0));
                    for (uint32_t b = 0; b < 1u << d; ++b) blades(s, A, a, b);
                }
            }
    // larger algebras, at random
    for (uint64_t i = 0; i < n; ++i)
    {
        int d     = 7 + g.below(24);
        sr::Sig s = {0, 0, 0};
        for (int k = 0; k < d; ++k)
            switch (g.below(3))
            {
            case 0: ++s.p; break;
            case 1: ++s.q; break;
            case 2: ++s.r; break;
            }
        if (g.chance(3)) s.p += s.r, s.r = g.below(3), s.p = d - s.q - s.r;
        if (s.p < 0) s.p = 0, s.r = d - s.q;
        algebra A(uint32_t(s.p), uint32_t(s.q), uint32_t(s.r));
        uint32_t mask = (1u << d) - 1;
        auto rb       = [&] {
            uint32_t b = uint32_t(g.next()) & mask;
            if (g.chance(2)) b &= uint32_t(g.next());
            if (g.chance(4)) b &= uint32_t(g.next());
            return b;
        };
        uint32_t a = rb(), b = rb();
        if (g.chance(3)) b &= ~a;
        if (g.chance(4)) b = a;
        if (g.chance(5)) b = a & uint32_t(g.next());
        blades(s, A, a, b);
        R.check("parity of reversion", sigs(s) + " blade " + S(a), A.rev(a) == ((sr::grade(a) & 2) != 0));
    }
    {
        algebra A(3, 0, 1);
        sr::Sig s = {3, 0, 1};
        for (uint32_t a = 0; a < 16; ++a)
        {
            int32_t want = sr::jsign(a) * int32_t((15 ^ a) + 1);
            R.check("dual of basis elements", "blade " + S(a), A.dual(a) == want, "got " + S(A.dual(a)));
        }
        (void)s;
    }
    // multivectors
    for (uint64_t i = 0; i < n; ++i)
    {
        sr::Sig s = {3, 0, 1};
        if (!g.chance(3))
        {
            s.p = g.below(4), s.q = g.below(3), s.r = g.below(3);
            if (s.dim() == 0) s.p = 1;
            if (g.chance(8)) s.p += 3, s.q += 2;
        }
        bool pga = s.p == 3 && s.q == 0 && s.r == 1;
        algebra A(uint32_t(s.p), uint32_t(s.q), uint32_t(s.r));
        bool vars = g.chance(2);
        newUnit(g);
        mv a = rmv(g, A, s.dim(), 5, vars), b = rmv(g, A, s.dim(), 5, vars), c = rmv(g, A, s.dim(), 3, vars);
        if (g.chance(8)) b = a;
        std::string in = sigs(s) + " a=" + ms(a) + " b=" + ms(b);
        sr::Mv ra = mvOf(a), rb = mvOf(b), rc = mvOf(c);
        // integers throughout: every comparison is exact
        auto eq = [&](char const* op, mv const& got, sr::Mv const& want) {
            sr::Mv gm = mvOf(got);
            R.check(op, in, same(gm, want, 0), "got " + sr::show(gm) + " want " + sr::show(want), sr::size(want) > 0);
            bool canon = true;
            for (auto& t : got.terms)
            {
                canon = canon && !t.second.terms.empty() && t.first <= A.pss();
                for (auto& m : t.second.terms)
                {
                    canon = canon && m.second != 0.f;
                    for (auto& f : m.first.factors) canon = canon && f.second != 0;
                }
            }
            R.check("no vanished term is kept", in, canon, std::string(op) + " got " + sr::show(gm), false);
        };
        // a multivector counts what is pushed into it
        {
            mv q{A};
            sr::Mv want;
            for (int k = g.below(7); k > 0; --k)
            {
                uint32_t e = uint32_t(g.next()) & A.pss();
                if (!a.terms.empty() && g.chance(2)) e = a.terms.begin()->first;
                poly p  = rpoly(g, 3, vars ? 2 : 0);
                auto it = q.terms.find(e);
                if (g.chance(5) && it != q.terms.end()) p = -it->second;
                mv& r = q.push(e, p);
                sr::add(want[e], polyOf(p), 1);
                R.check("push returns its multivector", in, &r == &q, "", false);
            }
            eq("a multivector counts what is pushed", q, want);
        }
        // coefficients that are long polynomials
        if (g.chance(100))
        {
            mv l{A}, t{A};
            int blades = 1 + g.below(2);
            for (int k = 0; k < blades; ++k)
            {
                l.push(uint32_t(g.next()) & A.pss(), longPoly(g));
            }
            for (int k = 0; k < 2; ++k)
            {
                poly p;
                p.push(mon{}, float(1 + g.below(9)));
                for (int j = g.below(12); j > 0; --j) p.push(mon{}.push("b", j), float(g.below(9) - 4));
                t.push(g.chance(2) ? 0 : uint32_t(g.next()) & A.pss(), p);
            }
            sr::Mv rl = mvOf(l), rt = mvOf(t);
            eq("long l * t", l * t, sr::prod(s, rl, rt, '*'));
            eq("long t * l", t * l, sr::prod(s, rt, rl, '*'));
            eq("long l ^ t", l ^ t, sr::prod(s, rl, rt, '^'));
            eq("long t ^ l", t ^ l, sr::prod(s, rt, rl, '^'));
            eq("long l | t", l | t, sr::prod(s, rl, rt, '|'));
            eq("long t | l", t | l, sr::prod(s, rt, rl, '|'));
            if (pga) eq("long l & t", l & t, sr::prod(s, rl, rt, '&'));
            if (pga) eq("long t & l", t & l, sr::prod(s, rt, rl, '&'));
            eq("long -l", -l, sr::neg(rl));
            eq("long ~l", ~l, sr::rev(rl));
            mv u = l;
            u += t;
            u -= l;
            eq("long (l += t) -= l", u, rt);
        }
        eq("a + b", a + b, sr::sum(ra, rb, 1));
        eq("a * b", a * b, sr::prod(s, ra, rb, '*'));
        eq("a ^ b", a ^ b, sr::prod(s, ra, rb, '^'));
        eq("a | b", a | b, sr::prod(s, ra, rb, '|'));
        if (pga) eq("a & b", a & b, sr::prod(s, ra, rb, '&'));
        eq("-a", -a, sr::neg(ra));
        eq("~a", ~a, sr::rev(ra));
        eq("-(temporary)", -(a + b), sr::neg(sr::sum(ra, rb, 1)));
        eq("~(temporary)", ~(a + b), sr::rev(sr::sum(ra, rb, 1)));
        {
            mv t = a;
            t += b;
            eq("a += b", t, sr::sum(ra, rb, 1));
            t -= b;
            eq("(a += b) -= b", t, ra);
            t = a;
            t *= b;
            eq("a *= b", t, sr::prod(s, ra, rb, '*'));
            t = a;
            t ^= b;
            eq("a ^= b", t, sr::prod(s, ra, rb, '^'));
            t = a;
            t |= b;
            eq("a |= b", t, sr::prod(s, ra, rb, '|'));
            if (pga)
            {
                t = a;
                t &= b;
                eq("a &= b", t, sr::prod(s, ra, rb, '&'));
                t = a;
                t &= t;
                eq("a &= a", t, sr::prod(s, ra, ra, '&'));
            }
            // an operand may be its own right-hand side
            t = a;
            t += t;
            eq("a += a", t, sr::sum(ra, ra, 1));
            t = a;
            t -= t;
            eq("a -= a", t, sr::Mv());
            t = a;
            t *= t;
            eq("a *= a", t, sr::prod(s, ra, ra, '*'));
            t = a;
            t ^= t;
            eq("a ^= a", t, sr::prod(s, ra, ra, '^'));
            t = a;
            t |= t;
            eq("a |= a", t, sr::prod(s, ra, ra, '|'));
            eq("operands unchanged", a, ra);
            eq("operands unchanged", b, rb);
        }
        // laws, observed between results of the library alone
        auto law = [&](char const* op, mv const& x, mv const& y) {
            R.check(op, in + " c=" + ms(c), same(mvOf(x), mvOf(y), 0), "left " + ms(x) + " right " + ms(y));
        };
        law("(ab)c = a(bc)", (a * b) * c, a * (b * c));
        law("(a^b)^c = a^(b^c)", (a ^ b) ^ c, a ^ (b ^ c));
        law("a(b+c) = ab+ac", a * (b + c), (a * b) + (a * c));
        law("(a+b)c = ac+bc", (a + b) * c, (a * c) + (b * c));
        law("a^(b+c) = a^b+a^c", a ^ (b + c), (a ^ b) + (a ^ c));
        law("a|(b+c) = a|b+a|c", a | (b + c), (a | b) + (a | c));
        law("~(ab) = ~b ~a", ~(a * b), ~b * ~a);
        law("~~a = a", ~~a, a);
        law("a+b = b+a", a + b, b + a);
        if (pga)
        {
            law("(a&b)&c = a&(b&c)", (a & b) & c, a & (b & c));
            law("a&(b+c) = a&b+a&c", a & (b + c), (a & b) + (a & c));
        }
    }
}

// ========================================================= C25 polynomials
static double evalr(sr::Poly const& p, std::map<std::string, long long> const& at)
{
    double r = 0;
    for (auto& t : p)
    {
        double v = t.second.v;
        for (auto& f : t.first) v *= std::pow(double(at.at(f.first)), f.second);
        r += v;
    }
    return r;
}
static std::string pshow(poly const& p)
{
    sr::Mv m;
    m[0] = polyOf(p);
    return sr::show(m);
}
static void polyWork(Rng& g, uint64_t n)
{
    for (uint64_t i = 0; i < n; ++i)
    {
        bool nd = g.chance(3);
        newUnit(g);
        steep = g.chance(16) ? 1 << (3 + g.below(14)) : 1;
        crowd = g.chance(24) ? 2 + g.below(60) : 0;
        poly a = rpoly(g, 5, 3, nd), b = rpoly(g, 5, 3, nd), c = rpoly(g, 4, 2, nd);
        switch (g.below(8))
        {
        case 0: b = -a; break;
        case 1: b = a; break;
        case 2: b = a; if (!b.terms.empty()) b.terms.erase(b.terms.begin()); break;
        default: break;
        }
        std::string in = "a=" + pshow(a) + " b=" + pshow(b);
        sr::Poly ra = polyOf(a), rb = polyOf(b), rc = polyOf(c);
        auto canon = [&](char const* op, poly const& p) {
            bool ok = true;
            for (auto& m : p.terms)
            {
                ok = ok && m.second != 0.f;
                for (auto& f : m.first.factors) ok = ok && f.second != 0;
            }
            R.check("canonical form", in, ok, std::string(op) + " got " + pshow(p), false);
        };
        auto eq = [&](char const* op, poly const& got, sr::Poly const& want) {
            R.check(op, in, same(polyOf(got), want, 0), "got " + pshow(got), !want.empty());
            canon(op, got);
        };
        sr::Poly sum = ra;
        sr::add(sum, rb, 1);
        canon("terms as pushed", a);
        eq("a + b", a + b, sum);
        eq("b + a", b + a, sum);
        sr::Poly pr = sr::mul(ra, rb);
        eq("a * b", a * b, pr);
        eq("b * a", b * a, pr);
        sr::Poly ng;
        sr::add(ng, ra, -1);
        eq("-a", -a, ng);
        sr::Poly nsum;
        sr::add(nsum, sum, -1);
        eq("-(temporary)", -(a + b), nsum);
        poly t = a;
        t += b;
        eq("a += b", t, sum);
        t = a;
        t *= b;
        eq("a *= b", t, pr);
        t = a;
        t *= t;
        eq("a *= a", t, sr::mul(ra, ra));
        t = a;
        t += t;
        sr::Poly dbl = ra;
        sr::add(dbl, ra, 1);
        eq("a += a", t, dbl);
        t = a;
        t += -a;
        R.check("a + (-a) has no terms", in, t.terms.empty(), "got " + pshow(t));
        // associativity and distributivity between library results, exactly
        auto law = [&](char const* op, poly const& x, poly const& y) {
            R.check(op, in + " c=" + pshow(c), same(polyOf(x), polyOf(y), 0) && x.terms.size() == y.terms.size(), "left " + pshow(x) + " right " + pshow(y));
        };
        law("(ab)c = a(bc)", (a * b) * c, a * (b * c));
        law("a(b+c) = ab+ac", a * (b + c), (a * b) + (a * c));
        law("(a+b)+c = a+(b+c)", (a + b) + c, a + (b + c));
        // evaluation is a homomorphism
        std::map<std::string, long long> at;
        for (auto nm : names) at[nm] = 1 + g.below(4);
        for (int k = 0; k < crowd; ++k) at["q" + std::to_string(k)] = 1;
        double ea = evalr(polyOf(a), at), eb = evalr(polyOf(b), at), es = evalr(polyOf(a + b), at), ep = evalr(polyOf(a * b), at);
        double mag = 1;
        for (auto& x : pr) mag += std::fabs(x.second.m) * 1e6;
        if (steep == 1 && !crowd) R.check("value of a sum", in, std::fabs(es - (ea + eb)) <= 1e-12 * mag + 1e-9 * (std::fabs(ea) + std::fabs(eb)));
        if (steep == 1 && !crowd) R.check("value of a product", in, std::fabs(ep - ea * eb) <= 1e-12 * mag + 1e-9 * std::fabs(ea * eb));
        // monomials
        mon m[3] = {rmon(g, 3, nd), rmon(g, 3, nd), rmon(g, 3, nd)};
        if (g.chance(4)) m[1] = m[0];
        if (g.chance(4)) m[2] = m[1], m[2].push("a", 1);
        std::string mi = sr::show(monoOf(m[0])) + "; " + sr::show(monoOf(m[1])) + "; " + sr::show(monoOf(m[2]));
        for (auto& x : m)
        {
            int d = 0;
            for (auto& f : x.factors) d += f.second;
            R.check("degree", mi, x.degree() == d);
            R.check("order is irreflexive", mi, !(x < x) && x == x);
            for (auto& y : m)
            {
                bool eqm = monoOf(x) == monoOf(y);
                R.check("equality of monomials", mi, (x == y) == eqm);
                R.check("order is total", mi, int(x < y) + int(y < x) + int(eqm) == 1);
                if (eqm) R.check("equal monomials hash alike", mi, std::hash<mon>()(x) == std::hash<mon>()(y));
                if (x.degree() < y.degree()) R.check("lower degree first", mi, x < y);
                for (auto& z : m)
                    if (x < y && y < z) R.check("order is transitive", mi, x < z);
                mon xy = x * y, yx = y * x;
                sr::Mono want = monoOf(x);
                for (auto& f : y.factors)
                {
                    want[f.first] += f.second;
                    if (!want[f.first]) want.erase(f.first);
                }
                R.check("product of monomials", mi, monoOf(xy) == want && monoOf(yx) == want && xy == yx);
                R.check("hash ignores how a monomial came about", mi, std::hash<mon>()(xy) == std::hash<mon>()(yx), "", false);
                mon q = x;
                q *= y;
                R.check("monomial *=", mi, monoOf(q) == want);
                mon self = x;
                self *= self;
                sr::Mono w2 = monoOf(x);
                for (auto& f : w2) f.second *= 2;
                R.check("monomial *= itself", mi, monoOf(self) == w2);
            }
        }
        // a monomial counts what is pushed into it
        {
            mon q;
            sr::Mono want;
            std::string hist;
            for (int k = g.below(10); k > 0; --k)
            {
                char const* nm = names[g.below(g.chance(2) ? 3 : int(NNAMES))];
                int d          = g.below(7) - 3;
                if (g.chance(16)) d *= 1 + g.below(1000);
                if (g.chance(5) && want.count(nm)) d = -want[nm];
                hist += std::string(nm) + "^" + S(d) + " ";
                mon& r = d == 1 && g.chance(2) ? q.push(nm) : q.push(nm, d);
                want[nm] += d;
                if (want[nm] == 0) want.erase(nm);
                int deg = 0;
                for (auto& f : want) deg += f.second;
                R.check("a monomial counts what is pushed", hist, &r == &q && monoOf(q) == want && q.degree() == deg && q.factors.size() == want.size(),
                        "got " + sr::show(monoOf(q)));
            }
        }
        // and so does a polynomial
        {
            newUnit(g);
            if (g.chance(4)) unit = std::ldexp(1.f, g.below(221) - 120); // only sums from here on
            mon pool[3] = {rmon(g, 2, nd), rmon(g, 2, nd), rmon(g, 2, nd)};
            poly q;
            sr::Poly want;
            std::string hist;
            for (int k = g.below(10); k > 0; --k)
            {
                mon const& x = pool[g.below(3)];
                float c      = unit * float(g.below(13) - 6);
                auto it      = q.terms.find(x);
                if (g.chance(5) && it != q.terms.end()) c = -it->second;
                char num[32];
                std::snprintf(num, sizeof num, "*%.9g ", c);
                hist += sr::show(monoOf(x)) + num;
                poly& r = c == 1 && g.chance(2) ? q.push(x) : q.push(x, c);
                sr::add(want, monoOf(x), c, std::fabs(c));
                bool zero = false;
                for (auto& t : q.terms) zero = zero || t.second == 0.f;
                R.check("a polynomial counts what is pushed", hist, &r == &q && same(polyOf(q), want, 0) && !zero, "got " + pshow(q));
            }
        }
        // terms that nearly cancel leave what is left, terms that cancel nothing
        {
            mon x   = rmon(g, 2, nd);
            float c = (g.chance(2) ? unit : -unit) * float(8388608 + g.below(8388608)), d = -c + unit * float(g.below(5) - 2);
            poly p, q;
            p.push(x, c), q.push(x, d);
            sr::Poly want;
            sr::add(want, monoOf(x), double(c) + double(d), 0);
            eq("terms that nearly cancel, +", p + q, want);
            poly r = p;
            r += q;
            eq("terms that nearly cancel, +=", r, want);
            eq("terms that nearly cancel, pushed", p.push(x, d), want);
        }
        // long polynomials
        if (g.chance(40))
        {
            poly p, q;
            sr::Poly want;
            for (int k = 20 + g.below(400); k > 0; --k)
            {
                mon x;
                x.push("a", g.below(20)), x.push("p1", g.below(20));
                float c = float(1 + g.below(9));
                p.push(x, c), sr::add(want, monoOf(x), c, c);
            }
            canon("many terms", p);
            eq("many terms", p, want);
            q.push(mon{}, 2), q.push(mon{}.push("a"), -1);
            poly e = longPoly(g);
            eq("product of many terms with two, longer", q * e, sr::mul(polyOf(q), polyOf(e)));
            eq("product of many terms with two, longer", e * q, sr::mul(polyOf(e), polyOf(q)));
            eq("sum of many terms with itself and two", (e + q) + e, [&] { sr::Poly w = polyOf(q); sr::add(w, polyOf(e), 2); return w; }());
            eq("product of many terms with two", q * p, sr::mul(polyOf(q), want));
            eq("product of many terms with two, *=", poly(p) *= q, sr::mul(want, polyOf(q)));
            eq("sum of many terms", p + p, [&] { sr::Poly w = want; sr::add(w, want, 1); return w; }());
            eq("negation of many terms", -p, [&] { sr::Poly w; sr::add(w, want, -1); return w; }());
            std::ostringstream os;
            os << p;
            bool ok = false;
            try
            {
                sr::Mv w;
                sr::add(w[0], want, 1);
                ok = same(sr::Printed(os.str()).all(), w, 0, 2e-5);
            }
            catch (sr::Bad const&)
            {
            }
            R.check("printed polynomial", "many terms", ok, os.str().substr(0, 300));
        }
        // pushing in any order builds the same value
        {
            std::vector<std::pair<mon, float>> terms(a.terms.begin(), a.terms.end());
            for (auto& x : b.terms) terms.push_back(x);
            for (size_t k = terms.size(); k > 1; --k) std::swap(terms[k - 1], terms[size_t(g.below(int(k)))]);
            poly p;
            for (auto& x : terms) p.push(x.first, x.second);
            eq("terms pushed in any order", p, sum);
        }
        // printing
        if (!(a * b).terms.empty())
        {
            poly p = a * b;
            std::ostringstream os;
            os << p;
            sr::Mv want;
            sr::add(want[0], polyOf(p), 1);
            bool ok = false;
            std::string why;
            try
            {
                ok = same(sr::Printed(os.str()).all(), want, 0, 2e-5);
            }
            catch (sr::Bad const& e)
            {
                why = e.what();
            }
            R.check("printed polynomial", in, ok, "printed " + os.str() + " " + why);
        }
    }
}

// ======================================================== C26 expressions
struct Node
{
    int kind; // 0 leaf, 1 binary, 2 unary run
    std::string text;
    sr::Mv value;
    int level; // 0 sum 1 * 2 ^ 3 & 4 | 5 factor
};
static const sr::Sig PGA = {3, 0, 1};
static std::string space(Rng& g)
{
    static char const* const w[] = {"", " ", "", " ", "  ", "\t", "", " "};
    return w[g.below(8)];
}
static std::string randElement(Rng& g, uint32_t& b, int& sign, int dim = 4)
{
    std::vector<int> f;
    for (int i = 0; i < dim; ++i)
        if (g.chance(2)) f.push_back(i);
    if (f.empty()) f.push_back(g.below(dim));
    for (size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[size_t(g.below(int(k)))]);
    std::string s = "e";
    b = 0, sign = 1;
    for (size_t x = 0; x < f.size(); ++x)
    {
        s += char('0' + f[x]);
        b |= 1u << f[x];
        for (size_t y = 0; y < x; ++y)
            if (f[y] > f[x]) sign = -sign;
    }
    return s;
}
static Node leaf(Rng& g)
{
    Node n;
    n.kind  = 0;
    n.level = 5;
    double v = 1;
    sr::Mono m;
    uint32_t b = 0;
    int sign   = 1;
    int how    = g.below(6);
    if (how >= 3 && how < 5)
    {
        char buf[40];
        switch (g.below(16))
        {
        case 14: // long literals, up to the documented 31 characters
        {
            int d = 10 + g.below(22), k = 0;
            int z = g.below(d - 2);
            for (; k < d; ++k) buf[k] = char('0' + g.below(k < z ? 2 : 10));
            buf[0] = char('0' + g.below(3));
            buf[1 + g.below(g.chance(2) ? 2 : 6)] = '.';
            buf[k] = 0;
            break;
        }
        case 15: std::snprintf(buf, sizeof buf, "%.*f", 1 + g.below(12), std::ldexp(g.below(1000), -g.below(34))); break;
        case 0:
        case 4:
        case 8: std::snprintf(buf, sizeof buf, "%d", g.below(12)); break;
        case 1:
        case 5:
        case 9: std::snprintf(buf, sizeof buf, "%d.%d", g.below(20), g.below(100)); break;
        case 2:
        case 6: std::snprintf(buf, sizeof buf, "%d.", g.below(9)); break;
        default: std::snprintf(buf, sizeof buf, "0%d.%d", g.below(3), 5 * g.below(2)); break;
        }
        n.text = buf;
        v      = double(std::strtof(buf, 0));
        if (how == 4)
        {
            n.text += space(g) + randElement(g, b, sign);
        }
    }
    else if (how == 5)
    {
        char const* nm = names[g.below(NNAMES)];
        n.text         = nm;
        m[nm]          = 1;
        if (g.chance(2)) n.text += (g.chance(3) ? "\t" : " ") + randElement(g, b, sign);
    }
    else
        n.text = randElement(g, b, sign);
    sr::add(n.value[b], m, sign * v, v);
    return n;
}
static Node group(Rng& g, Node n)
{
    n.text  = "(" + space(g) + n.text + space(g) + ")";
    n.level = 5;
    return n;
}
static Node tree(Rng& g, int leaves)
{
    Node n;
    if (leaves <= 1)
        n = leaf(g);
    else
    {
        static char const opsyms[] = "+-*^&|+*";
        char op                    = opsyms[g.below(8)];
        int lv = (op == '+' || op == '-') ? 0 : op == '*' ? 1 : op == '^' ? 2 : op == '&' ? 3 : 4;
        int l  = 1 + g.below(leaves - 1);
        Node a = tree(g, l), b = tree(g, leaves - l);
        if (a.level < lv || g.chance(8)) a = group(g, a);
        if (b.level <= lv || g.chance(8)) b = group(g, b);
        n.kind  = 1;
        n.level = lv;
        n.text  = a.text + space(g) + op + space(g) + b.text;
        n.value = op == '+' ? sr::sum(a.value, b.value, 1) : op == '-' ? sr::sum(a.value, b.value, -1) : sr::prod(PGA, a.value, b.value, op);
    }
    if (g.chance(4))
    {
        if (n.level < 5) n = group(g, n);
        int k = 1 + g.below(3);
        bool neg = false, rv = false;
        std::string u;
        for (int i = 0; i < k; ++i)
        {
            char c = "-~+-~"[g.below(5)];
            if (c == '-') neg = !neg;
            if (c == '~') rv = !rv;
            u += c + space(g);
        }
        n.text = u + n.text;
        if (rv) n.value = sr::rev(n.value);
        if (neg) n.value = sr::neg(n.value);
    }
    if (g.chance(12)) n = group(g, n);
    return n;
}
static const double FLT = 64.0 / 8388608; // rounding of a short chain of float operations

static bool printsAs(std::string const& text, sr::Mv const& want, std::string& why)
{
    try
    {
        sr::Mv got = sr::Printed(text).all();
        if (same(got, want, 2e-5, 2e-5)) return true;
        why = "reads as " + sr::show(got);
    }
    catch (sr::Bad const& e)
    {
        why = std::string("unreadable: ") + e.what();
    }
    return false;
}
static void exprWork(Rng& g, uint64_t n)
{
    algebra A(3, 0, 1);
    for (uint64_t i = 0; i < n; ++i)
    {
        Node e = tree(g, 1 + g.below(g.chance(5) ? 14 : 6));
        if (sr::size(e.value) > 3000 || huge(e.value))
        {
            ++R.skipped;
            continue;
        }
        std::string text = space(g) + e.text + space(g);
        if (g.chance(40)) // redundant parentheses, many of them
        {
            int d = 2 + g.below(g.chance(2) ? 60 : 440);
            int inner = 0, now = 0;
            for (char c : text)
            {
                now += c == '(' ? 1 : c == ')' ? -1 : 0;
                inner = std::max(inner, now);
            }
            if (d + inner < 500) text = std::string(size_t(d), '(') + text + std::string(size_t(d), ')');
        }
        if (g.chance(150)) // many shallow groups, one after another
        {
            int k = 100 + g.below(1200), depth = 1 + g.below(4);
            std::string one = std::string(size_t(depth), '(') + "1" + std::string(size_t(depth), ')');
            bool times      = g.chance(2) && e.level >= 1;
            sr::Mv n;
            sr::add(n[0], sr::Mono(), times ? 1 : k, times ? 1 : k);
            if (!times && g.chance(2)) // of which none is like another
            {
                n.clear();
                for (int j = 0; j < k; ++j)
                {
                    std::string v = "n" + S(j);
                    text += "+" + std::string(size_t(depth), '(') + v + (j & 1 ? " e2" : "") + std::string(size_t(depth), ')');
                    sr::add(n[j & 1 ? 4 : 0], sr::Mono{{v, 1}}, 1, 1);
                }
                k = 0;
            }
            for (int j = 0; j < k; ++j) text += (times ? "*" : "+") + one;
            if (!times) e.value = sr::sum(e.value, n, 1);
        }
        // the reader of the model must agree with the tree it was written from
        sr::Mv rd;
        try
        {
            rd = sr::Reader(text, PGA).all();
        }
        catch (sr::TooBig const&)
        {
            ++R.skipped;
            continue;
        }
        catch (sr::Bad const& b)
        {
            std::fprintf(stderr, "model rejects '%s': %s\n", text.c_str(), b.what());
            std::exit(3);
        }
        if (!same(rd, e.value, 1e-12))
        {
            std::fprintf(stderr, "model disagrees on '%s'\n", text.c_str());
            std::exit(3);
        }
        try
        {
            mv m       = parse(text, A);
            sr::Mv got = mvOf(m);
            if (!R.check("value of an expression", text, same(got, e.value, FLT), "got " + sr::show(got) + " want " + sr::show(e.value), sr::size(e.value) > 0)) continue;
            std::ostringstream os;
            os << m;
            std::string why;
            R.check("printed value", text, printsAs(os.str(), e.value, why), "printed " + os.str() + " " + why + " want " + sr::show(e.value));
            mv m2 = parse(text, A);
            std::ostringstream os2;
            os2 << m2;
            R.check("same text, same result", text, os.str() == os2.str(), "", false);
        }
        catch (std::exception const& x)
        {
            R.check("valid expression accepted", text, false, x.what());
        }
        // other algebras: basis indices are limited by the dimension
        if (i % 4 == 0)
        {
            sr::Sig s = {g.below(4), g.below(3), g.below(3)};
            if (s.dim() == 0) s.r = 1;
            if (g.chance(3)) s.p += 5, s.q += g.below(2);
            if (s.dim() > 10) s.p -= s.dim() - 10;
            algebra B(uint32_t(s.p), uint32_t(s.q), uint32_t(s.r));
            std::string t2 = text;
            if (t2.find('&') != std::string::npos) continue;
            if (g.chance(2)) // wider elements than P(R*3,0,1) has
                for (int k = 1 + g.below(3); k > 0; --k)
                {
                    uint32_t b;
                    int sg;
                    t2 += std::string(" ") + "+-+*^"[g.below(5)] + " " + randElement(g, b, sg, g.chance(6) ? 10 : s.dim());
                }
            bool ok = true;
            sr::Mv want;
            try
            {
                want = sr::Reader(t2, s).all();
            }
            catch (sr::TooBig const&)
            {
                continue;
            }
            catch (sr::Bad const&)
            {
                ok = false;
            }
            try
            {
                mv m       = parse(t2, B);
                sr::Mv got = mvOf(m);
                R.check("value in another algebra", sigs(s) + " " + t2, ok && same(got, want, FLT), (ok ? "got " + sr::show(got) + " want " + sr::show(want) : "accepted an index outside of the algebra"));
                std::ostringstream os;
                os << m;
                std::string why;
                if (ok) R.check("printed value in another algebra", sigs(s) + " " + t2, printsAs(os.str(), want, why), "printed " + os.str() + " " + why);
            }
            catch (std::runtime_error const& x)
            {
                R.check("value in another algebra", sigs(s) + " " + t2, !ok, x.what());
            }
        }
    }
}

// ============================================================== C27 hostile
static std::string mutate(Rng& g, std::string s)
{
    int k = 1 + g.below(3);
    static char const alphabet[] = "()+-~*^&|e0123456789.xyz #,\t$=e1e9((()+-~*^&|.:;<>?@AZ[]\\_`{}!\"%'/\v\f\r";
    for (int i = 0; i < k; ++i)
    {
        size_t at = s.empty() ? 0 : size_t(g.below(int(s.size()) + 1));
        if (g.chance(4)) at = g.chance(3) ? 0 : s.size();
        switch (g.below(9))
        {
        case 0: s.insert(at, 1, alphabet[g.below(int(sizeof alphabet) - 1)]); break;
        case 1:
            if (at < s.size()) s.erase(at, size_t(1 + g.below(3)));
            break;
        case 2:
            if (at < s.size()) s[at] = alphabet[g.below(int(sizeof alphabet) - 1)];
            break;
        case 3: s.insert(at, 1, char(g.below(256))); break;
        case 4: s.resize(at); break;
        case 5:
            if (at < s.size()) s.insert(at, s.substr(at, size_t(g.below(12))));
            break;
        case 6: s.insert(at, size_t(1 + g.below(45)), char('0' + g.below(10))); break;
        case 7: s.insert(at, 1, '\0'); break;
        case 8: s.insert(at, size_t(1 + g.below(40)), alphabet[g.below(7)]); break;
        }
    }
    for (auto& c : s)
        if (c == '\n') c = ' ';
    return s;
}
static std::string hostile(Rng& g)
{
    static char const soup[] = "()()+-~*^&|e0123456789.xe1e2e3 ab ";
    std::string s;
    switch (g.below(10))
    {
    case 0:
    case 1:
    case 2: return mutate(g, tree(g, 1 + g.below(5)).text);
    case 3:
        for (int n = g.below(40); n > 0; --n) s += soup[g.below(int(sizeof soup) - 1)];
        return s;
    case 4:
        for (int n = g.below(24); n > 0; --n)
        {
            char c = char(g.below(256));
            s += c == '\n' ? ' ' : c;
        }
        return s;
    case 5: // numbers around and far beyond the length limit
    {
        int n = 26 + g.below(12);
        if (g.chance(4)) n = 100 + g.below(400);
        for (int i = 0; i < n; ++i) s += char('0' + g.below(10));
        if (g.chance(2)) s[size_t(g.below(int(s.size())))] = '.';
        if (g.chance(3)) s[size_t(g.below(int(s.size())))] = '.';
        if (g.chance(2)) s += " e1";
        return s;
    }
    case 6: // nesting, balanced and not
    {
        int n = 1 + g.below(60);
        if (g.chance(10)) n = 300 + g.below(3000);
        for (int i = 0; i < n; ++i) s += g.chance(6) ? (g.chance(2) ? "-(" : "~(") : "(";
        s += g.chance(5) ? "" : "e1";
        s += std::string(size_t(std::max(0, n + (g.chance(3) ? g.below(3) - 1 : 0))), ')');
        return s;
    }
    case 7: // basis elements
    {
        s = "e";
        for (int n = 1 + g.below(12); n > 0; --n) s += char('0' + (g.chance(4) ? g.below(10) : g.below(4)));
        if (g.chance(3)) s += "x";
        if (g.chance(3)) s += " e";
        if (g.chance(3)) s = "2" + s;
        return s;
    }
    case 8: // runs of operators
        for (int n = 1 + g.below(30); n > 0; --n) s += "+-~*^&|"[g.below(7)];
        if (g.chance(2)) s = "a" + s;
        if (g.chance(2)) s += "b";
        return s;
    default: // truncations and long chains
    {
        int n = 1 + g.below(50);
        for (int i = 0; i < n; ++i)
        {
            s += leaf(g).text;
            s += g.chance(10) ? " " : g.chance(2) ? "+" : " - ";
        }
        if (g.chance(2)) s += "e1";
        return s;
    }
    }
}
// what must happen to a line: +1 a value, -1 a rejection, 0 either
static int verdict(std::string const& s, sr::Sig sig, sr::Mv& val, bool& toobig)
{
    toobig = false;
    int depth = 0, deepest = 0;
    for (char c : s)
    {
        if (c == 0) break;
        if (c == '(' && ++depth > deepest) deepest = depth;
        if (c == ')' && depth > 0) --depth;
    }
    if (deepest > 600) return 0; // the model itself recurses
    sr::Reader rd(s, sig);
    try
    {
        val = rd.all();
        if (huge(val)) return 0;
        return deepest > 500 ? 0 : 1;
    }
    catch (sr::TooBig const&)
    {
        toobig = true;
        return 0;
    }
    catch (sr::Bad const&)
    {
        return -1;
    }
}
static char current[4096]; // shown by the watchdog
static void remember(std::string const& s)
{
    size_t n = std::min(s.size(), sizeof current - 1);
    std::memcpy(current, s.data(), n);
    for (size_t i = 0; i < n; ++i)
        if ((unsigned char)current[i] < 32) current[i] = '?';
    current[n] = 0;
}
static void onAlarm(int)
{
    static char const h[] = "FAIL\tterminates\t";
    (void)!write(1, h, sizeof h - 1);
    (void)!write(1, current, std::strlen(current));
    (void)!write(1, "\n", 1);
    _exit(0);
}
static void oneInput(std::string const& s, sr::Sig sig, algebra const& A)
{
    sr::Mv want;
    bool big;
    int v = verdict(s, sig, want, big);
    if (big)
    {
        ++R.skipped;
        return;
    }
    // the token stream
    try
    {
        std::vector<token> t = tokenize(s, A);
        bool ok              = !t.empty() && t.back().type == token_type::eof;
        for (size_t i = 0; i < t.size() && ok; ++i)
        {
            if (t[i].type == token_type::eof) ok = i + 1 == t.size();
            if (t[i].type == token_type::identifier)
                ok = t[i].id.size > 0 && t[i].id.data >= s.data() && t[i].id.data + t[i].id.size <= s.data() + s.size();
            if (t[i].type == token_type::element) ok = t[i].e.value != 0 && t[i].e.value <= A.pss();
        }
        R.check("tokens stay inside the input", s, ok);
    }
    catch (std::runtime_error const&)
    {
    }
    int got = 0;
    std::string detail;
    try
    {
        mv m = parse(s, A);
        got  = 1;
        if (v >= 0 && !want.empty() && !huge(want) && !same(mvOf(m), want, FLT)) detail = "got " + ms(m) + " want " + sr::show(want), got = 2;
        std::ostringstream os;
        os << m;
    }
    catch (std::runtime_error const& e)
    {
        got    = -1;
        detail = e.what();
    }
    if (v > 0) R.check("well formed text is evaluated", s, got == 1, detail);
    else if (v < 0) R.check("malformed text is rejected", s, got == -1, detail);
    else R.check("evaluated or rejected", s, got != 2, detail, false);
}
static void hostileWork(Rng& g, uint64_t n)
{
    std::signal(SIGALRM, onAlarm);
    algebra A(3, 0, 1);
    for (uint64_t i = 0; i < n; ++i)
    {
        std::string s = hostile(g);
        if (!s.empty() && g.chance(6)) s = mutate(g, s);
        remember(s);
        if (i % 64 == 0) alarm(20);
        // exactly sized heap copy, so that reads past the end are seen
        std::string t(s);
        t.shrink_to_fit();
        if (g.chance(5))
        {
            sr::Sig sig = {g.below(5), g.below(3), g.below(3)};
            if (sig.dim() == 0) sig.p = 1;
            if (t.find('&') != std::string::npos) continue;
            algebra B(uint32_t(sig.p), uint32_t(sig.q), uint32_t(sig.r));
            oneInput(t, sig, B);
        }
        else
            oneInput(t, PGA, A);
    }
    alarm(0);
}

// ================================================= the shell as a process
struct Line
{
    std::string text;
    int kind; // 0 blank 1 comment 2 command 3 value 4 rejected 5 either
    sr::Mv want;
};
static Line classify(std::string const& s, bool& ok)
{
    Line l;
    l.text = s;
    ok     = true;
    size_t i = 0;
    auto sp  = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while (i < s.size() && sp(s[i])) ++i;
    if (i == s.size()) l.kind = 0;
    else if (s[i] == '#') l.kind = 1;
    else if (s[i] == '.') l.kind = 2;
    else
    {
        bool big;
        int v  = verdict(s, PGA, l.want, big);
        ok     = !big;
        l.kind = v > 0 ? 3 : v < 0 ? 4 : 5;
    }
    return l;
}
static std::string slurp(std::string const& p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
static std::vector<std::string> lines(std::string const& s)
{
    std::vector<std::string> r;
    size_t b = 0;
    while (b < s.size())
    {
        size_t e = s.find('\n', b);
        if (e == std::string::npos) e = s.size();
        r.push_back(s.substr(b, e - b));
        b = e + 1;
    }
    return r;
}
// opt = "<shell>,<scratch directory>[,script...]"
static void session(std::string const& shell, std::string const& dir, std::vector<Line> const& in, bool newline, std::string const& prop)
{
    std::string fi = dir + "/in", fo = dir + "/out", fe = dir + "/err";
    {
        std::ofstream f(fi, std::ios::binary);
        for (size_t i = 0; i < in.size(); ++i) f << in[i].text << (i + 1 < in.size() || newline ? "\n" : "");
    }
    pid_t p = fork();
    if (p == 0)
    {
        rlimit cpu = {30, 30}, fs = {1u << 28, 1u << 28}, core = {0, 0};
        setrlimit(RLIMIT_CPU, &cpu);
        setrlimit(RLIMIT_FSIZE, &fs);
        setrlimit(RLIMIT_CORE, &core);
        alarm(60);
        if (!std::freopen(fi.c_str(), "rb", stdin) || !std::freopen(fo.c_str(), "wb", stdout) || !std::freopen(fe.c_str(), "wb", stderr)) _exit(97);
        execl(shell.c_str(), shell.c_str(), (char*)0);
        _exit(98);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) std::exit(3);
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    std::vector<std::string> out = lines(slurp(fo)), err = lines(slurp(fe));
    std::string how = WIFSIGNALED(st) ? "killed by signal " + S(WTERMSIG(st)) : "exit status " + S(WEXITSTATUS(st));
    size_t o = 0, either = 0, rejected = 0;
    bool bad = false;
    for (size_t i = 0; i < in.size() && !bad; ++i)
    {
        Line const& l = in[i];
        if (!newline && i + 1 == in.size() && l.text.empty()) break; // nothing to read
        std::string ctx = "line " + S(long(i)) + " of " + S(long(in.size())) + ": " + l.text.substr(0, 400);
        if (l.kind == 2) continue;
        if (l.kind == 4)
        {
            ++rejected;
            R.event("rejected line", l.text.substr(0, 400), true);
            continue;
        }
        if (l.kind == 5) // at most one of the streams moves; find out by what follows
        {
            ++either;
            continue;
        }
        if (o >= out.size())
        {
            R.check("every line is answered", ctx, false, clean ? "no more output" : how);
            bad = true;
            break;
        }
        std::string why;
        switch (l.kind)
        {
        case 0: bad = !R.check("blank line", ctx, out[o].empty(), "printed " + out[o], false); break;
        case 1: bad = !R.check("comment is echoed", ctx, out[o] == l.text, "printed " + out[o]); break;
        case 3: bad = !R.check("answer to a line", ctx, printsAs(out[o], l.want, why), "printed " + out[o] + " " + why + " want " + sr::show(l.want)); break;
        }
        ++o;
    }
    std::string tail;
    for (size_t i = in.size() > 6 ? in.size() - 6 : 0; i < in.size(); ++i) tail += in[i].text.substr(0, 40) + " / ";
    R.check("the session ends cleanly", prop + " " + S(long(in.size())) + " lines ... " + tail, clean, how + " " + (err.empty() ? "" : err.back()));
    if (!bad && clean)
    {
        R.check("nothing else is printed", "session of " + S(long(in.size())) + " lines", out.size() == o, "extra output " + (o < out.size() ? out[o] : ""), false);
        R.check("one message per rejected line", "session of " + S(long(in.size())) + " lines", err.size() == rejected, S(long(err.size())) + " messages for " + S(long(rejected)) + " rejected lines", false);
    }
    for (auto& f : {fi, fo, fe}) unlink(f.c_str());
}
// lines far longer than any fixed buffer
static Line longLine(Rng& g)
{
    Line l;
    int k  = 1 << (8 + g.below(9));
    k += g.below(k) - (g.chance(2) ? k / 2 : 0);
    l.kind = 3;
    switch (g.below(8))
    {
    case 7:
        k      = std::min(k, 5000);
        l.text = "1";
        sr::add(l.want[0], sr::Mono(), 1, 1);
        for (int i = 0; i < k; ++i)
        {
            std::string v = "m" + S(i);
            l.text += " + " + v;
            sr::add(l.want[0], sr::Mono{{v, 1}}, 1, 1);
        }
        break;
    case 0:
    case 1:
    {
        static char const* const one[] = {"+1", " + 1", "+(1)", "+\t1 "};
        char const* w = one[g.below(4)];
        l.text        = "1";
        for (int i = 0; i < k; ++i) l.text += w;
        sr::add(l.want[0], sr::Mono(), double(k) + 1, k + 1);
        break;
    }
    case 2:
        l.text = std::string(size_t(g.chance(2) ? 0 : k), " \t"[g.below(2)]) + "#" + std::string(size_t(k), 'x') + "(";
        l.kind = 1;
        break;
    case 3:
        l.text = std::string(size_t(k), ' ');
        l.kind = 0;
        break;
    case 4:
        l.text = std::string(size_t(k), ' ') + "7" + std::string(size_t(k), '\t') + "+" + std::string(size_t(k), ' ') + "e21";
        sr::add(l.want[0], sr::Mono(), 7, 7);
        sr::add(l.want[6], sr::Mono(), -1, 1);
        break;
    case 5:
    {
        std::string id = "q" + std::string(size_t(k), 'x');
        l.text         = id + " e1 * 2";
        sr::add(l.want[2], sr::Mono{{id, 1}}, 2, 2);
        break;
    }
    case 6:
        l.text = "1";
        for (int i = 0; i < k; ++i) l.text += "+1";
        l.text += g.chance(2) ? "+" : g.chance(2) ? ")" : g.chance(2) ? "#" : " # and a comment";
        l.kind = 4;
        break;
    }
    return l;
}
// a person at a terminal: the next line is entered only once the one before has
// been answered (or rejected, or could not call for an answer)
static bool dialogue(std::string const& shell, std::vector<Line> const& in, std::string const& prop)
{
    int m = posix_openpt(O_RDWR | O_NOCTTY);
    if (m < 0) return false;
    char const* sn = grantpt(m) == 0 && unlockpt(m) == 0 ? ptsname(m) : nullptr;
    int s          = sn ? open(sn, O_RDWR | O_NOCTTY) : -1;
    int e[2];
    if (s < 0 || pipe(e) != 0)
    {
        close(m);
        return false;
    }
    termios tio;
    tcgetattr(s, &tio);
    cfmakeraw(&tio);
    tcsetattr(s, TCSANOW, &tio);
    pid_t p = fork();
    if (p == 0)
    {
        rlimit cpu = {30, 30}, core = {0, 0};
        setrlimit(RLIMIT_CPU, &cpu);
        setrlimit(RLIMIT_CORE, &core);
        alarm(300);
        dup2(s, 0), dup2(s, 1), dup2(e[1], 2);
        close(m), close(s), close(e[0]), close(e[1]);
        execl(shell.c_str(), shell.c_str(), (char*)0);
        _exit(98);
    }
    close(e[1]), close(s);
    auto get = [](int fd, std::string& into) {
        std::string l;
        for (auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);;)
        {
            size_t k = into.find('\n');
            if (k != std::string::npos)
            {
                l = into.substr(0, k), into.erase(0, k + 1);
                return std::make_pair(true, l);
            }
            if (std::chrono::steady_clock::now() > end) return std::make_pair(false, std::string("nothing for 40 seconds"));
            pollfd pf = {fd, POLLIN, 0};
            poll(&pf, 1, 1000);
            if (!(pf.revents & (POLLIN | POLLHUP))) continue;
            char b[4096];
            ssize_t r = read(fd, b, sizeof b);
            if (r <= 0) return std::make_pair(false, std::string("the session is over"));
            into.append(b, size_t(r));
        }
    };
    std::string out, err;
    bool ok = true;
    for (size_t i = 0; i < in.size() && ok; ++i)
    {
        Line const& l   = in[i];
        std::string ctx = "entered at a terminal, line " + S(long(i)) + ": " + l.text.substr(0, 300), t = l.text + "\n";
        if (write(m, t.data(), t.size()) != ssize_t(t.size())) break;
        if (l.kind == 2 || l.kind == 5) continue;
        auto a = get(l.kind == 4 ? e[0] : m, l.kind == 4 ? err : out);
        std::string why;
        bool fits = l.kind == 0 ? a.second.empty() : l.kind == 1 ? a.second == l.text : l.kind == 3 ? printsAs(a.second, l.want, why) : true;
        ok = R.check("a line is answered before the next is entered", ctx, a.first && fits, (a.first ? "printed " : "") + a.second + " " + why);
    }
    close(m), close(e[0]);
    kill(p, SIGKILL);
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) std::exit(3);
    (void)prop;
    return true;
}
static void shellWork(Rng& g, uint64_t n, std::string const& prop, std::string const& opt)
{
    std::vector<std::string> o;
    {
        std::istringstream is(opt);
        for (std::string w; std::getline(is, w, ',');) o.push_back(w);
    }
    if (o.size() < 2) std::exit(3);
    char dir[] = "/tmp/vfshellXXXXXX";
    if (!mkdtemp(dir)) std::exit(3);
    bool rough = prop == "C27";
    // the scripts the project ships
    for (size_t i = 2; i < o.size(); ++i)
    {
        std::vector<Line> s;
        bool good = true;
        std::string text = slurp(o[i]);
        if (text.empty()) std::exit(3);
        for (auto& l : lines(text))
        {
            bool k;
            s.push_back(classify(l, k));
            good = good && k && s.back().kind != 5;
        }
        if (good) session(o[0], dir, s, true, prop + " script " + o[i]);
        else ++R.skipped;
    }
    uint64_t done = 0, sessions = 0;
    // a session of a day: more lines than sixteen bits count
    {
        std::vector<Line> s;
        for (int i = 0; i < 66500 + g.below(3000); ++i)
        {
            bool k;
            int q         = g.below(40);
            std::string v = S(1 + g.below(9999));
            s.push_back(classify(q == 0 ? "#" + v : q == 1 ? "" : q < 5 ? v + "e1 +" : q == 5 ? "." + v : q & 1 ? v + "e" + S(g.below(4)) : "a + " + v, k));
            if (!k || s.back().kind == 5) s.pop_back();
        }
        session(o[0], dir, s, true, prop);
        ++sessions;
    }
    uint64_t dialogues = 0;
    bool alert         = true;
    while (done < n)
    {
        std::vector<Line> s;
        int len = 1 + g.below(400);
        for (int i = 0; i < len; ++i)
        {
            std::string t;
            int k = g.below(24);
            if (k == 0) t = "";
            else if (k == 1) t = std::string(size_t(1 + g.below(4)), " \t"[g.below(2)]);
            else if (k == 2) t = std::string(size_t(g.chance(4) ? g.below(40) : g.below(3)), ' ') + "#" + (rough ? hostile(g) : " a comment, (1 + e1");
            else if (k == 3) t = g.chance(2) ? ".break" : g.chance(2) ? ".b" : std::string(".") + (rough ? hostile(g) : "");
            else if (k == 6 && !rough) t = mutate(g, tree(g, 1 + g.below(5)).text);
            else if (k == 4 || !rough) t = tree(g, 1 + g.below(5)).text;
            else if (k == 5) t = "1 + 1";
            else t = hostile(g);
            if (rough && g.chance(16)) t += "\r";
            for (auto& c : t)
                if (c == '\n') c = ' ';
            bool ok;
            Line l = classify(t, ok);
            if (!ok || l.kind == 5)
            {
                ++R.skipped;
                continue;
            }
            s.push_back(l);
            ++done;
            if (rough && l.kind == 4 && g.chance(4))
            {
                s.push_back(classify("1 + 1", ok));
                ++done;
            }
        }
        if (g.chance(3)) s.insert(s.begin() + g.below(int(s.size()) + 1), longLine(g));
        session(o[0], dir, s, g.chance(4) ? false : true, prop);
        ++sessions;
        if (sessions % 8 == 2 && alert)
        {
            std::vector<Line> d;
            for (auto& l : s)
                if (l.kind != 5 && l.text.size() < 400 && l.text.find('\0') == std::string::npos && d.size() < 150) d.push_back(l);
            uint64_t f = R.nfail;
            dialogues += dialogue(o[0], d, prop);
            alert = R.nfail == f; // silence takes long to establish
        }
        // lines that may be answered or rejected, each in a session of its own
        // between sentinels
        if (rough && sessions % 4 == 0)
        {
            static const int depths[] = {201, 400, 512, 513, 600, 5000, 50000, 300000};
            int d = depths[g.below(8)];
            std::string t(size_t(d), '('), fi = std::string(dir) + "/in", fo = std::string(dir) + "/out", fe = std::string(dir) + "/err";
            t += "1";
            if (!g.chance(4)) t += std::string(size_t(d), ')');
            {
                std::ofstream f(fi, std::ios::binary);
                f << "1 + 1\n" << t << "\n2 + 2\n";
            }
            std::string cmd = "ulimit -c 0; ulimit -s 8192; timeout 60 " + o[0] + " < " + fi + " > " + fo + " 2> " + fe;
            int rc          = std::system(cmd.c_str());
            auto out = lines(slurp(fo)), err = lines(slurp(fe));
            bool ok  = rc == 0 && out.size() + err.size() == 3 && out.size() >= 2 && out.front() == "2" && out.back() == "4" && (out.size() == 2 || out[1] == "1");
            R.check("deep nesting is answered or rejected", "nesting depth " + S(d), ok, "status " + S(rc) + " output lines " + S(long(out.size())) + " messages " + S(long(err.size())));
            for (auto& f : {fi, fo, fe}) unlink(f.c_str());
        }
    }
    rmdir(dir);
    R.extra.push_back({"sessions", sessions});
    R.extra.push_back({"dialogues", dialogues});
}

// ============================================================= C21 threads
static void threadWork(Rng& g, uint64_t n)
{
    static const int NT = 8;
    algebra A(3, 0, 1);
    std::vector<std::string> text;
    for (int i = 0; i < 60; ++i)
    {
        Node e = tree(g, 1 + g.below(6));
        if (!huge(e.value)) text.push_back(e.text);
        text.push_back(mutate(g, e.text));
        bool big;
        sr::Mv v;
        verdict(text.back(), PGA, v, big);
        if (big) text.pop_back();
    }
    mv const m = rmv(g, A, 4, 5, true), k = rmv(g, A, 4, 5, true);
    poly const p = rpoly(g, 5, 3), q = rpoly(g, 5, 3);
    size_t N = text.size() + 10;
    auto run = [&](size_t i) -> std::string {
        std::ostringstream os;
        if (i >= text.size())
        {
            switch (i - text.size())
            {
            case 0: os << m * k; break;
            case 1: os << (m ^ k); break;
            case 2: os << (m | k); break;
            case 3: os << (m & k); break;
            case 4: os << m + k << -m << ~k; break;
            case 5: os << p * q << p + q << -p; break;
            case 6:
                for (uint32_t a = 0; a < 16; ++a)
                    for (uint32_t b = 0; b < 16; ++b) os << A.mul(a, b) << A.ext(a, b) << A.reg(a, b) << A.dot(a, b) << A.rev(a) << A.dual(a);
                break;
            case 7:
                for (auto& t : p.terms) os << std::hash<mon>()(t.first) << t.first.degree();
                break;
            case 8:
            {
                mv c = m;
                c += c;
                c *= k;
                os << c;
                break;
            }
            case 9:
            {
                algebra B(2, 1, 1);
                mv z{B};
                z.push(3, p);
                os << z * z;
                break;
            }
            }
            return os.str();
        }
        try
        {
            os << parse(text[i], A);
        }
        catch (std::runtime_error const& e)
        {
            os << "rejected: " << e.what();
        }
        return os.str();
    };
    std::vector<std::vector<std::string>> res(NT, std::vector<std::string>(N)), bad(NT, std::vector<std::string>(N));
    std::atomic<int> busy(0);
    std::atomic<uint64_t> overl(0), runs(0);
    std::vector<std::thread> th;
    std::atomic<int> go(0);
    for (int t = 0; t < NT; ++t)
        th.emplace_back([&, t] {
            Rng lg(uint64_t(t) + 99);
            go.fetch_add(1, std::memory_order_relaxed);
            while (go.load(std::memory_order_relaxed) < NT) std::this_thread::yield();
            uint64_t ov = 0, my = 0;
            for (uint64_t r = 0; r < n; ++r)
                for (size_t i = 0; i < N; ++i)
                {
                    size_t j = r == 0 ? i : size_t(lg.below(int(N)));
                    if (busy.fetch_add(1, std::memory_order_relaxed) > 0) ++ov;
                    std::string s = run(j);
                    busy.fetch_sub(1, std::memory_order_relaxed);
                    ++my;
                    auto& f = res[size_t(t)][j];
                    if (f.empty()) f = s;
                    else if (f != s) bad[size_t(t)][j] = s;
                }
            overl.fetch_add(ov), runs.fetch_add(my);
        });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < N; ++i)
    {
        std::string alone = run(i);
        for (int t = 0; t < NT; ++t)
            R.check("symbolic work on " + S(NT) + " threads", (i < text.size() ? text[i] : "shared multivectors " + S(long(i - text.size()))) + " thread " + S(t),
                    res[size_t(t)][i] == alone && bad[size_t(t)][i].empty(), "alone " + alone + " concurrently " + res[size_t(t)][i] + " / " + bad[size_t(t)][i]);
    }
    R.extra.push_back({"task_runs", runs.load()});
    R.extra.push_back({"runs_with_other_threads_inside", overl.load()});
}

// ================================================= C31 nothing but the answer
#ifdef VF_COUNT
// blocks in use, and all blocks ever taken
static std::atomic<long> live(0), taken(0);
extern "C"
{
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (p) live.fetch_add(1, std::memory_order_relaxed), taken.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* calloc(size_t n, size_t m)
{
    void* p = __libc_calloc(n, m);
    if (p) live.fetch_add(1, std::memory_order_relaxed), taken.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    if (!q && p) live.fetch_add(1, std::memory_order_relaxed), taken.fetch_add(1, std::memory_order_relaxed);
    else if (q && !p && n == 0) live.fetch_sub(1, std::memory_order_relaxed);
    return p;
}
void* aligned_alloc(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (p) live.fetch_add(1, std::memory_order_relaxed), taken.fetch_add(1, std::memory_order_relaxed);
    return p;
}
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = aligned_alloc(a, n);
    return *p ? 0 : ENOMEM;
}
void free(void* p)
{
    if (p) live.fetch_sub(1, std::memory_order_relaxed);
    __libc_free(p);
}
}
static long inUse() { return live.load(std::memory_order_relaxed); }
static long everUsed() { return taken.load(std::memory_order_relaxed); }
#else
static long inUse() { return 0; }
static long everUsed() { return 0; }
#endif
static volatile unsigned char dirtSink;
__attribute__((noinline)) static void dirt(Rng& g)
{
    unsigned char volatile buf[20000];
    unsigned char w = "\0\xff\x01 e1"[g.below(6)];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = w;
    dirtSink = buf[w];
}
static uint32_t bitsOf(float f)
{
    uint32_t u;
    std::memcpy(&u, &f, 4);
    return u;
}
static void mix(uint64_t& h, uint64_t v) { h = Rng::scatter(h ^ (v + 0x9e3779b97f4a7c15ull)); }
static void digest(uint64_t& h, std::string const& s)
{
    mix(h, s.size());
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
}
static void digest(uint64_t& h, mon const& m)
{
    mix(h, m.factors.size());
    for (auto& f : m.factors) digest(h, f.first), mix(h, uint64_t(int64_t(f.second)));
}
static void digest(uint64_t& h, poly const& p)
{
    mix(h, p.terms.size());
    for (auto& t : p.terms) digest(h, t.first), mix(h, bitsOf(t.second));
}
static void digest(uint64_t& h, mv const& m)
{
    mix(h, m.terms.size());
    for (auto& t : m.terms) mix(h, t.first), digest(h, t.second);
}
// what a stream was set to
struct Form
{
    std::ios_base::fmtflags fl;
    std::streamsize pr, wi;
    char fi;
    std::ios_base::iostate st, ex;
    std::string loc;
    explicit Form(std::ostream& o)
        : fl(o.flags())
        , pr(o.precision())
        , wi(o.width())
        , fi(o.fill())
        , st(o.rdstate())
        , ex(o.exceptions())
        , loc(o.getloc().name())
    {}
    std::string diff(Form const& b) const
    {
        if (fl != b.fl) return "format flags " + S((long long)fl) + " became " + S((long long)b.fl);
        if (pr != b.pr) return "precision " + S(pr) + " became " + S(b.pr);
        if (wi != b.wi) return "width " + S(wi) + " became " + S(b.wi);
        if (fi != b.fi) return "fill character changed";
        if (st != b.st) return "state " + S(st) + " became " + S(b.st);
        if (ex != b.ex) return "exception mask changed";
        if (loc != b.loc) return "locale changed";
        return "";
    }
};
struct Job
{
    std::string name, text;
    std::function<void(uint64_t&)> f;
    std::string* says = nullptr;
};
static void pureWork(Rng& g, uint64_t n)
{
    static algebra const A(3, 0, 1), B(2, 1, 1), C(4, 1, 0);
    for (uint64_t w = 0; w < n; ++w)
    {
        std::vector<Job> jobs;
        unit = g.chance(3) ? 1.f : std::ldexp(1.f, g.below(81) - 40); // nothing is judged for rounding here
        // texts, several of them variants of each other
        std::vector<std::string> text;
        for (int i = 0; i < 12; ++i)
        {
            Node e = tree(g, 1 + g.below(6));
            if (huge(e.value) || sr::size(e.value) > 500) continue;
            text.push_back(e.text);
            text.push_back(e.text + " ");
            text.push_back(mutate(g, e.text));
            text.push_back("~(" + e.text + ")");
            std::string v = e.text;
            for (auto& c : v)
                if (c == 'a') c = 'b';
                else if (c == '1') c = '2';
            text.push_back(v);
        }
        for (int i = 0; i < 8; ++i) text.push_back(hostile(g));
        for (auto& t : text)
        {
            bool big;
            sr::Mv v;
            verdict(t, PGA, v, big);
            if (big || huge(v) || t.size() > 3000) continue;
            std::string const* s = new std::string(t);
            // one text in one or several algebras; the text and the algebra at
            // addresses of their own or where others have been before
            int lo = 0, hi = 0;
            if (t.find('&') == std::string::npos && g.chance(3)) lo = g.below(3), hi = g.chance(2) ? 2 : lo;
            for (int which = lo; which <= hi; ++which)
            {
                algebra const* al = which == 0 ? &A : which == 1 ? &B : &C;
                bool moved        = g.chance(2);
                jobs.push_back({"evaluation of a text", t, [s, al, moved](uint64_t& h) {
                                    try
                                    {
                                        static std::string line(4096, ' ');
                                        algebra here = *al;
                                        if (moved) line.assign(*s);
                                        mv m = moved ? parse(line, here) : parse(*s, *al);
                                        digest(h, m);
                                        std::ostringstream os;
                                        Form f0(os);
                                        os << m;
                                        digest(h, os.str());
                                        mix(h, f0.diff(Form(os)).empty());
                                    }
                                    catch (std::runtime_error const& e)
                                    {
                                        digest(h, std::string("rejected: ") + e.what());
                                    }
                                }});
            }
        }
        // operations on values that everything else reads as well
        struct Pool
        {
            std::vector<mv> m;
            std::vector<poly> p;
            std::vector<mon> o;
        };
        Pool* P = new Pool;
        for (int i = 0; i < 4; ++i) P->m.push_back(rmv(g, A, 4, 6, g.chance(2))), P->p.push_back(rpoly(g, 5, 3, g.chance(3))), P->o.push_back(rmon(g, 3, true));
        P->m.push_back(-P->m[0]), P->p.push_back(-P->p[0]), P->m.push_back(mv{A}), P->p.push_back(poly{});
        size_t NM = P->m.size(), NO = P->o.size();
        auto add = [&](char const* nm, size_t i, size_t j, std::function<void(uint64_t&)> f) {
            Job b;
            b.name = nm, b.text = ms(P->m[i]) + " and " + ms(P->m[j]), b.f = f;
            jobs.push_back(b);
        };
        for (int k = 0; k < 16; ++k)
        {
            size_t i = size_t(g.below(int(NM))), j = size_t(g.below(int(NM))), o = i % NO, q = j % NO;
            add("sums and products of multivectors", i, j, [=](uint64_t& h) {
                mv const &a = P->m[i], &b = P->m[j];
                digest(h, a + b), digest(h, a * b), digest(h, a ^ b), digest(h, a | b), digest(h, a & b), digest(h, -a), digest(h, ~b);
            });
            add("compound assignment of multivectors", i, j, [=](uint64_t& h) {
                mv const &a = P->m[i], &b = P->m[j];
                mv c = a;
                c += b, digest(h, c), c -= b, digest(h, c), c *= b, digest(h, c), c ^= a, digest(h, c), c |= b, digest(h, c), c &= a, digest(h, c);
                c = a, c += c, digest(h, c), c = b, c -= c, digest(h, c), c = a, c *= c, digest(h, c);
            });
            add("temporaries", i, j, [=](uint64_t& h) {
                mv const &a = P->m[i], &b = P->m[j];
                digest(h, -(a + b)), digest(h, ~(a * b)), digest(h, -~(a ^ b)), digest(h, ~~(a | b)), digest(h, -mv(a)), digest(h, ~mv(b));
                poly const &p = P->p[i], &q = P->p[j];
                digest(h, -(p + q)), digest(h, -poly(p)), digest(h, -(p * q));
            });
            add("terms pushed into a copy", i, j, [=](uint64_t& h) {
                mv c = P->m[i];
                c.push(3, P->p[j]), digest(h, c), c.push(3, -P->p[j]), digest(h, c);
                poly d = P->p[i];
                d.push(P->o[q], 2.f), digest(h, d), d.push(P->o[q], -2.f), digest(h, d);
                mon e = P->o[o];
                e.push("x", 2), digest(h, e), e.push("x", -2), digest(h, e);
            });
            add("polynomials", i, j, [=](uint64_t& h) {
                poly const &a = P->p[i], &b = P->p[j];
                digest(h, a + b), digest(h, a * b), digest(h, -a);
                poly c = a;
                c += b, digest(h, c), c *= b, digest(h, c), c += c, digest(h, c), c = b, c *= c, digest(h, c);
                mon const &x = P->o[o], &y = P->o[q];
                digest(h, x * y), mix(h, x == y), mix(h, x < y), mix(h, y < x), mix(h, uint64_t(x.degree())), mix(h, std::hash<mon>()(x));
                mon z = x;
                z *= y, digest(h, z);
            });
            // a caller's stream, set up in some way
            std::ios_base::fmtflags fl = g.chance(2) ? std::ios_base::dec : g.chance(2) ? std::ios_base::hex | std::ios_base::showbase : std::ios_base::oct;
            if (g.chance(2)) fl |= g.chance(2) ? std::ios_base::fixed : std::ios_base::scientific;
            if (g.chance(3)) fl |= std::ios_base::showpos | std::ios_base::uppercase;
            if (g.chance(3)) fl |= std::ios_base::boolalpha | std::ios_base::left | std::ios_base::showpoint;
            std::streamsize pr   = g.chance(2) ? 6 : g.below(12);
            char fi              = g.chance(2) ? ' ' : '*';
            std::string const* t = new std::string(text.empty() ? "a" : text[size_t(g.below(int(text.size())))]);
            Job b;
            b.name = "printing to a stream of the caller's", b.text = ms(P->m[i]) + " " + *t;
            std::string* said = b.says = new std::string;
            b.f = [=](uint64_t& h) {
                std::ostringstream os;
                os.flags(fl), os.precision(pr), os.fill(fi);
                auto judge = [&](char const* what, Form const& was) {
                    std::string d = was.diff(Form(os));
                    if (!d.empty()) *said = std::string(what) + ": " + d;
                };
                Form f0(os);
                os << P->m[i], judge("multivector", f0);
                os << P->p[j], judge("polynomial", f0);
                os << P->m[i] * P->m[j], judge("product of multivectors", f0);
                os << P->p[i] * P->p[j], judge("product of polynomials", f0);
                try
                {
                    std::vector<token> tk = tokenize(*t, A);
                    os << tk, judge("tokens", f0);
                    if (!tk.empty()) os << tk[0], judge("token", f0);
                    os << 255 << ' ' << 1.5f;
                }
                catch (std::runtime_error const&)
                {
                }
                digest(h, os.str());
                // a stream that refuses is left as refusing
                std::ostream none(nullptr);
                Form f1(none);
                none << P->m[i] << P->p[j];
                Form f2(none);
                f2.st         = f1.st; // it may complain
                std::string d = f1.diff(f2);
                if (!d.empty()) *said = "stream without a buffer: " + d;
            };
            jobs.push_back(b);
            add("products of basis elements", i, j, [=](uint64_t& h) {
                for (uint32_t a = 0; a < 16; ++a)
                    for (uint32_t c = 0; c < 16; ++c)
                        for (auto al : {&A, &B}) mix(h, uint64_t(int64_t(al->mul(a, c)))), mix(h, uint64_t(int64_t(al->ext(a, c)))), mix(h, uint64_t(int64_t(al->dot(a, c)))), mix(h, al->rev(a));
            });
        }
        uint64_t pool = 0;
        auto poolNow  = [&] {
            uint64_t h = 0;
            for (auto& m : P->m) digest(h, m);
            for (auto& p : P->p) digest(h, p);
            for (auto& o : P->o) digest(h, o);
            return h;
        };
        pool = poolNow();
        size_t N = jobs.size();
        std::vector<uint64_t> first(N, 0);
        std::vector<std::string> bad(N);
        std::vector<uint64_t> runs(N, 0);
        std::vector<size_t> order(N);
        for (size_t i = 0; i < N; ++i) order[i] = i;
        std::fflush(stdout), std::fflush(stderr), std::cout.flush();
        int out1 = dup(1), out2 = dup(2), fd = memfd_create("streams", 0);
        dup2(fd, 1), dup2(fd, 2);
        Form cout0(std::cout), cerr0(std::cerr);
        std::string global0 = std::locale().name();
        for (int rep = 0; rep < 7; ++rep)
        {
            if (rep > 0)
                for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[size_t(g.below(int(i)))]);
            for (size_t i = 0; i < N; ++i)
            {
                size_t j = order[i];
                for (int again = 1 + (g.chance(6) && rep > 0); again > 0; --again)
                {
                    dirt(g);
                    uint64_t h = 1;
                    long b0    = inUse();
                    jobs[j].f(h);
                    long b1 = inUse();
                    ++runs[j];
                    if (rep == 0) first[j] = h;
                    else
                    {
                        if (h != first[j]) bad[j] = "answers differently than at first";
                        if (b1 != b0) bad[j] = "keeps " + S(b1 - b0) + " blocks of memory";
                    }
                    if (jobs[j].says && !jobs[j].says->empty()) bad[j] = *jobs[j].says;
                }
            }
            if (poolNow() != pool)
            {
                for (auto& b : bad)
                    if (b.empty()) b = "an operand that was only to be read has changed";
                pool = poolNow();
            }
        }
        std::cout.flush(), std::cerr.flush(), std::fflush(stdout), std::fflush(stderr);
        long wrote = long(lseek(fd, 0, SEEK_END));
        dup2(out1, 1), dup2(out2, 2), close(out1), close(out2), close(fd);
        for (size_t i = 0; i < N; ++i)
        {
            R.evaluations += runs[i] - 1;
            R.ops[jobs[i].name] += runs[i] - 1;
            R.check(jobs[i].name, jobs[i].text, bad[i].empty(), bad[i]);
        }
        R.check("nothing is written to the standard streams", S(long(w)), wrote == 0, S(wrote) + " bytes", false);
        R.check("standard streams keep their settings", S(long(w)), cout0.diff(Form(std::cout)).empty() && cerr0.diff(Form(std::cerr)).empty() && global0 == std::locale().name(), "", false);
    }
    R.extra.push_back({"blocks_taken", uint64_t(everUsed())});
}

#ifdef VF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* d, size_t n)
{
    static algebra const A(3, 0, 1);
    R.quiet = true;
    if (n > 400) return 0;
    std::string s(reinterpret_cast<char const*>(d), n);
    for (auto& c : s)
        if (c == '\n') c = ' ';
    uint64_t f = R.nfail;
    R.distinct.clear();
    R.samples.clear();
    oneInput(s, PGA, A);
    if (R.nfail != f) std::abort();
    return 0;
}
#else
int main(int argc, char** argv)
{
    std::string prop, mode, opt;
    uint64_t seed = 1, n = 1000;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v;
        else if (k == "--mode") mode = v;
        else if (k == "--seed") seed = std::strtoull(v.c_str(), 0, 10);
        else if (k == "--n") n = std::strtoull(v.c_str(), 0, 10);
        else if (k == "--opt") opt = v;
        else if (k != "--tol") return 3;
    }
    Rng g(seed);
    if (mode == "algebra") algebraWork(g, n);
    else if (mode == "poly") polyWork(g, n);
    else if (mode == "expr") exprWork(g, n);
    else if (mode == "hostile") hostileWork(g, n);
    else if (mode == "shell") shellWork(g, n, prop, opt);
    else if (mode == "threads") threadWork(g, n);
    else if (mode == "pure") pureWork(g, n);
    else return 3;
    return R.finish();
}
#endif
