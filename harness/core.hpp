// Monitoring core: an independent reference model of the algebra in double
// precision, an event recorder, and the input generators shared by all
// workloads. C++11 on purpose: the same harness observes every build of the
// library.
#pragma once
#include <klein/klein.hpp>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) // scattered: nearby seeds must not share a stream
        : s(scatter(seed + 0x1234567))
    {}
    static uint64_t scatter(uint64_t z)
    {
        for (int i = 0; i < 3; ++i)
        {
            z ^= z >> 33;
            z *= 0xff51afd7ed558ccdull;
            z ^= z >> 29;
            z *= 0xc4ceb9fe1a85ec53ull;
        }
        return z ^ (z >> 32);
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return int(next() % uint64_t(n)); }
    double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    bool chance(int n) { return below(n) == 0; }
};

inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint32_t fbits(float f)
{
    uint32_t u;
    std::memcpy(&u, &f, 4);
    return u;
}

// ------------------------------------------------- reference multivector
// Blade index = bitmask of e0 e1 e2 e3 (bit 0 = e0), factors in ascending
// order. Every coefficient carries the sum of the magnitudes of the terms that
// produced it: the scale against which float rounding is judged.
static const int NB = 16;

struct Tables
{
    int8_t gs[NB][NB]; // sign of the geometric product
    Tables()
    {
        for (int a = 0; a < NB; ++a)
            for (int b = 0; b < NB; ++b)
            {
                // concatenate the factor lists and bubble sort
                int f[8], n = 0;
                for (int i = 0; i < 4; ++i)
                    if (a >> i & 1) f[n++] = i;
                for (int i = 0; i < 4; ++i)
                    if (b >> i & 1) f[n++] = i;
                int sign = 1;
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j + 1 < n; ++j)
                        if (f[j] > f[j + 1])
                        {
                            std::swap(f[j], f[j + 1]);
                            sign = -sign;
                        }
                for (int j = 0; j + 1 < n; ++j)
                    if (f[j] == f[j + 1] && f[j] == 0) sign = 0;
                gs[a][b] = int8_t(sign);
            }
    }
};
inline Tables const& T()
{
    static const Tables t;
    return t;
}
inline int grade(int b) { return __builtin_popcount(unsigned(b)); }

struct MV
{
    double v[NB], m[NB];
    MV()
    {
        for (int i = 0; i < NB; ++i) v[i] = m[i] = 0;
    }
    double operator[](int i) const { return v[i]; }
    void set(int b, double x)
    {
        v[b] = x;
        m[b] = std::fabs(x);
    }
};
inline MV blade(int b, double x)
{
    MV r;
    r.set(b, x);
    return r;
}
template <class F>
inline MV prod(MV const& a, MV const& b, F keep)
{
    MV r;
    for (int i = 0; i < NB; ++i)
    {
        if (a.m[i] == 0) continue;
        for (int j = 0; j < NB; ++j)
        {
            if (b.m[j] == 0) continue;
            int s = T().gs[i][j];
            if (!s || !keep(i, j)) continue;
            r.v[i ^ j] += s * a.v[i] * b.v[j];
            r.m[i ^ j] += a.m[i] * b.m[j];
        }
    }
    return r;
}
inline MV operator*(MV const& a, MV const& b)
{
    return prod(a, b, [](int, int) { return true; });
}
inline MV operator^(MV const& a, MV const& b)
{
    return prod(a, b, [](int i, int j) { return (i & j) == 0; });
}
inline MV operator|(MV const& a, MV const& b)
{
    return prod(a, b, [](int i, int j) {
        return grade(i ^ j) == std::abs(grade(i) - grade(j));
    });
}
inline MV operator+(MV const& a, MV const& b)
{
    MV r;
    for (int i = 0; i < NB; ++i)
    {
        r.v[i] = a.v[i] + b.v[i];
        r.m[i] = a.m[i] + b.m[i];
    }
    return r;
}
inline MV operator*(double s, MV const& a)
{
    MV r;
    for (int i = 0; i < NB; ++i)
    {
        r.v[i] = s * a.v[i];
        r.m[i] = std::fabs(s) * a.m[i];
    }
    return r;
}
inline MV operator-(MV const& a) { return -1.0 * a; }
inline MV operator-(MV const& a, MV const& b) { return a + (-b); }
inline MV rev(MV const& a)
{
    MV r = a;
    for (int i = 0; i < NB; ++i)
        if (grade(i) & 2) r.v[i] = -r.v[i];
    return r;
}
// Forget where the coefficients came from
inline MV flat(MV a)
{
    for (int i = 0; i < NB; ++i) a.m[i] = std::fabs(a.v[i]);
    return a;
}

// Klein's oriented basis: name, bitmask, sign relative to ascending order
enum
{
    S   = 0,
    E0  = 1,
    E1  = 2,
    E2  = 4,
    E3  = 8,
    E01 = 3,
    E02 = 5,
    E03 = 9,
    E12 = 6,
    E31 = 10, // -e13
    E23 = 12,
    E021 = 7,   // -e012
    E013 = 11,  // e013
    E032 = 13,  // -e023
    E123 = 14,
    E0123 = 15
};
inline double orient(int b) { return (b == E31 || b == E021 || b == E032) ? -1. : 1.; }
inline char const* bname(int b)
{
    static char const* n[16] = {"1",   "e0",  "e1",   "e01",  "e2",  "e02",
                                "e12", "e021", "e3",   "e03",  "e31", "e013",
                                "e23", "e032", "e123", "e0123"};
    return n[b];
}
// Poincare duality map on the oriented basis: e0<->e123, e1<->e032, ...
inline MV dualJ(MV const& a)
{
    MV r;
    for (int b = 0; b < NB; ++b)
    {
        int c  = 15 ^ b;
        r.v[c] = orient(c) * orient(b) * a.v[b];
        r.m[c] = a.m[b];
    }
    return r;
}
inline MV join(MV const& a, MV const& b) { return dualJ(dualJ(a) ^ dualJ(b)); }

// ------------------------------------------------------------ observation
enum Kind
{
    PLANE,
    POINT,
    DIR,
    LINE,
    BRANCH,
    IDEAL,
    ROTOR,
    TRANS,
    MOTOR,
    DUAL,
    SCALAR,
    ORIGIN,
    NKIND
};
inline char const* kname(int k)
{
    static char const* n[]
        = {"plane", "point", "direction", "line",  "branch", "ideal_line",
           "rotor", "translator", "motor", "dual", "float", "origin"};
    return n[k];
}
struct KindInfo
{
    int n;
    int b[8];
};
inline KindInfo const& kinfo(int k)
{
    static const KindInfo t[NKIND] = {
        {4, {E1, E2, E3, E0}},
        {4, {E032, E013, E021, E123}},
        {3, {E032, E013, E021}},
        {6, {E01, E02, E03, E23, E31, E12}},
        {3, {E23, E31, E12}},
        {3, {E01, E02, E03}},
        {4, {S, E23, E31, E12}},
        {3, {E01, E02, E03}},
        {8, {S, E23, E31, E12, E01, E02, E03, E0123}},
        {2, {S, E0123}},
        {1, {S}},
        {0, {0}},
    };
    return t[k];
}
template <class X>
struct KindOf;
#define VF_KIND(X, K)               \
    template <>                     \
    struct KindOf<X>                \
    {                               \
        enum                        \
        {                           \
            k = K                   \
        };                          \
    };
VF_KIND(kln::plane, PLANE)
VF_KIND(kln::point, POINT)
VF_KIND(kln::direction, DIR)
VF_KIND(kln::line, LINE)
VF_KIND(kln::branch, BRANCH)
VF_KIND(kln::ideal_line, IDEAL)
VF_KIND(kln::rotor, ROTOR)
VF_KIND(kln::translator, TRANS)
VF_KIND(kln::motor, MOTOR)
VF_KIND(kln::dual, DUAL)
VF_KIND(float, SCALAR)
VF_KIND(kln::origin, ORIGIN)

struct Obs // components in kinfo order, read through the public accessors
{
    float c[8];
};
inline Obs obs(kln::plane const& p) { return {{p.x(), p.y(), p.z(), p.d()}}; }
inline Obs obs(kln::point const& p) { return {{p.x(), p.y(), p.z(), p.w()}}; }
inline Obs obs(kln::direction const& p) { return {{p.x(), p.y(), p.z()}}; }
inline Obs obs(kln::line const& l)
{
    return {{l.e01(), l.e02(), l.e03(), l.e23(), l.e31(), l.e12()}};
}
inline Obs obs(kln::branch const& l) { return {{l.e23(), l.e31(), l.e12()}}; }
inline Obs obs(kln::ideal_line const& l) { return {{l.e01(), l.e02(), l.e03()}}; }
inline Obs obs(kln::rotor const& r)
{
    return {{r.scalar(), r.e23(), r.e31(), r.e12()}};
}
inline Obs obs(kln::translator const& t) { return {{t.e01(), t.e02(), t.e03()}}; }
inline Obs obs(kln::motor const& m)
{
    return {{m.scalar(), m.e23(), m.e31(), m.e12(), m.e01(), m.e02(), m.e03(),
             m.e0123()}};
}
inline Obs obs(kln::dual const& d) { return {{d.scalar(), d.e0123()}}; }
inline Obs obs(float f) { return {{f}}; }
inline Obs obs(kln::origin const&) { return {{0}}; }

inline MV toMV(int k, Obs const& o)
{
    MV r;
    KindInfo const& ki = kinfo(k);
    for (int i = 0; i < ki.n; ++i) r.set(ki.b[i], orient(ki.b[i]) * double(o.c[i]));
    if (k == TRANS) r.set(S, 1);
    if (k == ORIGIN) r.set(E123, 1);
    return r;
}
template <class X>
inline MV mv(X const& x)
{
    return toMV(KindOf<X>::k, obs(x));
}

// A value of any library type. It keeps the object representation the library
// produced (including lanes no accessor shows), so that histories of operations
// run on what the library really hands out.
struct Obj
{
    alignas(16) unsigned char b[32];
    int k;
    Obj()
        : k(-1)
    {}
    template <class X>
    X as() const
    {
        X x;
        std::memcpy(static_cast<void*>(&x), b, sizeof(X));
        return x;
    }
    template <class X>
    void set(X const& x)
    {
        static_assert(sizeof(X) <= 32, "");
        k = KindOf<X>::k;
        std::memcpy(b, static_cast<void const*>(&x), sizeof(X));
    }
    Obs observe() const
    {
        switch (k)
        {
        case PLANE: return obs(as<kln::plane>());
        case POINT: return obs(as<kln::point>());
        case DIR: return obs(as<kln::direction>());
        case LINE: return obs(as<kln::line>());
        case BRANCH: return obs(as<kln::branch>());
        case IDEAL: return obs(as<kln::ideal_line>());
        case ROTOR: return obs(as<kln::rotor>());
        case TRANS: return obs(as<kln::translator>());
        case MOTOR: return obs(as<kln::motor>());
        case DUAL: return obs(as<kln::dual>());
        case SCALAR: return obs(as<float>());
        default: return Obs();
        }
    }
    MV value() const { return toMV(k, observe()); }
};

// Build a value from chosen coefficients with the plainest constructor of its
// type. (C16 judges these constructors on their own.)
inline Obj make(int k, float const* c)
{
    Obj o;
    switch (k)
    {
    case PLANE: o.set(kln::plane(c[0], c[1], c[2], c[3])); break;
    case POINT:
    {
        kln::point p;
        float d[4] = {c[3], c[0], c[1], c[2]};
        p.load(d);
        o.set(p);
        break;
    }
    case DIR:
    {
        float d[4] = {0.f, c[0], c[1], c[2]};
        o.set(kln::direction(d));
        break;
    }
    case LINE: o.set(kln::line(c[0], c[1], c[2], c[3], c[4], c[5])); break;
    case BRANCH: o.set(kln::branch(c[0], c[1], c[2])); break;
    case IDEAL: o.set(kln::ideal_line(c[0], c[1], c[2])); break;
    case ROTOR:
    {
        kln::rotor r;
        float d[4] = {c[0], c[1], c[2], c[3]};
        r.load_normalized(d);
        o.set(r);
        break;
    }
    case TRANS:
    {
        kln::translator t;
        float d[4] = {0.f, c[0], c[1], c[2]};
        t.load_normalized(d);
        o.set(t);
        break;
    }
    case MOTOR:
        o.set(kln::motor(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]));
        break;
    case DUAL:
    {
        kln::dual d;
        d.p = c[0];
        d.q = c[1];
        o.set(d);
        break;
    }
    case SCALAR: o.set(c[0]); break;
    case ORIGIN: o.set(kln::origin()); break;
    }
    return o;
}
template <class X>
inline X mk(float const* c)
{
    return make(KindOf<X>::k, c).template as<X>();
}

// -------------------------------------------------------------- recorder
struct Recorder
{
    std::string prop;
    uint64_t evaluations = 0, judged = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> per_op;
    std::map<std::string, uint64_t> fails;
    std::vector<std::string> samples;
    uint64_t nfail = 0, skipped = 0;
    double worst = 0;
    std::string worst_op;

    void event(std::string const& op, uint64_t hash, bool nontriv)
    {
        ++evaluations;
        ++judged;
        ++per_op[op];
        if (nontriv)
        {
            uint64_t h = hmix(hash, std::hash<std::string>()(op));
            if (distinct.size() < 3000000) { if (distinct.insert(h).second) ++nontrivial; }
        }
    }
    void sample(std::string const& s, uint64_t every = 9973)
    {
        if (samples.size() < 6 && (evaluations % every == 1 || samples.size() < 2))
            samples.push_back(s);
    }
    void fail(std::string const& op, std::string const& detail)
    {
        ++nfail;
        if (fails[op]++ < 3)
        {
            std::string d = detail;
            for (auto& c : d)
                if (c == '\n') c = ' ';
            std::printf("FAIL\t%s\t%s\n", op.c_str(), d.c_str());
            std::fflush(stdout);
        }
    }
    int finish()
    {
        std::printf("STAT\tevaluations\t%llu\n", (unsigned long long)evaluations);
        std::printf("STAT\tdistinct\t%llu\n", (unsigned long long)nontrivial);
        std::printf("STAT\tskipped\t%llu\n", (unsigned long long)skipped);
        std::printf("STAT\tfails\t%llu\n", (unsigned long long)nfail);
        std::printf("WORST\t%s\t%.4f\n", worst_op.c_str(), worst);
        for (auto& kv : per_op)
            std::printf("OP\t%s\t%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        for (auto& s : samples) std::printf("SAMPLE\t%s\n", s.c_str());
        std::printf("DONE\n");
        std::fflush(stdout);
        return 0;
    }
};
inline Recorder& R()
{
    static Recorder r;
    return r;
}

inline std::string fmt(char const* f, double a)
{
    char buf[64];
    std::snprintf(buf, sizeof buf, f, a);
    return buf;
}
inline std::string show(int k, Obs const& o)
{
    std::string s = kname(k);
    s += "(";
    KindInfo const& ki = kinfo(k);
    for (int i = 0; i < ki.n; ++i)
    {
        if (i) s += ", ";
        s += bname(ki.b[i]);
        s += "=";
        s += fmt("%.9g", o.c[i]);
    }
    return s + ")";
}
inline std::string show(Obj const& o) { return show(o.k, o.observe()); }
template <class X>
inline std::string showx(X const& x)
{
    return show(KindOf<X>::k, obs(x));
}
inline std::string show(MV const& a)
{
    std::string s;
    for (int b = 0; b < NB; ++b)
        if (a.v[b] != 0)
        {
            if (!s.empty()) s += " ";
            s += bname(b);
            s += "=";
            s += fmt("%.9g", orient(b) * a.v[b]);
        }
    return s.empty() ? "0" : s;
}
inline uint64_t hobs(uint64_t h, int k, Obs const& o)
{
    for (int i = 0; i < kinfo(k).n; ++i) h = hmix(h, fbits(o.c[i]));
    return h;
}

// Unit of rounding room: 2^-22, the accuracy of one Newton step on the hardware
// reciprocal estimates. Builds on emulated estimates get a multiple (--tol).
static double U22 = 1.0 / 4194304.0;

// Scalar judgement: |got - want| within K * 2^-22 * scale
inline bool near(std::string const& op,
                 double got,
                 double want,
                 double scale,
                 double K,
                 double floor_ = 1e-30)
{
    double tol = K * U22 * scale + floor_;
    double err = std::fabs(got - want);
    if (!(err <= tol)) return false;
    double r = tol > 0 ? err / tol : 0;
    if (r > R().worst && err > 1e-25)
    {
        R().worst    = r;
        R().worst_op = op;
    }
    return true;
}

// Does an observed value agree with the expected multivector? Returns the
// offending blade or -1.
inline int agrees(std::string const& op, int k, Obs const& o, MV const& e, double K, double fl = 1e-30)
{
    KindInfo const& ki = kinfo(k);
    for (int i = 0; i < ki.n; ++i)
    {
        int b = ki.b[i];
        if (!near(op, orient(b) * double(o.c[i]), e.v[b], e.m[b], K, fl)) return b;
    }
    return -1;
}
inline bool finite(MV const& a)
{
    for (int i = 0; i < NB; ++i)
        if (!std::isfinite(a.v[i]) || !std::isfinite(a.m[i])) return false;
    return true;
}
inline bool finite(int k, Obs const& o)
{
    for (int i = 0; i < kinfo(k).n; ++i)
        if (!std::isfinite(o.c[i])) return false;
    return true;
}
inline double maxabs(int k, Obs const& o)
{
    double m = 0;
    for (int i = 0; i < kinfo(k).n; ++i) m = std::max(m, std::fabs(double(o.c[i])));
    return m;
}
inline double maxm(MV const& a)
{
    double m = 0;
    for (int i = 0; i < NB; ++i) m = std::max(m, a.m[i]);
    return m;
}
inline double maxv(MV const& a)
{
    double m = 0;
    for (int i = 0; i < NB; ++i) m = std::max(m, std::fabs(a.v[i]));
    return m;
}

// Judge one operation and record it.
template <class Out>
inline bool judge(std::string const& op,
                  std::string const& in,
                  uint64_t h,
                  Out const& out,
                  MV const& want,
                  double K,
                  double fl = 1e-30)
{
    Obs o = obs(out);
    R().event(op, h, maxv(want) > 0);
    R().sample(op + ": " + in + " -> " + show(KindOf<Out>::k, o));
    int b = agrees(op, KindOf<Out>::k, o, want, K, fl);
    if (b >= 0)
    {
        R().fail(op,
                 in + " -> " + show(KindOf<Out>::k, o) + " expected " + show(want)
                     + " (differs in " + bname(b) + ", scale " + fmt("%.4g", want.m[b])
                     + ")");
        return false;
    }
    return true;
}
inline bool check(std::string const& op, std::string const& in, uint64_t h, bool ok, bool nontriv = true)
{
    R().event(op, h, nontriv);
    R().sample(op + ": " + in);
    if (!ok) R().fail(op, in);
    return ok;
}

// ------------------------------------------------------------ generators
inline float special(Rng& g)
{
    static const float t[] = {0.f,  -0.f, 1.f,   -1.f,  2.f,  -2.f, 0.5f,  -0.5f,
                              3.f,  -3.f, 0.25f, 10.f,  -7.f, 1.5f, 100.f, -64.f,
                              0.1f, -0.3f, 0.001f, 1e-4f};
    return t[g.below(int(sizeof t / sizeof *t))];
}
inline float coef(Rng& g, int style)
{
    switch (style)
    {
    case 0: return float(g.uni(-10, 10));
    case 1: return float(g.below(7) - 3);
    case 2: return g.chance(3) ? float(g.uni(-3, 3)) : (g.chance(2) ? 0.f : -0.f);
    case 3:
    {
        double s = g.chance(2) ? 1 : -1, m = g.uni(1, 2);
        return float(s * std::ldexp(m, g.below(17) - 8));
    }
    case 4: return special(g);
    case 6: // far apart magnitudes
    {
        double s = g.chance(2) ? 1 : -1, m = g.uni(1, 2);
        return float(s * std::ldexp(m, g.below(49) - 24));
    }
    default: return float(g.uni(-1, 1));
    }
}
static const int NSTYLE = 6;
inline void unit3(Rng& g, double* a)
{
    if (g.chance(5))
    {
        // axis aligned or diagonal
        do
        {
            for (int i = 0; i < 3; ++i) a[i] = g.below(3) - 1;
        } while (a[0] == 0 && a[1] == 0 && a[2] == 0);
    }
    else
    {
        double n;
        do
        {
            for (int i = 0; i < 3; ++i) a[i] = g.uni(-1, 1);
            n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
        } while (n > 1 || n < 1e-3);
    }
    double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    for (int i = 0; i < 3; ++i) a[i] /= n;
}
inline double angle(Rng& g)
{
    static const double pi = 3.14159265358979323846;
    static const double t[]
        = {0,      pi / 2,  -pi / 2, pi,      -pi,    3 * pi / 2, 2 * pi,   -2 * pi,
           pi / 3, 2 * pi / 3, 1e-1, 1e-2,   1e-3,   -1e-3,      pi - 1e-3, pi + 1e-3,
           pi / 4, 3 * pi, 2.5 * pi, 1e-4};
    if (g.chance(3)) return t[g.below(20)];
    // close to no turn, a half turn and a full turn, from either side
    if (g.chance(8)) return pi * (g.below(5) - 2) + (g.chance(2) ? 1 : -1) * std::pow(10, g.uni(-6, -0.5));
    return g.uni(-2 * pi, 2 * pi);
}
// Random unit motor in double: rotation by ang about an axis through a point,
// then advance d. Computed without the library: 1/2-angle quaternion and
// translation composed through the reference product.
inline MV unit_motor(Rng& g, int how = -1)
{
    if (how < 0) how = g.below(6);
    MV r = blade(S, 1), t = blade(S, 1);
    if (how != 1)
    {
        double a[3], th = angle(g) / 2;
        unit3(g, a);
        r.set(S, std::cos(th));
        r.set(E23, std::sin(th) * a[0]);
        r.set(E31, -std::sin(th) * a[1]);
        r.set(E12, std::sin(th) * a[2]);
    }
    if (how != 0)
    {
        double s = g.chance(4) ? 100 : 3;
        for (int i = 0; i < 3; ++i)
        {
            static const int b[] = {E01, E02, E03};
            t.set(b[i], g.chance(5) ? 0 : g.uni(-s, s));
        }
    }
    MV m = t * r;
    if (g.chance(8)) m = -m;
    return flat(m);
}
inline void motor_coefs(MV const& m, float* c)
{
    KindInfo const& ki = kinfo(MOTOR);
    for (int i = 0; i < 8; ++i) c[i] = float(orient(ki.b[i]) * m.v[ki.b[i]]);
}
inline void coefs_of(int k, MV const& m, float* c)
{
    KindInfo const& ki = kinfo(k);
    for (int i = 0; i < ki.n; ++i) c[i] = float(orient(ki.b[i]) * m.v[ki.b[i]]);
}

// Any value of a kind: raw coefficients in several styles, or a normalized one.
inline Obj gen(Rng& g, int k, int norm_every = 3)
{
    float c[8];
    int style = g.chance(12) ? 6 : g.below(NSTYLE);
    for (int i = 0; i < 8; ++i) c[i] = coef(g, g.chance(6) ? g.below(NSTYLE) : style);
    if (g.chance(15)) // very large or very small as a whole
    {
        double f = std::ldexp(1.0, g.below(41) - 20);
        if (g.chance(3)) // to a chosen size: fourth powers stay within a float's range
        {
            float m = 0;
            for (int i = 0; i < 8; ++i) m = std::max(m, std::fabs(c[i]));
            if (m > 0) f = std::ldexp(1.0, g.below(61) - 30 - std::ilogb(m));
        }
        for (int i = 0; i < 8; ++i) c[i] = float(c[i] * f);
    }
    else if (g.chance(norm_every))
    {
        double a[3];
        switch (k)
        {
        case PLANE:
            unit3(g, a);
            for (int i = 0; i < 3; ++i) c[i] = float(a[i]);
            break;
        case POINT: c[3] = 1; break;
        case DIR:
            unit3(g, a);
            for (int i = 0; i < 3; ++i) c[i] = float(a[i]);
            break;
        case LINE:
        {
            // through point p with direction a
            unit3(g, a);
            double p[3] = {g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)};
            c[3]        = float(a[0]);
            c[4]        = float(a[1]);
            c[5]        = float(a[2]);
            c[0]        = float(p[1] * a[2] - p[2] * a[1]);
            c[1]        = float(p[2] * a[0] - p[0] * a[2]);
            c[2]        = float(p[0] * a[1] - p[1] * a[0]);
            break;
        }
        case BRANCH:
            unit3(g, a);
            for (int i = 0; i < 3; ++i) c[i] = float(a[i]);
            break;
        case ROTOR: coefs_of(ROTOR, unit_motor(g, 0), c); break;
        case MOTOR: motor_coefs(unit_motor(g), c); break;
        default: break;
        }
    }
    return make(k, c);
}
// A value related to another one of the same kind: equal, opposite, scaled,
// same direction with another moment, or nearly equal.
inline Obj related(Rng& g, Obj const& o)
{
    Obs ob = o.observe();
    float c[8];
    KindInfo const& ki = kinfo(o.k);
    for (int i = 0; i < ki.n; ++i) c[i] = ob.c[i];
    switch (g.below(7))
    {
    case 0: break;
    case 6: // the floats next to them
        for (int i = 0; i < ki.n; ++i)
            for (int k = g.below(4); k > 0 && std::fabs(c[i]) > 1e-20f; --k) c[i] = std::nextafter(c[i], c[i] > 0 || g.chance(2) ? 1e30f : -1e30f);
        break;
    case 1:
        for (int i = 0; i < ki.n; ++i) c[i] = -c[i];
        break;
    case 2:
        for (int i = 0; i < ki.n; ++i) c[i] *= 2.5f;
        break;
    case 3:
    {
        int i = g.below(ki.n), style = g.below(NSTYLE);
        c[i] = coef(g, style);
        break;
    }
    case 4:
        for (int i = 0; i < ki.n; ++i) c[i] *= float(1 + g.uni(-1e-3, 1e-3));
        break;
    case 5:
    {
        int i = g.below(ki.n), j = g.below(ki.n);
        std::swap(c[i], c[j]);
    }
        break;
    }
    return make(o.k, c);
}

// A value sharing part of its coefficients with another: what a result kept
// for one must not be served for the other.
inline Obj halfway(Obj const& base, Obj const& fresh, int how)
{
    Obs a = base.observe(), b = fresh.observe();
    float c[8];
    int n = kinfo(base.k).n;
    for (int i = 0; i < n; ++i)
    {
        bool keep = how == 0 ? i < (n + 1) / 2 : how == 1 ? i >= n / 2 : how == 2 ? i % 2 == 0 : how == 3 ? i != 0 : i != n - 1;
        c[i]      = keep ? a.c[i] : b.c[i];
    }
    return make(base.k, c);
}

// ------------------------------------------------------------- arguments
struct Args
{
    std::string prop, mode;
    uint64_t seed = 1, n = 1000;
    std::string opt;
};
inline Args args(int argc, char** argv)
{
    Args a;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") a.prop = v;
        else if (k == "--mode") a.mode = v;
        else if (k == "--seed") a.seed = std::strtoull(v.c_str(), 0, 10);
        else if (k == "--n") a.n = std::strtoull(v.c_str(), 0, 10);
        else if (k == "--opt") a.opt = v;
        else if (k == "--tol") U22 *= std::atof(v.c_str());
        else
        {
            std::fprintf(stderr, "unknown argument %s\n", k.c_str());
            std::exit(3);
        }
    }
    R().prop = a.prop;
    return a;
}
} // namespace vf
