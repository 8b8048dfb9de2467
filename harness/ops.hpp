// Registry of every single-step operation of the public C++ API, each with the
// reference meaning it is judged against.
#pragma once
#include "core.hpp"

namespace vf
{
struct Op
{
    char const* prop; // property that owns the judgement
    char const* name;
    int na;
    int k[3];
    int ko;
    void (*ex)(Obj const*, Obj&);
    MV (*ref)(MV const*);       // null: executed in histories, not judged here
    bool (*dom)(MV const*);     // null: total
    double K;
};

using kln::branch;
using kln::direction;
using kln::dual;
using kln::ideal_line;
using kln::line;
using kln::motor;
using kln::origin;
using kln::plane;
using kln::point;
using kln::rotor;
using kln::translator;

// ---- helpers for reference semantics (doubles)
inline MV only(MV const& a, int k)
{
    MV r;
    for (int i = 0; i < kinfo(k).n; ++i)
    {
        int b  = kinfo(k).b[i];
        r.v[b] = a.v[b];
        r.m[b] = a.m[b];
    }
    if (k == TRANS)
    {
        r.v[0] = a.v[0];
        r.m[0] = a.m[0];
    }
    return r;
}
inline double nrm2(MV const& a, std::initializer_list<int> bs)
{
    double s = 0;
    for (int b : bs) s += a.v[b] * a.v[b];
    return s;
}
inline double real2(MV const& a) // squared magnitude of the real (non-e0) part
{
    double s = 0;
    for (int b = 0; b < NB; ++b)
        if (!(b & 1)) s += a.v[b] * a.v[b];
    return s;
}
inline double ideal2(MV const& a)
{
    double s = 0;
    for (int b = 0; b < NB; ++b)
        if (b & 1) s += a.v[b] * a.v[b];
    return s;
}
// 1/(p + q I)
inline MV invDual(double p, double q, double qm)
{
    MV r;
    r.set(S, 1 / p);
    r.v[E0123] = -q / (p * p);
    r.m[E0123] = qm / (p * p);
    return r;
}
// x^-1 with x^-1 x = 1: ~x / (x ~x)
inline MV inv(MV const& a)
{
    MV n = a * rev(a);
    return rev(a) * invDual(n.v[S], n.v[E0123], n.m[E0123]);
}
// x / sqrt(x ~x)
inline MV unit(MV const& a)
{
    MV n     = a * rev(a);
    double p = n.v[S], q = n.v[E0123], u = std::sqrt(p);
    // 1/sqrt(p + qI) = 1/u - q/(2 u^3) I
    MV s;
    s.set(S, 1 / u);
    s.v[E0123] = -q / (2 * u * u * u);
    s.m[E0123] = n.m[E0123] / (2 * u * u * u);
    return a * s;
}
inline bool wellsized(MV const& a) // a real part that is not negligible
{
    double r = real2(a);
    // the ideal part may be large, but not so large that 1/|b|^3 overflows
    return r > 1e-10 && r < 1e18 && ideal2(a) < 1e12 * r;
}
inline bool isunit(MV const& a)
{
    MV n = a * rev(a);
    return std::fabs(n.v[S] - 1) < 2e-6 && std::fabs(n.v[E0123]) < 4e-6 * (n.m[E0123] + 1);
}
inline MV sandwich(MV const& m, MV const& x) { return m * x * rev(m); }
inline MV reflect(MV const& p, MV const& x) { return p * x * p; }

// zero, or large enough for its square to be a normal float
inline bool notiny(double x2) { return x2 == 0 || x2 > 1e-30; }

#define VF_U(A)                    \
    A a = I[0].as<A>();            \
    (void)a;
#define VF_B(A, B)                 \
    A a = I[0].as<A>();            \
    B b = I[1].as<B>();            \
    (void)a;                       \
    (void)b;
#define VF_REF(X)                                       \
    [](MV const* I) -> MV {                             \
        MV const &a = I[0], &b = I[1];                  \
        (void)a;                                        \
        (void)b;                                        \
        return X;                                       \
    }
#define VF_DOM(X)                                       \
    [](MV const* I) -> bool {                           \
        MV const &a = I[0], &b = I[1];                  \
        (void)a;                                        \
        (void)b;                                        \
        return X;                                       \
    }
#define OP1D(P, N, A, RT, EX, RF, DM, K)                                                 \
    {                                                                                    \
        P, N, 1, {KindOf<A>::k, -1, -1}, KindOf<RT>::k,                                  \
            [](Obj const* I, Obj& O) {                                                   \
                VF_U(A) O.set<RT>(EX);                                                   \
            },                                                                           \
            VF_REF(RF), VF_DOM(DM), K                                                    \
    }
#define OP1(P, N, A, RT, EX, RF) OP1D(P, N, A, RT, EX, RF, true, 8)
#define OP2D(P, N, A, B, RT, EX, RF, DM, K)                                              \
    {                                                                                    \
        P, N, 2, {KindOf<A>::k, KindOf<B>::k, -1}, KindOf<RT>::k,                        \
            [](Obj const* I, Obj& O) {                                                   \
                VF_B(A, B) O.set<RT>(EX);                                                \
            },                                                                           \
            VF_REF(RF), VF_DOM(DM), K                                                    \
    }
#define OP2(P, N, A, B, RT, EX, RF) OP2D(P, N, A, B, RT, EX, RF, true, 8)
// mutating member: a is changed by the statement
#define OPM1(P, N, A, ST, RF, DM, K)                                                     \
    {                                                                                    \
        P, N, 1, {KindOf<A>::k, -1, -1}, KindOf<A>::k,                                   \
            [](Obj const* I, Obj& O) {                                                   \
                VF_U(A) ST;                                                              \
                O.set<A>(a);                                                             \
            },                                                                           \
            VF_REF(RF), VF_DOM(DM), K                                                    \
    }
#define OPM2(P, N, A, B, ST, RF, DM, K)                                                  \
    {                                                                                    \
        P, N, 2, {KindOf<A>::k, KindOf<B>::k, -1}, KindOf<A>::k,                         \
            [](Obj const* I, Obj& O) {                                                   \
                VF_B(A, B) ST;                                                           \
                O.set<A>(a);                                                             \
            },                                                                           \
            VF_REF(RF), VF_DOM(DM), K                                                    \
    }
// executed in histories only
#define OP1X(N, A, RT, EX, DM)                                                           \
    {                                                                                    \
        "-", N, 1, {KindOf<A>::k, -1, -1}, KindOf<RT>::k,                                \
            [](Obj const* I, Obj& O) {                                                   \
                VF_U(A) O.set<RT>(EX);                                                   \
            },                                                                           \
            nullptr, VF_DOM(DM), 0                                                       \
    }

inline bool nz(MV const& a) { return std::fabs(a.v[S]) > 1e-16 && std::fabs(a.v[S]) < 1e18; }
// conversion to int that is defined for every float
inline int toi(double x) { return x >= 1e9 ? 1000000000 : x <= -1e9 ? -1000000000 : x == x ? int(x) : 0; }
inline MV trunc_scalar(MV const& a) { return blade(S, double(toi(a.v[S]))); }
inline bool nzi(MV const& a) { return toi(a.v[S]) != 0 && std::fabs(a.v[S]) < 2e9; }
inline MV negvec(MV const& a, int keep) // documented unary minus of planes/points
{
    MV r = -a;
    r.v[keep] = a.v[keep];
    return r;
}
inline MV constrainref(MV const& a) { return std::signbit(a.v[S]) ? -a : a; }

// a coefficient that is one float operation is off by one rounding of its own,
// however much larger the operands are
inline MV once(MV r)
{
    for (int b = 0; b < NB; ++b) r.m[b] = std::fabs(r.v[b]);
    return r;
}

// linear structure shared by all vector-like types (scalar operand is kind SCALAR)
#define LINEAR(A, NM)                                                                    \
    OP2("C17", NM "+" NM, A, A, A, a + b, once(a + b)), OP2("C17", NM "-" NM, A, A, A, a - b, once(a - b)), \
        OPM2("C17", NM "+=", A, A, a += b, once(a + b), true, 8),                        \
        OPM2("C17", NM "-=", A, A, a -= b, once(a - b), true, 8),                        \
        OP2("C17", NM "*float", A, float, A, a * b, b * a),                              \
        OP2("C17", "float*" NM, A, float, A, b * a, b * a),                              \
        OP2D("C17", NM "/float", A, float, A, a / b, (1 / b.v[S]) * a, nz(b), 8),        \
        OPM2("C17", NM "*=float", A, float, a *= b, b * a, true, 8),                     \
        OPM2("C17", NM "/=float", A, float, a /= b, (1 / b.v[S]) * a, nz(b), 8)
#define LINEARI(A, NM)                                                                   \
    OP2("C17", NM "*int", A, float, A, a * toi(b), trunc_scalar(b) * a),                 \
        OP2D("C17", NM "/int", A, float, A, a / toi(b),                                  \
             (1 / trunc_scalar(b).v[S]) * a, nzi(b), 8),                                 \
        OPM2("C17", NM "*=int", A, float, a *= toi(b), trunc_scalar(b) * a, true, 8),    \
        OPM2("C17", NM "/=int", A, float, a /= toi(b), (1 / trunc_scalar(b).v[S]) * a,   \
             nzi(b), 8),                                                                 \
        OP2("C17", "int*" NM, A, float, A, toi(b) * a, trunc_scalar(b) * a)

// translators have an implicit scalar 1: their linear structure acts on the
// ideal part
inline MV tr(MV a)
{
    a.set(S, 1);
    return a;
}
inline MV ideal_of(MV const& a) { return only(a, IDEAL); }

inline std::vector<Op> const& ops()
{
    static const std::vector<Op> v = {
        // ------------------------------------------------ geometric product
        OP2("C01", "plane*plane", plane, plane, motor, a* b, a* b),
        OP2("C01", "plane*point", plane, point, motor, a* b, a* b),
        OP2("C01", "point*plane", point, plane, motor, a* b, a* b),
        OP2("C01", "branch*branch", branch, branch, rotor, a* b, a* b),
        OP2("C01", "line*line", line, line, motor, a* b, a* b),
        OP2D("C01", "point*point", point, point, translator, a* b,
             (1 / (a * b).v[S]) * (a * b),
             std::fabs(a.v[E123]) > 1e-5 && std::fabs(b.v[E123]) > 1e-5, 8),
        OP2("C01", "rotor*rotor", rotor, rotor, rotor, a* b, a* b),
        OP2("C01", "dual*line", dual, line, line, a* b, a* b),
        OP2("C01", "line*dual", line, dual, line, a* b, a* b),
        OP2("C01", "rotor*translator", rotor, translator, motor, a* b, a* b),
        OP2("C01", "translator*rotor", translator, rotor, motor, a* b, a* b),
        OP2("C01", "translator*translator", translator, translator, translator, a* b, a* b),
        OP2("C01", "rotor*motor", rotor, motor, motor, a* b, a* b),
        OP2("C01", "motor*rotor", motor, rotor, motor, a* b, a* b),
        OP2("C01", "translator*motor", translator, motor, motor, a* b, a* b),
        OP2("C01", "motor*translator", motor, translator, motor, a* b, a* b),
        OP2("C01", "motor*motor", motor, motor, motor, a* b, a* b),
        // -------------------------------------------------------------- meet
        OP2("C02", "plane^plane", plane, plane, line, a ^ b, a ^ b),
        OP2("C02", "plane^branch", plane, branch, point, a ^ b, a ^ b),
        OP2("C02", "branch^plane", branch, plane, point, a ^ b, a ^ b),
        OP2("C02", "plane^ideal_line", plane, ideal_line, point, a ^ b, a ^ b),
        OP2("C02", "ideal_line^plane", ideal_line, plane, point, a ^ b, a ^ b),
        OP2("C02", "plane^line", plane, line, point, a ^ b, a ^ b),
        OP2("C02", "line^plane", line, plane, point, a ^ b, a ^ b),
        OP2("C02", "plane^point", plane, point, dual, a ^ b, a ^ b),
        OP2("C02", "point^plane", point, plane, dual, a ^ b, a ^ b),
        OP2("C02", "branch^ideal_line", branch, ideal_line, dual, a ^ b, a ^ b),
        OP2("C02", "ideal_line^branch", ideal_line, branch, dual, a ^ b, a ^ b),
        OP2("C02", "line^line", line, line, dual, a ^ b, a ^ b),
        OP2("C02", "line^ideal_line", line, ideal_line, dual, a ^ b, a ^ b),
        OP2("C02", "ideal_line^line", ideal_line, line, dual, a ^ b, a ^ b),
        OP2("C02", "line^branch", line, branch, dual, a ^ b, a ^ b),
        OP2("C02", "branch^line", branch, line, dual, a ^ b, a ^ b),
        // ----------------------------------------------------- dual and join
        OP1("C03", "!plane", plane, point, !a, dualJ(a)),
        OP1("C03", "!point", point, plane, !a, dualJ(a)),
        OP1("C03", "!line", line, line, !a, dualJ(a)),
        OP1("C03", "!ideal_line", ideal_line, branch, !a, dualJ(a)),
        OP1("C03", "!branch", branch, ideal_line, !a, dualJ(a)),
        OP1("C03", "!dual", dual, dual, !a, dualJ(a)),
        OP2("C03", "point&point", point, point, line, a& b, join(a, b)),
        OP2("C03", "point&line", point, line, plane, a& b, join(a, b)),
        OP2("C03", "line&point", line, point, plane, a& b, join(a, b)),
        OP2("C03", "point&branch", point, branch, plane, a& b, join(a, b)),
        OP2("C03", "branch&point", branch, point, plane, a& b, join(a, b)),
        OP2("C03", "point&ideal_line", point, ideal_line, plane, a& b, join(a, b)),
        OP2("C03", "ideal_line&point", ideal_line, point, plane, a& b, join(a, b)),
        OP2("C03", "plane&point", plane, point, dual, a& b, join(a, b)),
        OP2("C03", "point&plane", point, plane, dual, a& b, join(a, b)),
        // ----------------------------------------------------- inner product
        OP2("C04", "plane|plane", plane, plane, float, a | b, a | b),
        OP2("C04", "plane|line", plane, line, plane, a | b, a | b),
        OP2("C04", "line|plane", line, plane, plane, a | b, a | b),
        OP2("C04", "plane|ideal_line", plane, ideal_line, plane, a | b, a | b),
        OP2("C04", "ideal_line|plane", ideal_line, plane, plane, a | b, a | b),
        OP2("C04", "plane|point", plane, point, line, a | b, a | b),
        OP2("C04", "point|plane", point, plane, line, a | b, a | b),
        OP2("C04", "line|line", line, line, float, a | b, a | b),
        OP2("C04", "point|line", point, line, plane, a | b, a | b),
        OP2("C04", "line|point", line, point, plane, a | b, a | b),
        OP2("C04", "point|point", point, point, float, a | b, a | b),
        // -------------------------------------------------------- projection
        OP2("C05", "project(point,line)", point, line, point, kln::project(a, b), (a | b) ^ b),
        OP2("C05", "project(point,plane)", point, plane, point, kln::project(a, b), (a | b) ^ b),
        OP2("C05", "project(line,plane)", line, plane, line, kln::project(a, b), (a | b) ^ b),
        OP2("C05", "project(plane,point)", plane, point, plane, kln::project(a, b), (a | b) | b),
        OP2("C05", "project(line,point)", line, point, line, kln::project(a, b), (a | b) | b),
        OP2("C05", "project(plane,line)", plane, line, plane, kln::project(a, b), (a | b) | b),
        // ----------------------------------------------------------- actions
        OP2("C06", "plane(plane)", plane, plane, plane, a(b), reflect(a, b)),
        OP2("C06", "plane(line)", plane, line, line, a(b), reflect(a, b)),
        OP2("C06", "plane(point)", plane, point, point, a(b), reflect(a, b)),
        OP2("C06", "rotor(plane)", rotor, plane, plane, a(b), sandwich(a, b)),
        OP2("C06", "rotor(branch)", rotor, branch, branch, a(b), sandwich(a, b)),
        OP2("C06", "rotor(line)", rotor, line, line, a(b), sandwich(a, b)),
        OP2("C06", "rotor(point)", rotor, point, point, a(b), sandwich(a, b)),
        OP2("C06", "rotor(direction)", rotor, direction, direction, a(b), sandwich(a, b)),
        OP2("C06", "translator(plane)", translator, plane, plane, a(b), sandwich(a, b)),
        OP2("C06", "translator(line)", translator, line, line, a(b), sandwich(a, b)),
        OP2("C06", "translator(point)", translator, point, point, a(b), sandwich(a, b)),
        OP2("C06", "motor(plane)", motor, plane, plane, a(b), sandwich(a, b)),
        OP2("C06", "motor(line)", motor, line, line, a(b), sandwich(a, b)),
        OP2("C06", "motor(point)", motor, point, point, a(b), sandwich(a, b)),
        OP2("C06", "motor(direction)", motor, direction, direction, a(b), sandwich(a, b)),
        OP2D("C06", "motor(origin)", motor, origin, point, a(b), sandwich(a, b), isunit(a), 24),
        // ------------------------------------------- normalization and norms
        OP1D("C12", "plane.normalized", plane, plane, a.normalized(),
             (1 / std::sqrt(real2(a))) * a, wellsized(a), 8),
        OPM1("C12", "plane.normalize", plane, a.normalize(), (1 / std::sqrt(real2(a))) * a,
             wellsized(a), 8),
        OP1D("C12", "point.normalized", point, point, a.normalized(), (1 / a.v[E123]) * a,
             wellsized(a), 8),
        OPM1("C12", "point.normalize", point, a.normalize(), (1 / a.v[E123]) * a, wellsized(a), 8),
        OP1D("C12", "direction.normalized", direction, direction, a.normalized(),
             (1 / std::sqrt(ideal2(a))) * a, ideal2(a) > 1e-10, 8),
        OPM1("C12", "direction.normalize", direction, a.normalize(),
             (1 / std::sqrt(ideal2(a))) * a, ideal2(a) > 1e-10, 8),
        OP1D("C12", "line.normalized", line, line, a.normalized(), unit(a), wellsized(a), 8),
        OPM1("C12", "line.normalize", line, a.normalize(), unit(a), wellsized(a), 8),
        OP1D("C12", "branch.normalized", branch, branch, a.normalized(), unit(a), wellsized(a), 8),
        OPM1("C12", "branch.normalize", branch, a.normalize(), unit(a), wellsized(a), 8),
        OP1D("C12", "rotor.normalized", rotor, rotor, a.normalized(), unit(a), wellsized(a), 8),
        OPM1("C12", "rotor.normalize", rotor, a.normalize(), unit(a), wellsized(a), 8),
        OP1D("C12", "motor.normalized", motor, motor, a.normalized(), unit(a), wellsized(a), 8),
        OPM1("C12", "motor.normalize", motor, a.normalize(), unit(a), wellsized(a), 8),
        OP1D("C12", "plane.norm", plane, float, a.norm(), blade(S, std::sqrt(real2(a))),
             notiny(real2(a)), 8),
        OP1D("C12", "line.norm", line, float, a.norm(), blade(S, std::sqrt(real2(a))),
             notiny(real2(a)), 8),
        OP1D("C12", "line.squared_norm", line, float, a.squared_norm(), blade(S, real2(a)),
             notiny(real2(a)), 8),
        OP1D("C12", "branch.norm", branch, float, a.norm(), blade(S, std::sqrt(real2(a))),
             notiny(real2(a)), 8),
        OP1D("C12", "branch.squared_norm", branch, float, a.squared_norm(), blade(S, real2(a)),
             notiny(real2(a)), 8),
        OP1D("C12", "ideal_line.ideal_norm", ideal_line, float, a.ideal_norm(), blade(S, std::sqrt(ideal2(a))),
             notiny(ideal2(a)), 8),
        OP1D("C12", "ideal_line.squared_ideal_norm", ideal_line, float, a.squared_ideal_norm(), blade(S, ideal2(a)),
             notiny(ideal2(a)), 8),
        // -------------------------------------------- inverses and divisions
        OP1D("C13", "plane.inverse", plane, plane, a.inverse(), inv(a), wellsized(a), 12),
        OPM1("C13", "plane.invert", plane, a.invert(), inv(a), wellsized(a), 12),
        // documented: a normalized point is its own inverse up to the sign of
        // its square, i.e. the inverse is P / w^2
        OP1D("C13", "point.inverse", point, point, a.inverse(),
             (1 / (a.v[E123] * a.v[E123])) * a, wellsized(a), 12),
        OPM1("C13", "point.invert", point, a.invert(), (1 / (a.v[E123] * a.v[E123])) * a,
             wellsized(a), 12),
        OP1D("C13", "line.inverse", line, line, a.inverse(), inv(a), wellsized(a), 12),
        OPM1("C13", "line.invert", line, a.invert(), inv(a), wellsized(a), 12),
        OP1D("C13", "branch.inverse", branch, branch, a.inverse(), inv(a), wellsized(a), 12),
        OPM1("C13", "branch.invert", branch, a.invert(), inv(a), wellsized(a), 12),
        OP1D("C13", "rotor.inverse", rotor, rotor, a.inverse(), inv(a), wellsized(a), 12),
        OPM1("C13", "rotor.invert", rotor, a.invert(), inv(a), wellsized(a), 12),
        OP1D("C13", "motor.inverse", motor, motor, a.inverse(), inv(a), wellsized(a), 12),
        OPM1("C13", "motor.invert", motor, a.invert(), inv(a), wellsized(a), 12),
        OP1("C13", "translator.inverse", translator, translator, a.inverse(), rev(a)),
        OPM1("C13", "translator.invert", translator, a.invert(), rev(a), true, 8),
        OP2D("C13", "plane/plane", plane, plane, motor, a / b, a* inv(b), wellsized(b), 16),
        OP2D("C13", "point/point", point, point, translator, a / b,
             (1 / (a * inv(b)).v[S]) * (a * inv(b)), wellsized(a) && wellsized(b), 16),
        OP2D("C13", "branch/branch", branch, branch, rotor, a / b, a* inv(b), wellsized(b), 16),
        OP2D("C13", "rotor/rotor", rotor, rotor, rotor, a / b, a* inv(b), wellsized(b), 16),
        OP2("C13", "translator/translator", translator, translator, translator, a / b, a* rev(b)),
        OP2D("C13", "line/line", line, line, motor, a / b, a* inv(b), wellsized(b), 16),
        OP2D("C13", "motor/rotor", motor, rotor, motor, a / b, a* inv(b), wellsized(b), 16),
        OP2("C13", "motor/translator", motor, translator, motor, a / b, a* rev(b)),
        OP2D("C13", "motor/motor", motor, motor, motor, a / b, a* inv(b), wellsized(b), 16),
        // --------------------------------------------------------- linearity
        LINEAR(plane, "plane"), LINEARI(plane, "plane"),
        LINEAR(point, "point"), LINEARI(point, "point"),
        LINEAR(direction, "direction"), LINEARI(direction, "direction"),
        LINEAR(line, "line"), LINEARI(line, "line"),
        LINEAR(branch, "branch"), LINEARI(branch, "branch"),
        LINEAR(ideal_line, "ideal_line"), LINEARI(ideal_line, "ideal_line"),
        LINEAR(rotor, "rotor"), LINEARI(rotor, "rotor"),
        LINEAR(motor, "motor"), LINEARI(motor, "motor"),
        LINEAR(dual, "dual"),
        OP2("C17", "translator+translator", translator, translator, translator, a + b,
            tr(once(ideal_of(a) + ideal_of(b)))),
        OP2("C17", "translator-translator", translator, translator, translator, a - b,
            tr(once(ideal_of(a) - ideal_of(b)))),
        OPM2("C17", "translator+=", translator, translator, a += b,
             tr(once(ideal_of(a) + ideal_of(b))), true, 8),
        OPM2("C17", "translator-=", translator, translator, a -= b,
             tr(once(ideal_of(a) - ideal_of(b))), true, 8),
        OP2("C17", "translator*float", translator, float, translator, a * b, tr(b * ideal_of(a))),
        OP2("C17", "float*translator", translator, float, translator, b * a, tr(b * ideal_of(a))),
        OP2("C17", "translator*int", translator, float, translator, a * toi(b),
            tr(trunc_scalar(b) * ideal_of(a))),
        OP2("C17", "int*translator", translator, float, translator, toi(b) * a,
            tr(trunc_scalar(b) * ideal_of(a))),
        OPM2("C17", "translator*=float", translator, float, a *= b, tr(b * ideal_of(a)), true, 8),
        OPM2("C17", "translator*=int", translator, float, a *= toi(b),
             tr(trunc_scalar(b) * ideal_of(a)), true, 8),
        OP2D("C17", "translator/float", translator, float, translator, a / b,
             tr((1 / b.v[S]) * ideal_of(a)), nz(b), 8),
        OP2D("C17", "translator/int", translator, float, translator, a / toi(b),
             tr((1 / trunc_scalar(b).v[S]) * ideal_of(a)), nzi(b), 8),
        OPM2("C17", "translator/=float", translator, float, a /= b,
             tr((1 / b.v[S]) * ideal_of(a)), nz(b), 8),
        OPM2("C17", "translator/=int", translator, float, a /= toi(b),
             tr((1 / trunc_scalar(b).v[S]) * ideal_of(a)), nzi(b), 8),
        OP1("C17", "-plane", plane, plane, -a, negvec(a, E0)),
        OP1("C17", "-point", point, point, -a, negvec(a, E123)),
        OP1("C17", "-direction", direction, direction, -a, -a),
        OP1("C17", "-line", line, line, -a, -a),
        OP1("C17", "-branch", branch, branch, -a, -a),
        OP1("C17", "-ideal_line", ideal_line, ideal_line, -a, -a),
        OP1("C17", "-rotor", rotor, rotor, -a, -a),
        OP1("C17", "-motor", motor, motor, -a, -a),
        OP1("C17", "~point", point, point, ~a, rev(a)),
        OP1("C17", "~line", line, line, ~a, rev(a)),
        OP1("C17", "~branch", branch, branch, ~a, rev(a)),
        OP1("C17", "~ideal_line", ideal_line, ideal_line, ~a, rev(a)),
        OP1("C17", "~rotor", rotor, rotor, ~a, rev(a)),
        OP1("C17", "~motor", motor, motor, ~a, rev(a)),
        OP1("C17", "rotor.constrained", rotor, rotor, a.constrained(), constrainref(a)),
        OPM1("C17", "rotor.constrain", rotor, a.constrain(), constrainref(a), true, 8),
        OP1("C17", "motor.constrained", motor, motor, a.constrained(), constrainref(a)),
        OPM1("C17", "motor.constrain", motor, a.constrain(), constrainref(a), true, 8),
        // ------------------------------------------------------- conversions
        OP1("C16", "motor(rotor)", rotor, motor, motor(a), a),
        OP1("C16", "motor(translator)", translator, motor, motor(a), a),
        OPM2("C16", "motor=rotor", motor, rotor, a = b, b, true, 8),
        OPM2("C16", "motor=translator", motor, translator, a = b, b, true, 8),
        OP1("C16", "line(branch)", branch, line, line(a), a),
        OP1("C16", "line(ideal_line)", ideal_line, line, line(a), a),
        OP1("C16", "point(origin)", origin, point, point(a), a),
        OP1("C16", "motor(components)", motor, motor,
            motor(a.scalar(), a.e23(), a.e31(), a.e12(), a.e01(), a.e02(), a.e03(), a.e0123()), a),
        // ------------------------------- executed in histories, judged elsewhere
        OP1X("exp(branch)", branch, rotor, kln::exp(a), real2(a) < 100),
        OP1X("exp(ideal_line)", ideal_line, translator, kln::exp(a), true),
        OP1X("exp(line)", line, motor, kln::exp(a), real2(a) < 100),
        OP1X("log(rotor)", rotor, branch, kln::log(a), isunit(a)),
        OP1X("log(translator)", translator, ideal_line, kln::log(a), true),
        OP1X("log(motor)", motor, line, kln::log(a), isunit(a) && a.v[S] > -0.99),
        OP1X("sqrt(rotor)", rotor, rotor, kln::sqrt(a), isunit(a) && a.v[S] > -0.99),
        OP1X("sqrt(translator)", translator, translator, kln::sqrt(a), true),
        OP1X("sqrt(motor)", motor, motor, kln::sqrt(a), isunit(a) && a.v[S] > -0.99),
    };
    return v;
}

// Domain shared by all operations: coefficients of ordinary size.
inline bool sane(Obj const& o)
{
    Obs ob = o.observe();
    if (!finite(o.k, ob)) return false;
    return maxabs(o.k, ob) <= 1e5;
}

// Run and judge one registry operation. Returns false when it was outside the
// operation's domain.
inline bool run_op(Op const& op, Obj const* in, Obj& out, bool judged, char const* ctx = "")
{
    MV I[3];
    for (int i = 0; i < op.na; ++i) I[i] = in[i].value();
    if (op.dom && !op.dom(I)) return false;
    op.ex(in, out);
    if (!judged || !op.ref) return true;
    MV want = op.ref(I);
    if (!finite(want) || maxm(want) > 1e30)
    {
        ++R().skipped;
        return true;
    }
    Obs o      = out.observe();
    uint64_t h = 0;
    for (int i = 0; i < op.na; ++i) h = hobs(h, in[i].k, in[i].observe());
    R().event(op.name, h, maxv(want) > 0);
    int b = agrees(op.name, op.ko, o, want, op.K);
    bool sampling = R().samples.size() < 6;
    if (b >= 0 || sampling)
    {
        std::string s;
        for (int i = 0; i < op.na; ++i) s += (i ? ", " : "") + show(in[i]);
        s += " -> " + show(op.ko, o);
        if (sampling) R().sample(std::string(op.name) + ": " + s);
        if (b >= 0)
            R().fail(op.name,
                     std::string(ctx) + s + " expected " + show(only(want, op.ko)) + " (differs in "
                         + bname(b) + ", scale " + fmt("%.4g", want.m[b]) + ")");
    }
    return true;
}

// Build clean copy of a value from what its accessors show.
inline Obj clean(Obj const& o)
{
    Obs ob = o.observe();
    if (o.k == ORIGIN) return o;
    return make(o.k, ob.c);
}
} // namespace vf
