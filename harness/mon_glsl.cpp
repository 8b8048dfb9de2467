// Monitor for the shader port: every function of klein.glsl, executed on the
// CPU through the repository's own vec4 shim, against the reference algebra and
// against the C++ library.
#include "ops.hpp"
namespace gl
{
#include <glsl_shim.hpp>
#include <klein.glsl>
} // namespace gl
#undef in
#undef out
using namespace vf;

// component order of each vec4
static const int P0[4] = {E0, E1, E2, E3};
static const int P1[4] = {S, E23, E31, E12};
static const int P2[4] = {E0123, E01, E02, E03};
static const int P3[4] = {E123, E032, E013, E021};
static gl::vec4 vec(MV const& a, int const* b)
{
    float f[4];
    for (int i = 0; i < 4; ++i) f[i] = float(orient(b[i]) * a.v[b[i]]);
    return gl::vec4(f[0], f[1], f[2], f[3]);
}
static void un(MV& a, gl::vec4 const& v, int const* b)
{
    float f[4] = {v.x, v.y, v.z, v.w};
    for (int i = 0; i < 4; ++i) a.set(b[i], orient(b[i]) * double(f[i]));
}
static gl::kln_rotor toR(MV const& a)
{
    gl::kln_rotor r;
    r.p1 = vec(a, P1);
    return r;
}
static gl::kln_translator toT(MV const& a)
{
    gl::kln_translator r;
    r.p2 = vec(a, P2);
    return r;
}
static gl::kln_motor toM(MV const& a)
{
    gl::kln_motor r;
    r.p1 = vec(a, P1);
    r.p2 = vec(a, P2);
    return r;
}
static gl::kln_plane toPl(MV const& a)
{
    gl::kln_plane r;
    r.p0 = vec(a, P0);
    return r;
}
static gl::kln_point toPt(MV const& a)
{
    gl::kln_point r;
    r.p3 = vec(a, P3);
    return r;
}

static void verdict(std::string const& op, std::string const& what, uint64_t h, MV const& got, MV const& want, double K)
{
    int bad = -1;
    R().event(op, h, maxv(want) > 0);
    for (int b = 0; b < NB; ++b)
        if (!near(op, got.v[b], want.v[b], want.m[b], K)) bad = b;
    if (R().samples.size() < 6) R().sample(op + ": " + what + " -> " + show(got));
    if (bad >= 0)
        R().fail(op, what + " -> " + show(got) + " expected " + show(want) + " (differs in " + bname(bad) + ")");
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    for (uint64_t it = 0; it < a.n; ++it)
    {
        Obj r1 = gen(g, ROTOR), r2 = gen(g, ROTOR), m1 = gen(g, MOTOR), m2 = gen(g, MOTOR), t1 = gen(g, TRANS),
            t2 = gen(g, TRANS), pl = gen(g, PLANE), pt = gen(g, POINT);
        if (g.chance(5)) r2 = related(g, r1);
        if (g.chance(5)) m2 = related(g, m1);
        MV R1 = r1.value(), R2 = r2.value(), M1 = m1.value(), M2 = m2.value(), T1 = t1.value(), T2 = t2.value(),
           PL = pl.value(), PT = pt.value();
        uint64_t h = hobs(hobs(hobs(it, ROTOR, r1.observe()), MOTOR, m1.observe()), PLANE, pl.observe());
        MV o;
        un(o = MV(), gl::kln_mul(toR(R1), toR(R2)).p1, P1);
        verdict("rotor*rotor", show(r1) + show(r2), h, o, R1 * R2, 8);
        un(o = MV(), gl::kln_mul(toT(T1), toT(T2)).p2, P2);
        o.set(S, 1);
        verdict("translator*translator", show(t1) + show(t2), h, o, T1 * T2, 8);
        {
            gl::kln_motor m = gl::kln_mul(toM(M1), toM(M2));
            un(o = MV(), m.p1, P1);
            un(o, m.p2, P2);
            verdict("motor*motor", show(m1) + show(m2), h, o, M1 * M2, 8);
        }
        un(o = MV(), gl::kln_apply(toR(R1), toPl(PL)).p0, P0);
        verdict("rotor(plane)", show(r1) + show(pl), h, o, sandwich(R1, PL), 8);
        un(o = MV(), gl::kln_apply(toM(M1), toPl(PL)).p0, P0);
        {
            // the part of m x ~m outside the grade of x is dropped
            MV w = only(sandwich(M1, PL), PLANE);
            verdict("motor(plane)", show(m1) + show(pl), h, o, w, 8);
        }
        un(o = MV(), gl::kln_apply(toR(R1), toPt(PT)).p3, P3);
        verdict("rotor(point)", show(r1) + show(pt), h, o, sandwich(R1, PT), 8);
        un(o = MV(), gl::kln_apply(toM(M1), toPt(PT)).p3, P3);
        verdict("motor(point)", show(m1) + show(pt), h, o, only(sandwich(M1, PT), POINT), 8);
        if (isunit(M1))
        {
            MV org = blade(E123, 1);
            un(o = MV(), gl::kln_apply(toM(M1)).p3, P3);
            verdict("motor(origin)", show(m1), h, o, only(sandwich(M1, org), POINT), 24);
        }
        // the same results as the C++ library
        {
            Obj in2[3], ou;
            gl::kln_motor m = gl::kln_mul(toM(M1), toM(M2));
            un(o = MV(), m.p1, P1);
            un(o, m.p2, P2);
            MV c = mv(m1.as<kln::motor>() * m2.as<kln::motor>());
            MV s = M1 * M2;
            for (int b = 0; b < NB; ++b) c.m[b] = s.m[b];
            verdict("motor*motor as in C++", show(m1) + show(m2), h, o, c, 16);
            un(o = MV(), gl::kln_apply(toM(M1), toPt(PT)).p3, P3);
            c = mv(m1.as<kln::motor>()(pt.as<kln::point>()));
            s = sandwich(M1, PT);
            for (int b = 0; b < NB; ++b) c.m[b] = s.m[b];
            verdict("motor(point) as in C++", show(m1) + show(pt), h, o, c, 16);
        }
        // a history of shader calls: products applied in sequence
        if (g.chance(4))
        {
            MV tot = flat(unit_motor(g));
            float c8[8];
            gl::kln_motor acc = toM(tot);
            tot               = MV();
            un(tot, acc.p1, P1);
            un(tot, acc.p2, P2);
            gl::kln_point p = toPt(blade(E123, 1));
            p               = gl::kln_apply(acc, p);
            double reach    = 2 + 2 * std::sqrt(ideal2(tot));
            int len         = 1 + g.below(12);
            for (int i = 0; i < len; ++i)
            {
                MV s             = unit_motor(g);
                gl::kln_motor gs = toM(s);
                MV sf;
                un(sf, gs.p1, P1);
                un(sf, gs.p2, P2);
                acc = gl::kln_mul(gs, acc);
                tot = flat(sf * tot);
                p   = gl::kln_apply(gs, p);
                reach += 2 * std::sqrt(ideal2(sf));
            }
            (void)c8;
            double K = 8.0 * len + 24;
            un(o = MV(), gl::kln_apply(acc).p3, P3);
            MV w = only(sandwich(tot, blade(E123, 1)), POINT);
            for (int b = 0; b < NB; ++b) w.m[b] = reach;
            verdict("history: composed motor on the origin", "length " + fmt("%.0f", len), h, o, w, K);
            un(o = MV(), p.p3, P3);
            verdict("history: motors one after another", "length " + fmt("%.0f", len), h, o, w, K);
            un(o = MV(), acc.p1, P1);
            un(o, acc.p2, P2);
            MV w2 = tot;
            for (int b = 0; b < NB; ++b) w2.m[b] = (b & 1) ? reach : 1;
            verdict("history: composed motor", "length " + fmt("%.0f", len), h, o, w2, K);
        }
    }
    return R().finish();
}
