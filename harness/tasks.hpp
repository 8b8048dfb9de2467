// A workload of named calls: every registered operation, calls on shared operands,
// batches and the C bindings. Each writes what it observed to a list of words.
// Operand sets come in families that share operands or parts of them.
#pragma once
#include "ops.hpp"

#include <functional>
using namespace vf;

extern "C"
{
extern void (*const vf_c_calls[])(void const*, void const*, void*);
}

typedef std::vector<uint32_t> Out;
static void put(Out& o, float f) { o.push_back(fbits(f)); }
static void put(Out& o, float const* f, int n)
{
    for (int i = 0; i < n; ++i) put(o, f[i]);
}
template <class X>
static void putx(Out& o, X const& x)
{
    Obs b = obs(x);
    put(o, b.c, kinfo(KindOf<X>::k).n);
}
struct Task
{
    std::string name;
    std::function<void(Out&)> f;
    std::vector<std::pair<void const*, size_t> > reads; // operands
    int own = 0;                                        // heap blocks the task itself takes
    Task(std::string const& n, std::function<void(Out&)> const& c)
        : name(n)
        , f(c)
    {}
    Task& on(void const* p, size_t n)
    {
        reads.push_back({p, n});
        return *this;
    }
};

// operands that every thread reads and nobody writes
struct Shared
{
    plane p, q;
    point a, b;
    direction d;
    line l, k;
    branch br;
    ideal_line il;
    rotor r, s;
    translator t;
    motor m, n;
    std::vector<point> pts;
    std::vector<line> lines;
    std::vector<plane> planes;
    std::vector<direction> dirs;
};
template <class X>
static X any(Rng& g)
{
    return gen(g, KindOf<X>::k, 1).template as<X>();
}
template <class X>
static X part(Rng& g, X const& base, bool same, int how)
{
    if (same) return base;
    Obj b, f = gen(g, KindOf<X>::k, 1);
    b.set(base);
    return how < 0 ? f.template as<X>() : halfway(b, f, how).template as<X>();
}
struct Each
{
    Rng& g;
    int v, k;
    template <class X>
    void operator()(X& x)
    {
        ++k;
        // 0-2: parts of every operand are kept; 3, 4: every other operand is kept whole
        if (v < 3) x = part(g, x, false, v);
        else x = part(g, x, k % 2 == v % 2, -1);
    }
};
// shares operands, or parts of each operand, with an earlier set
static Shared* sibling(Rng& g, Shared const& b, int v)
{
    Shared* s = new Shared(b);
    Each each = {g, v, 0};
    each(s->p), each(s->q), each(s->a), each(s->b), each(s->l), each(s->k), each(s->r), each(s->s), each(s->m), each(s->n);
    each(s->d), each(s->br), each(s->il), each(s->t);
    for (auto& x : s->pts) each(x);
    for (auto& x : s->lines) each(x);
    for (auto& x : s->planes) each(x);
    for (auto& x : s->dirs) each(x);
    return s;
}
static Shared* shared(Rng& g)
{
    Shared* s = new Shared;
    s->p = any<plane>(g), s->q = any<plane>(g);
    s->a = any<point>(g), s->b = any<point>(g);
    s->d = any<direction>(g);
    s->l = any<line>(g), s->k = any<line>(g);
    s->br = any<branch>(g);
    s->il = any<ideal_line>(g);
    s->r = any<rotor>(g), s->s = any<rotor>(g);
    s->t = any<translator>(g);
    s->m = any<motor>(g), s->n = any<motor>(g);
    for (int i = 0; i < 9; ++i)
    {
        s->pts.push_back(any<point>(g));
        s->lines.push_back(any<line>(g));
        s->planes.push_back(any<plane>(g));
        s->dirs.push_back(any<direction>(g));
    }
    return s;
}

#define TASK(NAME, ...)                                      \
    ts.push_back(Task{NAME, [=](Out& o) {                    \
                          Shared const& x = *sh;             \
                          (void)x;                           \
                          __VA_ARGS__;                       \
                      }});                                   \
    ts.back().on(sh, sizeof *sh)
template <class V, class X>
static void batch(std::vector<Task>& ts, char const* nm, V const* v, std::vector<X> const* in)
{
    // reads a shared array, writes a private one
    ts.push_back(Task{nm, [=](Out& o) {
                          std::vector<X> out(in->size());
                          std::vector<X> cp(*in);
                          (*v)(const_cast<X*>(in->data()), out.data(), in->size());
                          for (auto& e : out) putx(o, e);
                      }});
    ts.back().on(v, sizeof *v).on(in->data(), in->size() * sizeof(X)).own = 2;
}
static std::vector<std::vector<Obj>*> first; // operands of the first round
static Shared* first_sh;
static void tasks(Rng& g, std::vector<Task>& ts, int round, bool wide = false)
{
    size_t at = 0;
    // every registered operation
    for (auto& op : ops())
    {
        std::vector<Obj>* in = new std::vector<Obj>(3);
        bool ok              = false;
        for (int t = 0; t < 20 && !ok; ++t)
        {
            MV I[3];
            for (int a = 0; a < op.na; ++a)
            {
                float c[2] = {float(g.uni(1, 3)), 0};
                (*in)[size_t(a)] = op.k[a] == SCALAR ? make(SCALAR, c) : wide ? gen(g, op.k[a]) : gen(g, op.k[a], 1 + g.below(3));
                I[a]             = (*in)[size_t(a)].value();
            }
            if (round > 0 && at < first.size() && first[at])
            {
                std::vector<Obj> const& f = *first[at];
                for (int a = 0; a < op.na; ++a)
                {
                    Obj& mine = (*in)[size_t(a)];
                    if (op.k[a] == SCALAR || op.k[a] == ORIGIN) { if (round % 2) mine = f[size_t(a)]; }
                    else if (round < 4) mine = halfway(f[size_t(a)], mine, round - 1);
                    else if ((a + round) % 2) mine = f[size_t(a)];
                    I[a] = mine.value();
                }
            }
            ok = !op.dom || op.dom(I);
        }
        if (round == 0) first.push_back(ok ? in : nullptr);
        ++at;
        if (!ok) continue;
        Op const* po = &op;
        ts.push_back(Task{op.name, [=](Out& o) {
                              Obj r;
                              po->ex(in->data(), r);
                              Obs b = r.observe();
                              put(o, b.c, kinfo(r.k).n);
                          }});
        ts.back().on(in->data(), 3 * sizeof(Obj));
    }
    // calls straight on shared objects
    Shared* sh = round == 0 ? shared(g) : sibling(g, *first_sh, round - 1);
    if (round == 0) first_sh = sh;
    TASK("shared motor.as_mat4x4", { kln::mat4x4 m = x.m.as_mat4x4(); put(o, m.data, 16); });
    TASK("shared motor.as_mat3x4", {
        kln::mat3x4 m = x.m.as_mat3x4();
        for (int c = 0; c < 4; ++c) put(o, m.data + 4 * c, 3);
    });
    TASK("shared rotor.as_mat4x4", { kln::mat4x4 m = x.r.as_mat4x4(); put(o, m.data, 16); });
    TASK("shared rotor.as_mat3x4", {
        kln::mat3x4 m = x.r.as_mat3x4();
        for (int c = 0; c < 4; ++c) put(o, m.data + 4 * c, 3);
    });
    TASK("shared rotor.as_euler_angles", {
        rotor er = x.r;
        kln::euler_angles e = er.as_euler_angles();
        put(o, e.roll), put(o, e.pitch), put(o, e.yaw);
        putx(o, rotor(e));
    });
    TASK("shared log/exp", { putx(o, kln::log(x.m)); putx(o, kln::exp(kln::log(x.m))); putx(o, kln::log(x.r)); putx(o, kln::exp(x.br)); });
    TASK("shared exp(line)", { putx(o, kln::exp(x.l)); });
    TASK("shared translator log/exp", { putx(o, kln::log(x.t)); putx(o, kln::exp(x.il)); });
    TASK("shared sqrt", { putx(o, kln::sqrt(x.m)); putx(o, kln::sqrt(x.r)); putx(o, kln::sqrt(x.t)); });
    TASK("shared motor actions", { putx(o, x.m(x.p)); putx(o, x.m(x.a)); putx(o, x.m(x.l)); putx(o, x.m(x.d)); putx(o, x.m(kln::origin())); });
    TASK("shared rotor actions", { putx(o, x.r(x.p)); putx(o, x.r(x.a)); putx(o, x.r(x.l)); putx(o, x.r(x.d)); putx(o, x.r(x.br)); });
    TASK("shared translator actions", { putx(o, x.t(x.p)); putx(o, x.t(x.a)); putx(o, x.t(x.l)); putx(o, x.t(kln::origin())); });
    TASK("shared reflections", { putx(o, x.p(x.q)); putx(o, x.p(x.a)); putx(o, x.p(x.l)); });
    TASK("shared products", { putx(o, x.m * x.n); putx(o, x.r * x.s); putx(o, x.p * x.q); putx(o, x.l * x.k); putx(o, x.r * x.t); putx(o, x.p * x.a); });
    TASK("shared meets and joins", { putx(o, x.p ^ x.q); putx(o, x.p ^ x.l); putx(o, x.a & x.b); putx(o, x.a & x.l); putx(o, x.l ^ x.k); });
    TASK("shared inner products", { put(o, x.p | x.q); putx(o, x.p | x.l); putx(o, x.a | x.p); put(o, x.l | x.k); put(o, x.a | x.b); });
    TASK("shared projections", { putx(o, kln::project(x.a, x.p)); putx(o, kln::project(x.a, x.l)); putx(o, kln::project(x.l, x.p)); });
    TASK("shared norms", { put(o, x.p.norm()); line l = x.l; put(o, l.norm()); put(o, l.squared_norm()); });
    TASK("shared copies normalized", { putx(o, x.p.normalized()); putx(o, x.l.normalized()); putx(o, x.m.normalized()); putx(o, x.r.normalized()); });
    TASK("shared copies inverted", { putx(o, x.p.inverse()); putx(o, x.l.inverse()); putx(o, x.m.inverse()); putx(o, x.r.inverse()); putx(o, x.t.inverse()); });
    TASK("shared comparisons", { put(o, float(x.m == x.n)); put(o, float(x.m.approx_eq(x.m, 1e-3f))); put(o, float(x.p == x.p)); put(o, float(x.l.approx_eq(x.k, 1.f))); put(o, float(x.r == x.r)); });
    TASK("shared stores", {
        float b[4];
        x.r.store(b), put(o, b, 4);
        x.a.store(b), put(o, b, 4);
    });
    TASK("construction", {
        putx(o, rotor(1.25f, 1, 2, 3));
        putx(o, translator(2.f, 0, 1, 1));
        putx(o, motor(0.5f, 2.f, x.l));
        putx(o, point(1, 2, 3));
        putx(o, direction(1, 2, 3));
        motor z(1, 0, 0, 0, 0, 0, 0, 0);
        putx(o, kln::log(z));
        putx(o, kln::exp(line(0, 0, 0, 0, 0, 0)));
        putx(o, kln::exp(line(1, 2, 3, 0, 0, 0)));
    });
    batch<motor, point>(ts, "shared points through a motor", &sh->m, &sh->pts);
    batch<motor, line>(ts, "shared lines through a motor", &sh->m, &sh->lines);
    batch<motor, plane>(ts, "shared planes through a motor", &sh->m, &sh->planes);
    batch<motor, direction>(ts, "shared directions through a motor", &sh->m, &sh->dirs);
    batch<rotor, point>(ts, "shared points through a rotor", &sh->r, &sh->pts);
    batch<rotor, line>(ts, "shared lines through a rotor", &sh->r, &sh->lines);
    batch<rotor, plane>(ts, "shared planes through a rotor", &sh->r, &sh->planes);
    batch<rotor, direction>(ts, "shared directions through a rotor", &sh->r, &sh->dirs);
    // C bindings on shared structures
    static const int A[19] = {PLANE, PLANE, PLANE, ROTOR, ROTOR, ROTOR, TRANS, TRANS, TRANS, MOTOR, MOTOR, MOTOR, ROTOR, TRANS, ROTOR, TRANS, MOTOR, MOTOR, LINE};
    static const int B[19] = {POINT, LINE, PLANE, POINT, LINE, PLANE, POINT, LINE, PLANE, POINT, LINE, PLANE, ROTOR, TRANS, TRANS, ROTOR, MOTOR, LINE, LINE};
    static const int O[19] = {POINT, LINE, PLANE, POINT, LINE, PLANE, POINT, LINE, PLANE, POINT, LINE, PLANE, ROTOR, TRANS, MOTOR, MOTOR, MOTOR, LINE, MOTOR};
    for (int i = 0; i < 19; ++i)
    {
        Obj* ab = new Obj[2];
        ab[0]   = gen(g, A[i], 1);
        ab[1]   = gen(g, B[i], 1);
        ts.push_back(Task{fmt("C call %.0f", i), [=](Out& o) {
                              Obj r;
                              r.k = O[i];
                              std::memset(r.b, 0, sizeof r.b);
                              vf_c_calls[i](ab[0].b, ab[1].b, r.b);
                              Obs b = r.observe();
                              put(o, b.c, kinfo(r.k).n);
                          }});
        ts.back().on(ab, 2 * sizeof(Obj));
    }
}
