// Cross-configuration agreement. "write" runs a fixed, seeded sequence of calls
// and records every call with its operands, its results and the rounding room
// of each result coefficient; "compare" replays nothing: it reads the logs of
// two or more builds of the library and checks them against each other.
#include "ops.hpp"
using namespace vf;

struct Rec
{
    uint32_t op, n;
    float in[24], out[16];
    float tol[16];
};
static std::vector<std::string> names;
static std::map<std::string, uint32_t> nameid;
static uint32_t id(std::string const& s)
{
    auto it = nameid.find(s);
    if (it != nameid.end()) return it->second;
    names.push_back(s);
    return nameid[s] = uint32_t(names.size() - 1);
}
static FILE* out;

struct Ev
{
    Rec r;
    int ni;
    Ev(std::string const& op)
        : ni(0)
    {
        std::memset(&r, 0, sizeof r);
        r.op = id(op);
    }
    template <class X>
    Ev& in(X const& x)
    {
        Obs o = obs(x);
        for (int i = 0; i < kinfo(KindOf<X>::k).n && ni < 24; ++i) r.in[ni++] = o.c[i];
        return *this;
    }
    Ev& in(Obj const& x)
    {
        Obs o = x.observe();
        for (int i = 0; i < kinfo(x.k).n && ni < 24; ++i) r.in[ni++] = o.c[i];
        return *this;
    }
    Ev& v(double x, double scale, double K)
    {
        r.out[r.n]   = float(x);
        r.tol[r.n++] = float(2 * K * U22 * scale + 2e-30);
        return *this;
    }
    template <class X>
    Ev& res(X const& x, double scale, double K)
    {
        Obs o = obs(x);
        for (int i = 0; i < kinfo(KindOf<X>::k).n; ++i) v(o.c[i], scale, K);
        return *this;
    }
    void put() { std::fwrite(&r, sizeof r, 1, out); }
};
static MV umot(Rng& g, int how) { return unit_motor(g, how); }
template <class X>
static X unitv(Rng& g, int how)
{
    float c[8];
    coefs_of(KindOf<X>::k, umot(g, how), c);
    return mk<X>(c);
}

template <class V, class X>
static void batch(Rng& g, char const* nm, V const& v, double reach)
{
    size_t n = size_t(g.below(7));
    std::vector<X> a(n), b(n);
    for (size_t i = 0; i < n; ++i) a[i] = gen(g, KindOf<X>::k).template as<X>();
    bool inplace = g.chance(2);
    std::vector<X> a0 = a;
    v(a.data(), inplace ? a.data() : b.data(), n);
    if (n == 0) return;
    for (size_t i = 0; i < n; ++i)
    {
        X const& o = inplace ? a[i] : b[i];
        double s   = maxabs(KindOf<X>::k, obs(a0[i])) * 4 * reach * (KindOf<X>::k == LINE ? reach : 1);
        Ev(std::string(nm) + (inplace ? " in place" : "")).in(v).in(a0[i]).res(o, s, 16).put();
    }
}

template <class X>
static void compareAll(Rng& g, char const* nm)
{
    Obj a = gen(g, KindOf<X>::k), b = g.chance(2) ? a : related(g, a);
    X x = a.as<X>(), y = b.as<X>();
    Ev(nm).in(x).in(y).v(x == y, 0, 0).v(x.approx_eq(y, 0.5f), 0, 0).put();
}

static void extras(Rng& g)
{
    rotor r = unitv<rotor>(g, 0);
    motor m = unitv<motor>(g, 2);
    MV mm   = mv(m);
    double T = 1 + 2 * std::sqrt(ideal2(mm));
    {
        kln::mat4x4 a = m.as_mat4x4(), b = r.as_mat4x4();
        kln::mat3x4 c = m.as_mat3x4(), d = r.as_mat3x4();
        Ev e1("motor.as_mat4x4"), e2("rotor.as_mat4x4"), e3("motor.as_mat3x4"), e4("rotor.as_mat3x4");
        e1.in(m), e2.in(r), e3.in(m), e4.in(r);
        for (int i = 0; i < 16; ++i)
        {
            e1.v(a.data[i], T, 16), e2.v(b.data[i], 1, 16);
            if (i % 4 != 3) e3.v(c.data[i], T, 16), e4.v(d.data[i], 1, 16);
        }
        e1.put(), e2.put(), e3.put(), e4.put();
    }
    batch<rotor, plane>(g, "rotor(plane*)", r, 1);
    batch<rotor, line>(g, "rotor(line*)", r, 1);
    batch<rotor, point>(g, "rotor(point*)", r, 1);
    batch<rotor, direction>(g, "rotor(direction*)", r, 1);
    batch<motor, plane>(g, "motor(plane*)", m, T);
    batch<motor, line>(g, "motor(line*)", m, T);
    batch<motor, point>(g, "motor(point*)", m, T);
    batch<motor, direction>(g, "motor(direction*)", m, T);
    // exponentials of moderate bivectors, logarithms away from the branch point
    {
        double u = g.chance(4) ? std::pow(10, g.uni(-12, -1)) : g.uni(0.05, 3);
        double k[3];
        unit3(g, k);
        branch b(float(u * k[0]), float(u * k[1]), float(u * k[2]));
        Ev("exp(branch)").in(b).res(kln::exp(b), 1 + u, 16).put();
        double i0 = g.uni(-3, 3), i1 = g.uni(-3, 3), i2 = g.uni(-3, 3);
        ideal_line i{float(i0), float(i1), float(i2)};
        Ev("exp(ideal_line)").in(i).res(kln::exp(i), 4, 8).put();
        if (u > 1e-3)
        {
            line l(i.e01(), i.e02(), i.e03(), b.e23(), b.e31(), b.e12());
            motor e = kln::exp(l);
            Ev("exp(line)").in(l).res(e, 20, 24).put();
            // the same motor in every build: an input, not a result
        }
        rotor q = unitv<rotor>(g, 0);
        if (q.scalar() > -0.9f) Ev("log(rotor)").in(q).res(kln::log(q), 12, 24).put();
        if (m.scalar() > -0.9f) Ev("log(motor)").in(m).res(kln::log(m), 40 * T, 24).put();
        if (q.scalar() > -0.9f) Ev("sqrt(rotor)").in(q).res(kln::sqrt(q), 10, 24).put();
        if (m.scalar() > -0.9f) Ev("sqrt(motor)").in(m).res(kln::sqrt(m), 40 * T, 24).put();
    }
    {
        // steps, halves and logarithms of pure motions, at any magnitude
        float c[8];
        coefs_of(TRANS, unit_motor(g, 1), c);
        float w = float(std::pow(10, g.uni(-6, 5)));
        if (g.chance(2)) w = 1;
        float tb[4] = {0, c[0] * w, c[1] * w, c[2] * w};
        translator t;
        t.load_normalized(tb);
        double ts = 1 + maxabs(TRANS, obs(t));
        Ev("log(translator)").in(t).res(kln::log(t), ts, 0).put();
        Ev("sqrt(translator)").in(t).res(kln::sqrt(t), ts, 8).put();
        ideal_line il(tb[1], tb[2], tb[3]);
        Ev("exp(any ideal_line)").in(il).res(kln::exp(il), ts, 8).put();
        line ll(il);
        Ev("exp(line), no turn").in(ll).res(kln::exp(ll), ts, 24).put();
        motor mt(t);
        Ev("log(motor), no turn").in(mt).res(kln::log(mt), 4 * ts, 24).put();
        Ev("sqrt(motor), no turn").in(mt).res(kln::sqrt(mt), 4 * ts, 24).put();
        double u = g.uni(0, 40), k[3];
        unit3(g, k);
        branch b(float(u * k[0]), float(u * k[1]), float(u * k[2]));
        Ev("exp(any branch)").in(b).res(kln::exp(b), 1 + u, 24).put();
        line bl(b);
        Ev("exp(line), no advance").in(bl).res(kln::exp(bl), 2 + u, 32).put();
        float th = float(g.uni(-40, 40)), dd = float(g.uni(-30, 30)), z = float(std::pow(10, g.uni(-2, 2)));
        float ax[4] = {float(k[0]), float(k[1]), float(k[2]), 0};
        plane pin(ax[0], ax[1], ax[2], th);
        Ev("rotor(any angle, any axis)").in(pin).v(z, 1, 0).res(rotor(th, ax[0] * z, ax[1] * z, ax[2] * z), 1 + std::fabs(th), 16).put();
        Ev("translator(any d, any axis)").in(pin).v(z, 1, 0).res(translator(th, ax[0] * z, ax[1] * z, ax[2] * z), 1 + std::fabs(th), 16).put();
        line s(0.f, 0.f, 0.f, ax[0], ax[1], ax[2]);
        Ev("motor(any angle, any d, line)").in(pin).v(dd, 1, 0).res(motor(th, dd, s), (2 + std::fabs(th)) * (2 + std::fabs(dd)), 32).put();
    }
    {
        rotor q = unitv<rotor>(g, 0);
        float b[5];
        q.store(b);
        if (std::fabs(b[0] * b[2] - b[1] * b[3]) < 0.45)
        {
            kln::euler_angles ea = q.as_euler_angles();
            // angles may wrap: compare what the angles turn to
            Ev("as_euler_angles").in(q).v(std::sin(ea.roll), 20, 24).v(std::cos(ea.roll), 20, 24).v(std::sin(ea.pitch), 20, 24).v(std::cos(ea.pitch), 20, 24).v(std::sin(ea.yaw), 20, 24).v(std::cos(ea.yaw), 20, 24).put();
        }
        // a matrix applied to a vector
        float xv[4], yv[4];
        double mx = 0;
        for (auto& f : xv) f = coef(g, g.below(NSTYLE)), mx = std::max(mx, std::fabs(double(f)));
        if (mx < 1e25)
        {
            plane in(xv[0], xv[1], xv[2], xv[3]);
            kln::mat4x4 a = m.as_mat4x4();
            kln::mat3x4 c = m.as_mat3x4();
            Ev e1("mat4x4(vector)"), e2("mat3x4(vector)");
            e1.in(m).in(in), e2.in(m).in(in);
            _mm_storeu_ps(yv, a(_mm_loadu_ps(xv)));
            for (float f : yv) e1.v(f, 8 * T * mx, 16);
            _mm_storeu_ps(yv, c(_mm_loadu_ps(xv)));
            for (int j = 0; j < 3; ++j) e2.v(yv[j], 8 * T * mx, 16);
            e1.put(), e2.put();
        }
        // loads and stores move bits
        plane lp;
        lp.load(xv);
        rotor lr;
        lr.load_normalized(xv);
        float sv[5] = {0, 0, 0, 0, 0};
        lr.store(sv);
        Ev("plane.load").in(lp).res(lp, 1, 0).put();
        Ev("rotor.store").in(lr).v(sv[0], 1, 0).v(sv[1], 1, 0).v(sv[2], 1, 0).v(sv[3], 1, 0).put();
    }
    {
        double a = g.uni(-1.4, 1.4), b = g.uni(-3, 3), c = g.uni(-3, 3);
        kln::euler_angles ea{float(b), float(a), float(c)};
        rotor q(ea);
        Ev e("rotor(euler)");
        e.v(0, 1, 1);
        e.res(q, 1, 16).put();
        double k[3], th = g.uni(-6, 6);
        unit3(g, k);
        Ev("rotor(angle, axis)").res(rotor(float(th), float(k[0]), float(k[1]), float(k[2])), 1, 16).put();
        Ev("translator(d, axis)").res(translator(float(th), float(k[0]), float(k[1]), float(k[2])), 6, 16).put();
        line l(float(th), 1.f, 2.f, float(k[0]), float(k[1]), float(k[2]));
        line s(0.f, 0.f, 0.f, float(k[0]), float(k[1]), float(k[2]));
        Ev("motor(angle, d, line)").in(s).res(motor(float(th), float(a), s), 8, 24).put();
        Ev("direction(x,y,z)").in(l).res(direction(float(a), float(b), float(c)), 1, 16).put();
    }
    {
        // exact answers: comparisons must not depend on the build
        plane p = gen(g, PLANE).as<plane>(), q = g.chance(2) ? p : gen(g, PLANE).as<plane>();
        Ev("==").in(p).in(q).v(p == q, 0, 0).v(p.approx_eq(q, 0.5f), 0, 0).put();
        compareAll<plane>(g, "plane == related"), compareAll<line>(g, "line ==");
        compareAll<rotor>(g, "rotor =="), compareAll<motor>(g, "motor == related");
        motor a = m, b = g.chance(2) ? m : unitv<motor>(g, 2);
        Ev("motor ==").in(a).in(b).v(a == b, 0, 0).v(a.approx_eq(b, 0.5f), 0, 0).put();
    }
}

static void writer(uint64_t seed, uint64_t n, char const* path)
{
    out = std::fopen(path, "wb");
    if (!out) std::exit(4);
    Rng g(seed);
    std::vector<Op const*> mine;
    for (auto& o : ops())
        if (o.ref) mine.push_back(&o);
    for (uint64_t i = 0; i < n; ++i)
    {
        Op const& op = *mine[i % mine.size()];
        Obj in[3], o;
        for (int a = 0; a < op.na; ++a) in[a] = gen(g, op.k[a]);
        if (op.na == 2 && op.k[0] == op.k[1] && g.chance(4)) in[1] = related(g, in[0]);
        MV I[3];
        for (int a = 0; a < op.na; ++a) I[a] = in[a].value();
        if (op.dom && !op.dom(I)) continue;
        op.ex(in, o);
        MV want = op.ref(I);
        if (!finite(want) || maxm(want) > 1e30) continue;
        Ev e(op.name);
        for (int a = 0; a < op.na; ++a) e.in(in[a]);
        Obs ob = o.observe();
        for (int j = 0; j < kinfo(op.ko).n; ++j) e.v(ob.c[j], want.m[kinfo(op.ko).b[j]], op.K);
        e.put();
        if (i % 16 == 0) extras(g);
    }
    if (std::fclose(out)) std::exit(4);
    // the name table goes to a text file next to the log
    std::string np = std::string(path) + ".names";
    FILE* f        = std::fopen(np.c_str(), "w");
    for (auto& s : names) std::fprintf(f, "%s\n", s.c_str());
    std::fclose(f);
    std::printf("DONE\n");
}

static std::string list(float const* f, int n)
{
    std::string s = "(";
    for (int i = 0; i < n; ++i) s += (i ? " " : "") + fmt("%.9g", f[i]);
    return s + ")";
}
static int compare(std::vector<std::string> const& paths)
{
    std::vector<std::string> nm;
    {
        FILE* f = std::fopen((paths[0] + ".names").c_str(), "r");
        char buf[256];
        while (f && std::fgets(buf, sizeof buf, f))
        {
            buf[std::strcspn(buf, "\n")] = 0;
            nm.push_back(buf);
        }
        if (f) std::fclose(f);
    }
    std::vector<FILE*> fs;
    for (auto& p : paths)
    {
        fs.push_back(std::fopen(p.c_str(), "rb"));
        if (!fs.back()) return 4;
    }
    std::vector<Rec> r(paths.size());
    for (;;)
    {
        size_t got = 0;
        for (size_t i = 0; i < fs.size(); ++i) got += std::fread(&r[i], sizeof(Rec), 1, fs[i]);
        if (got == 0) break;
        if (got != fs.size())
        {
            std::fprintf(stderr, "logs have different lengths\n");
            return 5;
        }
        std::string const& op = nm.at(r[0].op);
        for (size_t i = 1; i < fs.size(); ++i)
        {
            if (r[i].op != r[0].op || r[i].n != r[0].n || std::memcmp(r[i].in, r[0].in, sizeof r[0].in))
            {
                std::fprintf(stderr, "logs record different calls (%s)\n", op.c_str());
                return 5;
            }
            uint64_t h = i;
            for (float x : r[0].in) h = hmix(h, fbits(x));
            for (float x : r[0].out) h = hmix(h, fbits(x));
            R().event(op, h, true);
            if (R().samples.size() < 6) R().sample(op + " " + list(r[0].in, 24) + " -> " + list(r[0].out, int(r[0].n)) + " | "
                       + list(r[i].out, int(r[i].n)));
            for (uint32_t j = 0; j < r[0].n; ++j)
            {
                double a = r[0].out[j], b = r[i].out[j], t = r[0].tol[j] * (U22 * 4194304.0);
                bool ok = std::fabs(a - b) <= t || (std::isnan(a) && std::isnan(b)) || a == b;
                if (ok && t > 1e-20 && std::fabs(a - b) / t > R().worst) R().worst = std::fabs(a - b) / t, R().worst_op = op;
                if (!ok)
                {
                    R().fail(op, "on " + list(r[0].in, 24) + " build 0 gives " + list(r[0].out, int(r[0].n)) + " build "
                                     + fmt("%.0f", double(i)) + " gives " + list(r[i].out, int(r[i].n)) + " tolerance "
                                     + fmt("%.3g", t));
                    break;
                }
            }
        }
    }
    return R().finish();
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    if (a.mode == "write") writer(a.seed, a.n, a.opt.c_str());
    else if (a.mode == "compare")
    {
        std::vector<std::string> ps;
        std::string s = a.opt;
        for (size_t p; !s.empty();)
        {
            p = s.find(',');
            ps.push_back(s.substr(0, p));
            if (p == std::string::npos) break;
            s = s.substr(p + 1);
        }
        return compare(ps);
    }
    else return 3;
    return 0;
}
