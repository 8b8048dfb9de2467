// Property-specific monitors over the C++ API: batches, composition histories,
// isometry, exponentials, roots, matrices, Euler angles, construction and
// measurement.
#include "ops.hpp"
using namespace vf;

// ---------------------------------------------------------------- classical
struct V3
{
    double x, y, z;
};
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b)
{
    return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
static double len(V3 a) { return std::sqrt(dot(a, a)); }
static std::string show(V3 a)
{
    return "(" + fmt("%.9g", a.x) + ", " + fmt("%.9g", a.y) + ", " + fmt("%.9g", a.z) + ")";
}
// Right-handed rotation of v about the unit axis k
static V3 rodrigues(V3 k, double t, V3 v)
{
    return std::cos(t) * v + std::sin(t) * cross(k, v) + ((1 - std::cos(t)) * dot(k, v)) * k;
}
static V3 pt(point const& p) // Euclidean position
{
    return {p.x() / double(p.w()), p.y() / double(p.w()), p.z() / double(p.w())};
}
static V3 dirv(direction const& d) { return {d.x(), d.y(), d.z()}; }
static V3 nrm(plane const& p) { return {p.x(), p.y(), p.z()}; }
static V3 ldir(line const& l) { return {l.e23(), l.e31(), l.e12()}; }
static V3 lmom(line const& l) { return {l.e01(), l.e02(), l.e03()}; }

// The unit of length of the scene. A power of two, so that a scene is the exact
// image of one of ordinary size and nothing else may change.
static double SZ = 1;
static void scene(Rng& g, int lo, int hi) { SZ = g.chance(2) ? 1 : std::ldexp(1.0, lo + g.below(hi - lo + 1)); }
static V3 rnd3(Rng& g, double s)
{
    s *= SZ;
    if (g.chance(6)) return {SZ * (g.below(7) - 3), SZ * (g.below(7) - 3), SZ * (g.below(7) - 3)};
    if (g.chance(8)) return {0, 0, 0};
    // now and then a scene of another size
    if (g.chance(8)) s *= std::pow(10, g.uni(-4, 4));
    return {g.uni(-s, s), g.uni(-s, s), g.uni(-s, s)};
}
static V3 f3(V3 a) // as the float values the library sees
{
    return {double(float(a.x)), double(float(a.y)), double(float(a.z))};
}
static V3 rndunit(Rng& g)
{
    double a[3];
    unit3(g, a);
    return {a[0], a[1], a[2]};
}
static point P(V3 a) { return point(float(a.x), float(a.y), float(a.z)); }
static plane PL(V3 n, double d) { return plane(float(n.x), float(n.y), float(n.z), float(d * SZ)); }
// The line through p with direction d: the join of the points p and p + d.
static line LN(V3 p, V3 d)
{
    V3 m = cross(p, d);
    return line(float(m.x), float(m.y), float(m.z), float(d.x), float(d.y), float(d.z));
}
static bool close(double a, double b, double scale, double K)
{
    return near("geometry", a, b, scale, K);
}
static bool close(V3 a, V3 b, double scale, double K)
{
    return close(a.x, b.x, scale, K) && close(a.y, b.y, scale, K) && close(a.z, b.z, scale, K);
}
// points and lines square to minus one, so projecting may reverse orientation
template <class F>
static bool either(V3 a, V3 b, F f)
{
    return f(dot(a, b) < 0 ? -1.0 : 1.0);
}
static uint64_t h3(uint64_t h, V3 a)
{
    return hmix(hmix(hmix(h, fbits(float(a.x))), fbits(float(a.y))), fbits(float(a.z)));
}

static motor gmotor(Rng& g, int how = -1)
{
    float c[8];
    motor_coefs(unit_motor(g, how), c);
    for (int i = 4; i < 8; ++i) c[i] *= float(SZ);
    return mk<motor>(c);
}
static rotor grotor(Rng& g)
{
    float c[8];
    coefs_of(ROTOR, unit_motor(g, 0), c);
    return mk<rotor>(c);
}
static translator gtrans(Rng& g, double s = 5)
{
    V3 t = rnd3(g, s);
    float c[3] = {float(t.x), float(t.y), float(t.z)};
    return mk<translator>(c);
}

// ------------------------------------------------------------ C07: batches
template <class V, class X>
static void batch_one(Rng& g, char const* name, int k, V const& v, MV const& mvv, size_t n)
{
    const size_t G = 3;
    bool inplace   = g.chance(2);
    std::vector<X> in(n + 2 * G), out(n + 2 * G), before;
    for (size_t i = 0; i < in.size(); ++i)
    {
        in[i]  = gen(g, k).as<X>();
        out[i] = gen(g, k).as<X>();
    }
    before             = in;
    std::vector<X> ob  = out;
    X* pi              = in.data() + G;
    X* po              = inplace ? pi : out.data() + G;
    bool adjacent      = !inplace && g.chance(3);
    if (adjacent) // both are halves of one array, in either order
    {
        std::vector<X> one(2 * n + 2 * G), was;
        bool first = g.chance(2); // the input comes first
        size_t ai = first ? G : G + n, ao = first ? G + n : G;
        for (auto& x : one) x = out[0];
        for (size_t i = 0; i < n; ++i)
        {
            one[ai + i] = in[G + i];
            one[ao + i] = out[G + i];
        }
        was = one;
        v(one.data() + ai, one.data() + ao, n);
        bool fine = true;
        for (size_t i = 0; i < one.size(); ++i)
            if ((i < ao || i >= ao + n) && std::memcmp(static_cast<void const*>(&one[i]), static_cast<void const*>(&was[i]), sizeof(X))) fine = false;
        check(std::string(name) + " halves of one array, footprint", "count=" + fmt("%.0f", double(n)), hmix(n, g.s), fine);
        for (size_t i = 0; i < n; ++i) out[G + i] = one[ao + i];
    }
    else
        v(pi, po, n);
    std::string op = std::string(name) + (inplace ? " in place" : adjacent ? " adjacent" : " disjoint");
    uint64_t hv    = hmix(n, g.s);
    // nothing outside of [0, n) of the output; the input stays as it was
    auto same = [](X const& a, X const& b) { return std::memcmp(static_cast<void const*>(&a), static_cast<void const*>(&b), sizeof(X)) == 0; };
    bool guards = true;
    for (size_t i = 0; i < in.size(); ++i)
    {
        bool inside = i >= G && i < G + n;
        if (inplace)
        {
            if (!inside && !same(in[i], before[i])) guards = false;
            if (!same(out[i], ob[i])) guards = false;
        }
        else
        {
            if (!same(in[i], before[i])) guards = false;
            if (!inside && !same(out[i], ob[i])) guards = false;
        }
    }
    check(op + " footprint", "count=" + fmt("%.0f", double(n)), hv, guards);
    for (size_t i = 0; i < n; ++i)
    {
        MV want = sandwich(mvv, mv(before[G + i]));
        uint64_t h = hobs(hmix(hv, i), KindOf<X>::k, obs(before[G + i]));
        if (!judge(op, "count=" + fmt("%.0f", double(n)) + " element " + fmt("%.0f", double(i)) + " "
                           + showx(before[G + i]) + " by " + vf::show(mvv),
                   h, po[i], want, 8))
            return;
        // and the same value the single-entity call gives
        X single  = v(before[G + i]);
        Obs a = obs(single), b = obs(po[i]);
        KindInfo const& ki = kinfo(k);
        for (int c = 0; c < ki.n; ++c)
            if (!close(a.c[c], b.c[c], want.m[ki.b[c]], 8))
            {
                R().fail(op, "batched result differs from the single call: " + showx(po[i]) + " vs "
                                 + showx(single));
                return;
            }
        // results behave as their visible coefficients
        if (i < 2)
        {
            Obj o, in2[2], r1;
            o.set(po[i]);
            double big = maxabs(k, b);
            for (auto& q : ops())
                if (big < 1e8 && big > 1e-8 && q.na == 1 && q.k[0] == k && q.ref && g.chance(3))
                {
                    in2[0] = o;
                    run_op(q, in2, r1, true, "[follow-up on a batch element] ");
                }
        }
    }
}
static size_t count_of(Rng& g)
{
    if (g.chance(3)) return size_t(g.below(10));
    if (g.chance(12)) return size_t(100 + g.below(300));
    if (g.chance(250)) return size_t(1000 + g.below(4000));
    return size_t(g.below(40));
}
static void c07(Rng& g, uint64_t n)
{
    uint64_t huge = g.next() % 8; // one array longer than 2^16 per kind in a few runs
    for (uint64_t i = 0; i < n; ++i)
    {
        size_t c   = count_of(g);
        bool first = g.chance(2);
        if (n >= 6000 && i / 4 == n / 8 && i % 4 == huge % 4)
        {
            c     = size_t(65536 + g.below(500));
            first = huge < 4;
        }
        if (n >= 6000 && i / 4 == n / 6 && i % 4 == (huge + 1) % 4)
        {
            c     = size_t(65536 + g.below(500));
            first = huge >= 4;
        }
        if (first)
        {
            rotor r = g.chance(3) ? gen(g, ROTOR).as<rotor>() : grotor(g);
            MV m    = mv(r);
            switch (i % 4)
            {
            case 0: batch_one<rotor, plane>(g, "rotor(plane*)", PLANE, r, m, c); break;
            case 1: batch_one<rotor, line>(g, "rotor(line*)", LINE, r, m, c); break;
            case 2: batch_one<rotor, point>(g, "rotor(point*)", POINT, r, m, c); break;
            case 3: batch_one<rotor, direction>(g, "rotor(direction*)", DIR, r, m, c); break;
            }
        }
        else
        {
            motor r = g.chance(3) ? gen(g, MOTOR).as<motor>() : gmotor(g);
            MV m    = mv(r);
            switch (i % 4)
            {
            case 0: batch_one<motor, plane>(g, "motor(plane*)", PLANE, r, m, c); break;
            case 1: batch_one<motor, line>(g, "motor(line*)", LINE, r, m, c); break;
            case 2: batch_one<motor, point>(g, "motor(point*)", POINT, r, m, c); break;
            case 3: batch_one<motor, direction>(g, "motor(direction*)", DIR, r, m, c); break;
            }
        }
    }
}

// ------------------------------------- C08: histories of versor composition
struct Versor
{
    int k; // ROTOR, TRANS, MOTOR
    rotor r;
    translator t;
    motor m;
    MV v() const { return k == ROTOR ? mv(r) : k == TRANS ? mv(t) : mv(m); }
};
static double tsize(MV const& v) // how far it can move something
{
    return 2 * std::sqrt(ideal2(v));
}
static Versor gversor(Rng& g)
{
    Versor v;
    switch (g.below(3))
    {
    case 0:
        v.k = ROTOR;
        v.r = g.chance(4) ? rotor(float(angle(g)), 0, float(g.below(3) - 1), 1) : grotor(g);
        break;
    case 1:
        v.k = TRANS;
        v.t = g.chance(4) ? translator(float(SZ * g.uni(-3, 3)), 1, float(g.below(3) - 1), 0) : gtrans(g, 2);
        break;
    default: v.k = MOTOR; v.m = gmotor(g); break;
    }
    return v;
}
template <class X>
static X applyv(Versor const& v, X const& x)
{
    return v.k == ROTOR ? v.r(x) : v.k == TRANS ? v.t(x) : v.m(x);
}
static direction applyv(Versor const& v, direction const& x)
{
    return v.k == ROTOR ? v.r(x) : v.k == TRANS ? x : v.m(x);
}
static point origin_by(motor const& m) { return m(kln::origin{}); }

template <class X>
static bool settle(char const* op, std::string const& in, uint64_t h, X const& got, MV const& want, double scale_real,
                   double scale_ideal, double K)
{
    MV w = want;
    // scale by the worst size met along the history
    for (int b = 0; b < NB; ++b)
    {
        bool real = !(b & 1);
        // the moment-like coefficients collect the translations
        w.m[b] = real ? scale_real : scale_ideal;
    }
    if (int(KindOf<X>::k) == int(POINT))
        for (int b = 0; b < NB; ++b) w.m[b] = b & 1 ? scale_ideal : scale_real;
    return judge(op, in, h, got, w, K);
}
static void c08(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        int len_ = g.chance(6) ? 20 + g.below(180) : 1 + g.below(8);
        motor acc;
        double T = SZ;
        std::vector<Versor> vs;
        std::string hist;
        bool first = true;
        MV total   = blade(S, 1);
        for (int i = 0; i < len_; ++i)
        {
            Versor v = gversor(g);
            vs.push_back(v);
            T += tsize(v.v());
            if (i < 4) hist += std::string(kname(v.k)) + " ";
            total = flat(v.v() * total);
            if (first)
            {
                switch (v.k)
                {
                case ROTOR:
                    if (g.chance(2)) acc = motor(v.r);
                    else
                    {
                        acc = gmotor(g);
                        acc = v.r;
                    }
                    break;
                case TRANS:
                    if (g.chance(2)) acc = motor(v.t);
                    else
                    {
                        acc = gmotor(g);
                        acc = v.t;
                    }
                    break;
                default: acc = v.m;
                }
                first = false;
            }
            else
            {
                switch (v.k)
                {
                case ROTOR: acc = v.r * acc; break;
                case TRANS: acc = v.t * acc; break;
                default: acc = v.m * acc;
                }
            }
            if (g.chance(25)) acc.normalize();
        }
        hist = "chain of " + fmt("%.0f", len_) + ": " + hist;
        uint64_t h = hobs(uint64_t(len_), MOTOR, obs(acc));
        double K   = 6.0 * len_ + 10;
        // the composed motor is the product of its parts
        settle("compose", hist, h, acc, total, 1, T, K);
        // and acts like applying the parts one after another
        {
            V3 x = rnd3(g, 5);
            point p = P(x), q = p;
            for (auto& v : vs) q = applyv(v, q);
            double sc = T + len(x) + SZ;
            MV want   = sandwich(total, mv(p));
            settle("sequential point", hist, h, q, want, 1, sc, K);
            settle("composed point", hist, h, acc(p), want, 1, sc, K);
            MV wo = sandwich(total, mv(point(kln::origin{})));
            settle("composed origin", hist, h, origin_by(acc), wo, 1, sc, K);
        }
        {
            V3 nn = rndunit(g);
            plane p = PL(nn, g.uni(-4, 4)), q = p;
            for (auto& v : vs) q = applyv(v, q);
            MV want = sandwich(total, mv(p));
            double sc = T + 5 * SZ;
            settle("sequential plane", hist, h, q, want, 1, sc, K);
            settle("composed plane", hist, h, acc(p), want, 1, sc, K);
        }
        {
            V3 a = rnd3(g, 4), d = rndunit(g);
            line l = LN(a, d), q = l;
            for (auto& v : vs) q = applyv(v, q);
            MV want   = sandwich(total, mv(l));
            double sc = T + len(a) + SZ;
            settle("sequential line", hist, h, q, want, 1, sc, K);
            settle("composed line", hist, h, acc(l), want, 1, sc, K);
        }
        {
            V3 d = rndunit(g);
            direction q0(float(d.x), float(d.y), float(d.z)), q = q0;
            for (auto& v : vs) q = applyv(v, q);
            MV want = sandwich(total, mv(q0));
            settle("sequential direction", hist, h, q, want, 1, 1, K);
            settle("composed direction", hist, h, acc(q0), want, 1, 1, K);
        }
        // undo: the reverse / inverse brings everything back
        {
            V3 x    = rnd3(g, 5);
            point p = P(x);
            double sc = T + len(x) + SZ;
            settle("undo by reverse", hist, h, (~acc)(acc(p)), mv(p), 1, sc, K * 2);
            settle("undo by inverse", hist, h, acc.inverse()(acc(p)), mv(p), 1, sc, K * 2);
            MV one = blade(S, 1);
            settle("m * ~m", hist, h, acc * ~acc, one, 1, T, K * 2);
            point q = p;
            for (auto& v : vs) q = applyv(v, q);
            for (size_t i = vs.size(); i-- > 0;)
            {
                Versor w = vs[i];
                if (w.k == ROTOR) q = g.chance(2) ? (~w.r)(q) : w.r.inverse()(q);
                else if (w.k == TRANS) q = w.t.inverse()(q);
                else q = g.chance(2) ? (~w.m)(q) : w.m.inverse()(q);
            }
            settle("undo step by step", hist, h, q, mv(p), 1, sc, K * 2);
        }
        // associativity over a random split, with every mixed product
        if (vs.size() >= 3)
        {
            Versor a = vs[0], b = vs[1], c = vs[2];
            auto mm = [](Versor const& x, Versor const& y) -> motor {
                if (x.k == ROTOR && y.k == ROTOR) return motor(x.r * y.r);
                if (x.k == ROTOR && y.k == TRANS) return x.r * y.t;
                if (x.k == ROTOR && y.k == MOTOR) return x.r * y.m;
                if (x.k == TRANS && y.k == ROTOR) return x.t * y.r;
                if (x.k == TRANS && y.k == TRANS) return motor(x.t * y.t);
                if (x.k == TRANS && y.k == MOTOR) return x.t * y.m;
                if (x.k == MOTOR && y.k == ROTOR) return x.m * y.r;
                if (x.k == MOTOR && y.k == TRANS) return x.m * y.t;
                return x.m * y.m;
            };
            MV want = flat(a.v() * b.v() * c.v());
            Versor ab, bc;
            ab.k = bc.k = MOTOR;
            ab.m        = mm(a, b);
            bc.m        = mm(b, c);
            double sc   = SZ + tsize(a.v()) + tsize(b.v()) + tsize(c.v());
            std::string s = std::string(kname(a.k)) + "," + kname(b.k) + "," + kname(c.k);
            settle("(ab)c", s, h, mm(ab, c), want, 1, sc, 24);
            settle("a(bc)", s, h, mm(a, bc), want, 1, sc, 24);
        }
    }
}

// ------------------------------------------------------------ C09: isometry
struct Iso // one normalized versor or reflection, applied in any form
{
    int k; // ROTOR TRANS MOTOR PLANE
    Versor v;
    plane mir;
    bool batch;
    template <class X>
    void many(X* a, size_t n) const
    {
        if (k == ROTOR && batch) { v.r(a, a, n); return; }
        if (k == MOTOR && batch) { v.m(a, a, n); return; }
        for (size_t i = 0; i < n; ++i) a[i] = k == PLANE ? mir(a[i]) : applyv(v, a[i]);
    }
    void many(direction* a, size_t n) const
    {
        if (k == ROTOR && batch) { v.r(a, a, n); return; }
        if (k == MOTOR && batch) { v.m(a, a, n); return; }
        for (size_t i = 0; i < n; ++i) a[i] = applyv(v, a[i]);
    }
    double reach() const
    {
        return SZ + (k == PLANE ? 2 * std::fabs(double(mir.d())) : tsize(v.v()));
    }
    std::string show() const
    {
        return k == PLANE ? showx(mir) : k == ROTOR ? showx(v.r) : k == TRANS ? showx(v.t) : showx(v.m);
    }
};
static void c09(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        Iso s;
        s.batch = g.chance(2);
        if (g.chance(4))
        {
            s.k   = PLANE;
            s.mir = PL(rndunit(g), g.uni(-5, 5));
        }
        else
        {
            s.v = gversor(g);
            s.k = s.v.k;
        }
        std::string tag = std::string(s.k == PLANE ? "reflection" : kname(s.k)) + (s.batch ? " batched" : "");
        std::string in  = s.show();
        V3 x[4];
        point p[4], q[4];
        double sz = s.reach();
        for (int i = 0; i < 4; ++i)
        {
            x[i] = f3(rnd3(g, 5));
            p[i] = q[i] = P(x[i]);
            sz          = std::max(sz, len(x[i]));
        }
        sz *= 2;
        s.many(q, 4);
        uint64_t h = h3(h3(h3(it, x[0]), x[1]), x[2]);
        V3 y[4];
        for (int i = 0; i < 4; ++i) y[i] = pt(q[i]);
        bool ok = true;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < i; ++j)
                if (!close(len(x[i] - x[j]), len(y[i] - y[j]), sz, 16)) ok = false;
        check("distances of points " + tag, in + " on " + show(x[0]) + show(x[1]) + show(x[2]) + show(x[3])
                  + " -> " + show(y[0]) + show(y[1]) + show(y[2]) + show(y[3]), h, ok);
        // handedness
        double d0 = dot(cross(x[1] - x[0], x[2] - x[0]), x[3] - x[0]);
        double d1 = dot(cross(y[1] - y[0], y[2] - y[0]), y[3] - y[0]);
        if (s.k == PLANE) d1 = -d1;
        check("handedness " + tag, in, h, close(d0, d1, sz * sz * sz, 16));
        // planes: unit normals stay unit, angles and signed distances survive
        V3 n0 = rndunit(g), n1 = g.chance(4) ? n0 : rndunit(g);
        plane a[2] = {PL(n0, g.uni(-5, 5)), PL(n1, g.uni(-5, 5))}, b[2] = {a[0], a[1]};
        s.many(b, 2);
        double ang0 = dot(nrm(a[0]), nrm(a[1])), ang1 = dot(nrm(b[0]), nrm(b[1]));
        check("angle of planes " + tag, in + " on " + showx(a[0]) + showx(a[1]) + " -> " + showx(b[0]) + showx(b[1]), h,
              close(ang0, ang1, 1, 16) && close(len(nrm(b[0])), len(nrm(a[0])), 1, 16));
        for (int i = 0; i < 2; ++i)
        {
            double e0 = dot(nrm(a[i]), x[0]) + a[i].d(), e1 = dot(nrm(b[i]), y[0]) + b[i].d();
            // a reflected plane keeps its sign with respect to reflected points
            // up to the orientation reversal of the reflection
            bool good = s.k == PLANE ? close(std::fabs(e0), std::fabs(e1), sz + 10 * SZ, 16) : close(e0, e1, sz + 10 * SZ, 16);
            check("point-plane distance " + tag, in + " on " + showx(a[i]) + show(x[0]) + " -> " + showx(b[i]) + show(y[0]),
                  h, good);
        }
        // lines: incidence of the joined points, unit direction, angle with planes
        V3 d = rndunit(g);
        line l[1] = {LN(x[0], d)};
        line m[1] = {l[0]};
        s.many(m, 1);
        V3 dd = ldir(m[0]), mm = lmom(m[0]);
        V3 inc = cross(y[0], dd) - mm; // zero iff y0 lies on the image line
        check("incidence of point and line " + tag, in + " on " + showx(l[0]) + show(x[0]) + " -> " + showx(m[0]) + show(y[0]), h,
              close(len(inc), 0, sz + SZ, 24) && close(len(dd), len(ldir(l[0])), 1, 16)
                  && close(dot(dd, mm), dot(ldir(l[0]), lmom(l[0])), sz + SZ, 24));
        double c0 = dot(ldir(l[0]), nrm(a[0])), c1 = dot(dd, nrm(b[0]));
        if (s.k == PLANE) c0 = std::fabs(c0), c1 = std::fabs(c1);
        check("angle of line and plane " + tag, in + " on " + showx(l[0]) + showx(a[0]), h, close(c0, c1, 1, 16));
        if (s.k == PLANE)
        {
            // an involution
            point back = s.mir(q[0]);
            V3 z       = pt(back);
            check("reflecting twice " + tag, in + show(x[0]) + show(z), h, close(z, x[0], sz, 24));
            line lb = s.mir(m[0]);
            plane pb = s.mir(b[0]);
            check("reflecting twice (line, plane) " + tag, in, h,
                  close(ldir(lb), ldir(l[0]), 1, 24) && close(lmom(lb), lmom(l[0]), sz + SZ, 24)
                      && close(nrm(pb), nrm(a[0]), 1, 24) && close(pb.d(), a[0].d(), sz + 10 * SZ, 24));
        }
        else
        {
            direction v0[2] = {direction(float(n0.x), float(n0.y), float(n0.z)), direction(float(d.x), float(d.y), float(d.z))};
            direction v1[2] = {v0[0], v0[1]};
            s.many(v1, 2);
            check("angle of directions " + tag, in + " on " + showx(v0[0]) + showx(v0[1]) + " -> " + showx(v1[0]) + showx(v1[1]), h,
                  close(dot(dirv(v0[0]), dirv(v0[1])), dot(dirv(v1[0]), dirv(v1[1])), 1, 16)
                      && close(len(dirv(v1[0])), len(dirv(v0[0])), 1, 16));
            // the weight of a point does not change
            check("weight " + tag, in, h, close(q[0].w(), p[0].w(), 1, 16));
            // directions move with the points
            V3 far = f3(x[0] + SZ * dirv(v0[1]));
            point fp = P(far);
            s.many(&fp, 1);
            check("direction follows points " + tag, in + showx(v0[1]), h, close(pt(fp) - y[0], SZ * dirv(v1[1]), sz + SZ, 24));
        }
    }
}

// --------------------------------------------- C10: exponential and logarithm
static MV mvexp(MV l) // scaling and squaring, no closed form
{
    const int k = 12;
    MV x        = std::ldexp(1.0, -k) * l;
    MV r        = blade(S, 1), t = blade(S, 1);
    for (int i = 1; i < 14; ++i)
    {
        t = flat((1.0 / i) * (t * x));
        r = flat(r + t);
    }
    for (int i = 0; i < k; ++i) r = flat(r * r);
    return r;
}
static void expscale(MV& e, MV const& l, double amp)
{
    double u2 = real2(l), u = std::sqrt(u2);
    double ab = std::fabs(l.v[E23] * l.v[E01]) + std::fabs(l.v[E31] * l.v[E02]) + std::fabs(l.v[E12] * l.v[E03]);
    double b  = std::sqrt(ideal2(l));
    static const int br[] = {E23, E31, E12}, bi[] = {E01, E02, E03};
    e.m[S]     = 1 + u;
    for (int i = 0; i < 3; ++i)
    {
        e.m[br[i]] = amp * std::fabs(l.v[br[i]]) * (1 + u) + 1e-8 * u;
        e.m[bi[i]] = amp * (std::fabs(l.v[bi[i]]) + (u2 > 1e-20 ? 3 * std::fabs(l.v[br[i]]) * ab / u2 : b) + (u > 1 ? b : 0)) * (1 + u) + 1e-8 * (SZ + b);
    }
    e.m[E0123] = amp * (ab * (1 + u) / (u > 1 ? u : 1) + (u > 1 ? b : 0)) + 1e-8 * (SZ + b);
}
static line gbiv(Rng& g, double maxu)
{
    double u;
    switch (g.below(6))
    {
    case 0: u = 0; break;
    case 1: u = std::pow(10, g.uni(-16, -1)); break;
    case 2: u = 3.14159265358979 / 2 * (1 + g.below(2)) + g.uni(-1e-3, 1e-3); break;
    default: u = g.uni(1e-3, maxu);
    }
    if (u > maxu) u = maxu * g.u();
    V3 k = rndunit(g);
    V3 b;
    switch (g.below(5))
    {
    case 0: b = {0, 0, 0}; break;
    case 1: b = SZ * g.uni(-3, 3) * k; break;                      // along the axis: pure screw
    case 2: b = cross(k, rnd3(g, 4)); break;                  // simple bivector
    case 3: b = SZ * std::pow(10, g.uni(-6, 2)) * rndunit(g); break;
    default: b = rnd3(g, 5);
    }
    return line(float(b.x), float(b.y), float(b.z), float(u * k.x), float(u * k.y), float(u * k.z));
}
static void follow(Rng& g, Obj const& o)
{
    // whatever is done next with a result sees only its visible coefficients
    for (int t = 0; t < 3; ++t)
    {
        Op const& q = ops()[size_t(g.below(int(ops().size())))];
        if (!q.ref) continue;
        for (int a = 0; a < q.na; ++a)
            if (q.k[a] == o.k)
            {
                Obj in[3], r;
                for (int b = 0; b < q.na; ++b) in[b] = gen(g, q.k[b]);
                in[a] = o;
                run_op(q, in, r, true, "[follow-up on a computed value] ");
                break;
            }
    }
}
template <class X>
static void followx(Rng& g, X const& x)
{
    Obj o;
    o.set(x);
    follow(g, o);
}
static void c10(Rng& g, uint64_t n)
{
    const double pi = 3.14159265358979323846;
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        // exp(line)
        line l     = gbiv(g, g.chance(4) ? 12 : 3.1);
        motor m    = kln::exp(l);
        MV ml      = mv(l);
        MV want    = mvexp(ml);
        uint64_t h = hobs(it, LINE, obs(l));
        expscale(want, ml, 1);
        judge("exp(line)", showx(l), h, m, want, 24);
        followx(g, m);
        // log(exp(l)) = l on the principal branch
        double u = std::sqrt(real2(ml));
        if (u < pi - 0.05)
        {
            line b  = kln::log(m);
            double c = u < 0.5 ? 1 : 1 + u / std::sin(u);
            MV w     = ml;
            double bm = std::sqrt(ideal2(ml));
            for (int i = 0; i < NB; ++i) w.m[i] = (i & 1) ? c * c * (bm + 1e-9 * SZ) : c * (u + 1e-12);
            judge("log(exp(line))", showx(l), h, b, w, 24);
            followx(g, b);
        }
        // log of arbitrary unit motors, including negative scalar parts
        {
            motor q  = gmotor(g);
            MV mq    = mv(q);
            double s = std::sqrt(real2(mq) - mq.v[S] * mq.v[S]);
            if (s > 1e-5 || mq.v[S] > 0)
            {
                line lq   = kln::log(q);
                MV mlq    = mv(lq);
                double uu = std::sqrt(real2(mlq));
                bool fin  = finite(LINE, obs(lq));
                check("log(motor) is the principal branch", showx(q) + " -> " + showx(lq), hobs(it, MOTOR, obs(q)),
                      fin && uu <= pi * (1 + 1e-5));
                if (fin)
                {
                    double big = SZ + std::sqrt(ideal2(mq)) + std::sqrt(ideal2(mlq));
                    double c   = (s > 0.3 || mq.v[S] > 0) ? 1 : 1 / s;
                    MV back    = mq;
                    for (int i = 0; i < NB; ++i) back.m[i] = c * ((i & 1) ? big : 1);
                    MV viadouble = mvexp(mlq);
                    // the true exponential of the logarithm is the motor
                    bool good = true;
                    for (int i = 0; i < NB; ++i)
                        if (!close(viadouble.v[i], back.v[i], back.m[i], 24)) good = false;
                    check("exp of log(motor)", showx(q) + " -> log " + showx(lq) + " whose exponential is " + vf::show(viadouble), h, good);
                    judge("exp(log(motor))", showx(q), h, kln::exp(lq), back, 32);
                    followx(g, lq);
                }
            }
        }
        // rotors
        {
            V3 k      = rndunit(g);
            double t  = g.chance(4) ? std::pow(10, g.uni(-20, -1)) : g.chance(6) ? 0 : g.uni(0, g.chance(3) ? 12 : 3.1);
            branch b(float(t * k.x), float(t * k.y), float(t * k.z));
            MV mb     = mv(b);
            double ub = std::sqrt(real2(mb));
            MV w      = mvexp(mb);
            w.m[S]    = 1 + ub;
            for (int i : {E23, E31, E12}) w.m[i] = std::fabs(mb.v[i]) * (1 + ub) + 1e-9 * ub + 1e-20;
            rotor r = kln::exp(b);
            judge("exp(branch)", showx(b), hobs(it, BRANCH, obs(b)), r, w, 16);
            followx(g, r);
            if (ub < pi - 0.05)
            {
                double c = ub < 0.5 ? 1 : 1 + ub / std::sin(ub);
                MV back  = mb;
                for (int i : {E23, E31, E12}) back.m[i] = c * (ub + 1e-20);
                branch lb = kln::log(r);
                judge("log(exp(branch))", showx(b), h, lb, back, 24, 1e-21);
                followx(g, lb);
            }
            rotor q  = grotor(g);
            MV mq    = mv(q);
            double s = std::sqrt(real2(mq) - mq.v[S] * mq.v[S]);
            if (s > 1e-5 || mq.v[S] > 0)
            {
                branch lq = kln::log(q);
                MV w2     = mvexp(mv(lq));
                bool good = finite(BRANCH, obs(lq)) && std::sqrt(real2(mv(lq))) <= pi * (1 + 1e-5);
                double c  = (s > 0.3 || mq.v[S] > 0) ? 1 : 1 / s;
                for (int i : {S, E23, E31, E12})
                    if (!close(w2.v[i], mq.v[i], c, 24)) good = false;
                check("exp of log(rotor)", showx(q) + " -> " + showx(lq), hobs(it, ROTOR, obs(q)), good);
                MV back = mq;
                for (int i : {S, E23, E31, E12}) back.m[i] = c;
                judge("exp(log(rotor))", showx(q), h, kln::exp(lq), back, 24);
                // the rotor logarithm agrees with that of the same motor
                line lm = kln::log(motor(q));
                check("log(rotor) = log(motor)", showx(q) + " " + showx(lq) + " vs " + showx(lm), h,
                      close(ldir(lm), V3{lq.e23(), lq.e31(), lq.e12()}, 3.2 * c, 24) && close(len(lmom(lm)), 0, 1, 24));
                followx(g, lq);
            }
        }
        // translators
        {
            translator t = gtrans(g, g.chance(3) ? 1e4 : 5);
            MV mt        = mv(t);
            ideal_line i = kln::log(t);
            judge("log(translator)", showx(t), hobs(it, TRANS, obs(t)), i, only(mt, IDEAL), 4);
            judge("exp(ideal_line)", showx(i), hobs(it, TRANS, obs(t)), kln::exp(i), mt, 4);
            motor viam = kln::exp(line(i));
            MV w       = mt;
            w.m[S]     = 1;
            judge("exp(line at infinity)", showx(i), h, viam, w, 8);
            followx(g, i);
            followx(g, kln::exp(i));
        }
    }
}

// ------------------------------------------------ C11: roots and subdivision
static void c11(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        motor m  = gmotor(g);
        MV mm    = mv(m);
        double T = SZ + std::sqrt(ideal2(mm));
        uint64_t h = hobs(it, MOTOR, obs(m));
        if (mm.v[S] > -0.9999)
        {
            motor r = kln::sqrt(m);
            MV sq   = flat(mv(r) * mv(r));
            double c = 1 / (1 + mm.v[S]); // conditioning near the half-turn pole
            bool ok  = true;
            for (int b = 0; b < NB; ++b)
                if (!close(sq.v[b], mm.v[b], c * ((b & 1) ? T * c : 1), 24)) ok = false;
            check("sqrt(motor)^2", showx(m) + " -> " + showx(r) + " squared " + vf::show(sq), h, ok && r.scalar() >= 0);
            MV rr = mv(r) * rev(mv(r));
            check("sqrt(motor) is normalized", showx(m) + " -> " + showx(r), h,
                  close(rr.v[S], 1, 1, 16) && close(rr.v[E0123], 0, T * c, 24));
            followx(g, r);
        }
        rotor q = grotor(g);
        MV mq   = mv(q);
        if (mq.v[S] > -0.99999)
        {
            rotor r  = kln::sqrt(q);
            MV sq    = flat(mv(r) * mv(r));
            double c = 1 / (1 + mq.v[S]);
            bool ok  = r.scalar() >= 0;
            for (int b : {S, E23, E31, E12})
                if (!close(sq.v[b], mq.v[b], c, 24)) ok = false;
            check("sqrt(rotor)^2", showx(q) + " -> " + showx(r), hobs(it, ROTOR, obs(q)), ok);
            followx(g, r);
        }
        {
            V3 k = rndunit(g);
            branch b(float(k.x), float(k.y), float(k.z));
            rotor r = kln::sqrt(b);
            MV sq   = flat(mv(r) * mv(r)), mb = mv(b);
            bool ok = true;
            for (int i : {S, E23, E31, E12})
                if (!close(sq.v[i], mb.v[i], 1, 24)) ok = false;
            check("sqrt(branch)^2", showx(b) + " -> " + showx(r), hobs(it, BRANCH, obs(b)), ok);
            followx(g, r);
        }
        {
            translator t = gtrans(g);
            translator r = kln::sqrt(t);
            judge("sqrt(translator)", showx(t), hobs(it, TRANS, obs(t)), r, tr(0.5 * ideal_of(mv(t))), 4);
            judge("sqrt(translator)^2", showx(t), hobs(it, TRANS, obs(t)), r * r, mv(t), 8);
            followx(g, r);
        }
        // n equal steps reproduce the motion; interpolation is uniform
        double s = std::sqrt(real2(mm) - mm.v[S] * mm.v[S]);
        if (s > 1e-3 || mm.v[S] > 0)
        {
            line l    = kln::log(m);
            int parts = 1 + g.below(g.chance(4) ? 64 : 8);
            motor step = kln::exp(l / float(parts));
            MV acc = blade(S, 1), ms = mv(step);
            for (int i = 0; i < parts; ++i) acc = flat(acc * ms);
            double c  = (s > 0.3 || mm.v[S] > 0) ? 1 : 1 / s;
            double Tl = T + std::sqrt(ideal2(mv(l)));
            bool ok   = true;
            for (int b = 0; b < NB; ++b)
                if (!close(acc.v[b], mm.v[b], c * ((b & 1) ? Tl * c : 1), 24 + 8 * parts)) ok = false;
            check("exp(log(m)/n)^n", showx(m) + " n=" + fmt("%.0f", parts) + " -> " + vf::show(acc), h, ok);
            double t0 = g.u(), t1 = g.u();
            motor a = kln::exp(l * float(t0)), b = kln::exp(float(t1) * l), ab = kln::exp(l * (float(t0) + float(t1)));
            MV prod_ = flat(mv(a) * mv(b)), mab = mv(ab);
            ok = true;
            for (int i = 0; i < NB; ++i)
                if (!close(prod_.v[i], mab.v[i], (i & 1) ? Tl * c : 1, 40)) ok = false;
            check("exp(s l) exp(t l) = exp((s+t) l)", showx(l) + " s=" + fmt("%.9g", t0) + " t=" + fmt("%.9g", t1), h, ok);
            // ends of the interpolation: t = 0 is the identity, t = 1 the motion
            motor id = kln::exp(l * 0.f);
            check("interpolation starts at rest", showx(l) + " -> " + showx(id), h,
                  close(id.scalar(), 1, 1, 8) && close(std::sqrt(real2(mv(id)) - double(id.scalar()) * id.scalar()), 0, 1, 8)
                      && close(std::sqrt(ideal2(mv(id))), 0, SZ, 8));
            point p = P(rnd3(g, 4));
            V3 e = pt(kln::exp(l * 1.f)(p)), f = pt(m(p));
            check("interpolation ends at the target", showx(m) + showx(p) + show(e) + show(f), h, close(e, f, (Tl + 8 * SZ + len(f)) * c, 48));
            // relative interpolation from one pose to another
            motor m2   = gmotor(g);
            motor relm = m * ~m2;
            MV mr      = mv(relm);
            double sr  = std::sqrt(std::max(0.0, real2(mr) - mr.v[S] * mr.v[S]));
            if (sr > 0.02 || mr.v[S] > 0)
            {
                motor end = kln::exp(kln::log(relm)) * m2;
                double TT = Tl + std::sqrt(ideal2(mv(m2))) + SZ;
                V3 z      = pt(end(p));
                TT += std::sqrt(ideal2(mv(kln::log(relm))));
                check("pose to pose", showx(m2) + " to " + showx(m), h, close(z, f, (2 * TT + 8 * SZ + len(f)) * (sr > 0.3 || mr.v[S] > 0 ? 4 : 4 + 1 / sr), 64));
            }
        }
    }
}

// ------------------------------------------------------------- C14: matrices
template <class M>
static V3 mul3(M const& m, V3 x, double w)
{
    kln::point p;
    (void)p;
    float in[4] = {float(x.x), float(x.y), float(x.z), float(w)};
    __m128 v    = _mm_loadu_ps(in);
    float out[4];
    _mm_storeu_ps(out, m(v));
    return {out[0], out[1], out[2]};
}
template <class M>
static double mulw(M const& m, V3 x, double w)
{
    float in[4] = {float(x.x), float(x.y), float(x.z), float(w)};
    float out[4];
    _mm_storeu_ps(out, m(_mm_loadu_ps(in)));
    return out[3];
}
// expected columns from the sandwich of the basis trivectors
static void refmat(MV const& m, double* M /*col-major 16*/, double* mag)
{
    static const int tb[] = {E032, E013, E021, E123};
    for (int c = 0; c < 4; ++c)
    {
        MV e;
        e.set(tb[c], orient(tb[c]));
        MV r = sandwich(m, e);
        for (int k = 0; k < 4; ++k)
        {
            M[4 * c + k]   = orient(tb[k]) * r.v[tb[k]];
            mag[4 * c + k] = r.m[tb[k]];
        }
    }
}
template <class M>
static void judge_mat(Rng& g, std::string const& op, std::string const& in, uint64_t h, M const& m, MV const& v, bool fourth)
{
    double want[16], mag[16];
    refmat(v, want, mag);
    bool ok = true;
    std::string bad;
    for (int i = 0; i < 16; ++i)
    {
        if (!fourth && (i % 4) == 3 && i != 15) continue;
        if (!close(m.data[i], want[i], mag[i] + (fourth ? 0 : 1e-6 / U22 / 12 * 0), 12))
        {
            // unit motors: the normalized conversion writes the exact 1
            if (!fourth && i == 15 && m.data[i] == 1.f) continue;
            ok  = false;
            bad = " entry " + fmt("%.0f", i) + "=" + fmt("%.9g", m.data[i]) + " expected " + fmt("%.9g", want[i]);
        }
        float colv[4];
        _mm_storeu_ps(colv, m.cols[i / 4]);
        if (fbits(colv[i % 4]) != fbits(m.data[i])) ok = false, bad = " cols and data disagree";
    }
    check(op + " entries", in + bad, h, ok);
    // as a linear map
    V3 x     = f3(rnd3(g, 6));
    // any homogeneous coordinates will do
    double w = g.chance(3) ? 0 : g.chance(3) ? float(g.uni(-3, 3)) : g.chance(4) ? -1 : 1;
    if (g.chance(6)) x = {-std::fabs(x.x), -std::fabs(x.y), -std::fabs(x.z)};
    V3 y     = mul3(m, x, w);
    double xs[4] = {x.x, x.y, x.z, w}, acc[4] = {0, 0, 0, 0}, am[4] = {0, 0, 0, 0};
    for (int c = 0; c < 4; ++c)
        for (int k = 0; k < 4; ++k)
        {
            acc[k] += want[4 * c + k] * xs[c];
            am[k] += mag[4 * c + k] * std::fabs(xs[c]);
        }
    bool lin = close(y.x, acc[0], am[0], 12) && close(y.y, acc[1], am[1], 12) && close(y.z, acc[2], am[2], 12);
    if (fourth) lin = lin && close(mulw(m, x, w), acc[3], am[3], 12);
    check(op + " applied", in + " on " + show(x) + " w=" + fmt("%g", w) + " -> " + show(y), h3(h, x), lin);
}
static void c14(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        motor m = gmotor(g);
        rotor r = grotor(g);
        uint64_t hm = hobs(it, MOTOR, obs(m)), hr = hobs(it, ROTOR, obs(r));
        judge_mat(g, "motor.as_mat4x4", showx(m), hm, m.as_mat4x4(), mv(m), true);
        judge_mat(g, "motor.as_mat3x4", showx(m), hm, m.as_mat3x4(), mv(m), false);
        judge_mat(g, "rotor.as_mat4x4", showx(r), hr, r.as_mat4x4(), mv(r), true);
        judge_mat(g, "rotor.as_mat3x4", showx(r), hr, r.as_mat3x4(), mv(r), false);
        // without normalization (only the 4x4 conversion promises that)
        motor um = gen(g, MOTOR).as<motor>();
        rotor ur = gen(g, ROTOR).as<rotor>();
        judge_mat(g, "motor.as_mat4x4 unnormalized", showx(um), hobs(it, MOTOR, obs(um)), um.as_mat4x4(), mv(um), true);
        judge_mat(g, "rotor.as_mat4x4 unnormalized", showx(ur), hobs(it, ROTOR, obs(ur)), ur.as_mat4x4(), mv(ur), true);
        // matrix action = motor action; matrix of a product = product of matrices
        V3 x      = f3(rnd3(g, 6));
        point p   = P(x);
        V3 a      = pt(m(p)), b = mul3(m.as_mat4x4(), x, 1), c = mul3(m.as_mat3x4(), x, 1);
        double sc = 2 * (tsize(mv(m)) + len(x) + SZ);
        check("matrix action = motor action", showx(m) + show(x) + show(a) + show(b) + show(c), h3(hm, x),
              close(a, b, sc, 16) && close(a, c, sc, 16));
        V3 ar = pt(r(p)), br = mul3(r.as_mat4x4(), x, 1), cr = mul3(r.as_mat3x4(), x, 1);
        check("matrix action = rotor action", showx(r) + show(x), h3(hr, x), close(ar, br, sc, 16) && close(ar, cr, sc, 16));
        motor m2   = gmotor(g);
        V3 seq     = mul3(m2.as_mat4x4(), mul3(m.as_mat4x4(), x, 1), 1);
        V3 one     = mul3((m2 * m).as_mat4x4(), x, 1);
        double sc2 = sc + 2 * tsize(mv(m2));
        check("matrix of a product", showx(m2) + showx(m) + show(x), h3(hm, x), close(seq, one, sc2 * 2, 24));
        // rotation block is orthonormal with determinant one
        auto M = r.as_mat3x4();
        V3 c0{M.data[0], M.data[1], M.data[2]}, c1{M.data[4], M.data[5], M.data[6]}, c2{M.data[8], M.data[9], M.data[10]};
        check("rotation block orthonormal", showx(r), hr,
              close(dot(c0, c0), 1, 1, 24) && close(dot(c1, c1), 1, 1, 24) && close(dot(c2, c2), 1, 1, 24)
                  && close(dot(c0, c1), 0, 1, 24) && close(dot(c0, c2), 0, 1, 24) && close(dot(c1, c2), 0, 1, 24)
                  && close(dot(cross(c0, c1), c2), 1, 1, 24));
    }
}

// --------------------------------------------------------- C15: Euler angles
static double wrap(double a)
{
    const double tau = 6.283185307179586;
    a                = std::fmod(a, tau);
    if (a > tau / 2) a -= tau;
    if (a < -tau / 2) a += tau;
    return a;
}
static MV quat(double c, double s, int b)
{
    MV r;
    r.set(S, c);
    r.v[b] = orient(b) * s;
    r.m[b] = std::fabs(s);
    return r;
}
static MV eulerref(double roll, double pitch, double yaw)
{
    // documented component formulas are those of the composition
    // yaw * pitch * roll of the three elementary rotations, each acting in the
    // sense the library gives its quaternion components
    MV x = quat(std::cos(roll / 2), std::sin(roll / 2), E23);
    MV y = quat(std::cos(pitch / 2), std::sin(pitch / 2), E31);
    MV z = quat(std::cos(yaw / 2), std::sin(yaw / 2), E12);
    return flat(x * y * z);
}
static double pickang(Rng& g, double lim)
{
    const double pi = 3.14159265358979323846;
    if (g.chance(4))
    {
        static const double t[] = {0, pi / 2, -pi / 2, pi / 4, -pi / 3, 1e-3, -1e-4, pi / 6};
        double a = t[g.below(8)];
        if (std::fabs(a) <= lim) return a;
    }
    return g.uni(-lim, lim);
}
static void c15(Rng& g, uint64_t n)
{
    const double pi = 3.14159265358979323846;
    for (uint64_t it = 0; it < n; ++it)
    {
        kln::euler_angles ea;
        ea.roll  = float(pickang(g, pi));
        ea.pitch = float(pickang(g, g.chance(6) ? pi : pi / 2));
        ea.yaw   = float(pickang(g, pi));
        uint64_t h = hmix(hmix(fbits(ea.roll), fbits(ea.pitch)), fbits(ea.yaw));
        std::string in = "roll=" + fmt("%.9g", ea.roll) + " pitch=" + fmt("%.9g", ea.pitch) + " yaw=" + fmt("%.9g", ea.yaw);
        rotor r(ea);
        MV want = eulerref(ea.roll, ea.pitch, ea.yaw);
        for (int b : {S, E23, E31, E12}) want.m[b] = 1;
        judge("rotor(euler)", in, h, r, want, 12);
        // angles -> rotor -> angles, away from the poles of the pitch
        kln::euler_angles o = r.as_euler_angles();
        std::string so = " -> roll=" + fmt("%.9g", o.roll) + " pitch=" + fmt("%.9g", o.pitch) + " yaw=" + fmt("%.9g", o.yaw);
        double cp = std::cos(double(ea.pitch));
        if (std::fabs(double(ea.pitch)) < pi / 2 && cp > 0.03)
        {
            double tol = 2e-6 / (cp * cp) + 2e-6;
            check("angles of rotor(angles)", in + so, h,
                  std::fabs(wrap(double(o.roll) - ea.roll)) < tol && std::fabs(o.pitch - double(ea.pitch)) < tol
                      && std::fabs(wrap(double(o.yaw) - ea.yaw)) < tol);
        }
        // rotor -> angles -> rotor, everywhere
        rotor q = g.chance(3) ? r : grotor(g);
        if (g.chance(8)) // close to or at the poles
        {
            kln::euler_angles p = ea;
            p.pitch = float((g.chance(2) ? 1 : -1) * (pi / 2 - (g.chance(2) ? 0 : g.uni(0, 0.05))));
            q       = rotor(p);
        }
        kln::euler_angles qa = q.as_euler_angles();
        MV back  = eulerref(qa.roll, qa.pitch, qa.yaw), mq = mv(q);
        double sinp = 2 * (q.scalar() * double(q.e31()) - q.e23() * double(q.e12()));
        // within about 1.2 degrees of +-90 the conversion snaps to the pole
        double tol = std::fabs(sinp) > 0.9997 ? 0.03 : 4e-6 / (1.0001 - std::fabs(sinp)) * 0.02 + 1e-5;
        double dp = 0, dm = 0;
        for (int b : {S, E23, E31, E12})
        {
            dp = std::max(dp, std::fabs(back.v[b] - mq.v[b]));
            dm = std::max(dm, std::fabs(back.v[b] + mq.v[b]));
        }
        bool fin = std::isfinite(qa.roll) && std::isfinite(qa.pitch) && std::isfinite(qa.yaw);
        check("rotor of angles of rotor", showx(q) + " -> roll=" + fmt("%.9g", qa.roll) + " pitch=" + fmt("%.9g", qa.pitch)
                  + " yaw=" + fmt("%.9g", qa.yaw) + " error " + fmt("%.3g", std::min(dp, dm)),
              hobs(it, ROTOR, obs(q)), fin && std::min(dp, dm) < tol);
        check("ranges", showx(q), h, fin && std::fabs(qa.roll) <= 6.2832 && std::fabs(qa.pitch) <= pi / 2 + 1e-6 && std::fabs(qa.yaw) <= pi + 1e-6);
        // single-axis rotations are rotations about x, y and z (same sense as
        // the angle-axis constructor)
        int ax = g.below(3);
        float a = float(pickang(g, pi));
        kln::euler_angles e1;
        e1.roll = ax == 0 ? a : 0, e1.pitch = ax == 1 ? a : 0, e1.yaw = ax == 2 ? a : 0;
        rotor r1(e1), r2(a, ax == 0, ax == 1, ax == 2);
        MV w = mv(r2);
        for (int b : {S, E23, E31, E12}) w.m[b] = 1;
        judge("single axis", in, hmix(h, uint64_t(ax)), r1, w, 12);
    }
}

// ------------------------------- C16: construction, accessors, load and store
static float anyf(Rng& g)
{
    switch (g.below(6))
    {
    case 0: return special(g);
    case 1: return float(std::ldexp(g.uni(-1, 1), g.below(200) - 100));
    case 2: return g.chance(2) ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::max();
    case 3: return float(std::ldexp(1.0, -140)); // denormal
    default: return float(g.uni(-100, 100));
    }
}
static bool beq(float a, float b)
{
    return fbits(a) == fbits(b) || (a == 0 && b == 0) || (a != a && b != b);
}
// a buffer of n floats placed at any float (and even byte) alignment, with
// canaries on both sides
struct Buf
{
    alignas(16) unsigned char raw[128];
    int off;
    Buf(Rng& g)
    {
        std::memset(raw, 0xa5, sizeof raw);
        off = 16 + 4 * g.below(8);
    }
    float* p() { return reinterpret_cast<float*>(raw + off); }
    void put(float const* f, int n) { std::memcpy(raw + off, f, size_t(4 * n)); }
    bool intact(int n) const
    {
        for (int i = 0; i < int(sizeof raw); ++i)
            if ((i < off || i >= off + 4 * n) && raw[i] != 0xa5) return false;
        return true;
    }
};
static void c16(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        float c[8];
        uint64_t h = it;
        for (auto& x : c)
        {
            x = anyf(g);
            h = hmix(h, fbits(x));
        }
        std::string in;
        for (auto x : c) in += fmt("%.9g ", x);
        Buf b(g), s(g);
        {
            plane p(c[0], c[1], c[2], c[3]);
            check("plane(a,b,c,d)", in, h, beq(p.x(), c[0]) && beq(p.y(), c[1]) && beq(p.z(), c[2]) && beq(p.d(), c[3])
                      && beq(p.e1(), c[0]) && beq(p.e2(), c[1]) && beq(p.e3(), c[2]) && beq(p.e0(), c[3]));
            b.put(c, 4);
            plane q(b.p());
            check("plane(float*)", in, h, beq(q.d(), c[0]) && beq(q.x(), c[1]) && beq(q.y(), c[2]) && beq(q.z(), c[3]) && b.intact(4));
            plane r;
            r.load(b.p());
            check("plane.load", in, h, beq(r.d(), c[0]) && beq(r.x(), c[1]) && beq(r.y(), c[2]) && beq(r.z(), c[3]) && b.intact(4));
        }
        {
            point p(c[0], c[1], c[2]);
            check("point(x,y,z)", in, h, beq(p.x(), c[0]) && beq(p.y(), c[1]) && beq(p.z(), c[2]) && p.w() == 1.f
                      && beq(p.e032(), c[0]) && beq(p.e013(), c[1]) && beq(p.e021(), c[2]) && p.e123() == 1.f);
            b.put(c, 4);
            point q;
            q.load(b.p());
            check("point.load", in, h, beq(q.w(), c[0]) && beq(q.x(), c[1]) && beq(q.y(), c[2]) && beq(q.z(), c[3]) && b.intact(4));
            q.store(s.p());
            float r[4];
            std::memcpy(r, s.p(), 16);
            check("point.store", in, h, beq(r[0], c[0]) && beq(r[1], c[1]) && beq(r[2], c[2]) && beq(r[3], c[3]) && s.intact(4));
            point o = kln::origin{};
            check("origin", in, h, o.x() == 0 && o.y() == 0 && o.z() == 0 && o.w() == 1);
        }
        {
            float d4[4] = {0.f, c[0], c[1], c[2]};
            Buf bb(g);
            bb.put(d4, 4);
            direction d(bb.p());
            check("direction(float*)", in, h, beq(d.x(), c[0]) && beq(d.y(), c[1]) && beq(d.z(), c[2]) && bb.intact(4));
        }
        {
            line l(c[0], c[1], c[2], c[3], c[4], c[5]);
            check("line(a..f)", in, h, beq(l.e01(), c[0]) && beq(l.e02(), c[1]) && beq(l.e03(), c[2]) && beq(l.e23(), c[3])
                      && beq(l.e31(), c[4]) && beq(l.e12(), c[5]));
            check("line reversed accessors", in, h, beq(l.e10(), -c[0]) && beq(l.e20(), -c[1]) && beq(l.e30(), -c[2])
                      && beq(l.e32(), -c[3]) && beq(l.e13(), -c[4]) && beq(l.e21(), -c[5]));
            branch r(c[0], c[1], c[2]);
            check("branch(a,b,c)", in, h, beq(r.e23(), c[0]) && beq(r.e31(), c[1]) && beq(r.e12(), c[2]) && beq(r.e32(), -c[0])
                      && beq(r.e13(), -c[1]) && beq(r.e21(), -c[2]) && beq(r.x(), c[0]) && beq(r.y(), c[1]) && beq(r.z(), c[2]));
            Buf sb(g);
            r.store(sb.p());
            float o[4];
            std::memcpy(o, sb.p(), 16);
            check("branch.store", in, h, beq(o[1], c[0]) && beq(o[2], c[1]) && beq(o[3], c[2]) && sb.intact(4));
            ideal_line i(c[0], c[1], c[2]);
            check("ideal_line(a,b,c)", in, h, beq(i.e01(), c[0]) && beq(i.e02(), c[1]) && beq(i.e03(), c[2]) && beq(i.e10(), -c[0])
                      && beq(i.e20(), -c[1]) && beq(i.e30(), -c[2]));
            line lb(r), li(i);
            check("line(branch)", in, h, beq(lb.e23(), c[0]) && beq(lb.e31(), c[1]) && beq(lb.e12(), c[2]) && lb.e01() == 0
                      && lb.e02() == 0 && lb.e03() == 0);
            check("line(ideal_line)", in, h, beq(li.e01(), c[0]) && beq(li.e02(), c[1]) && beq(li.e03(), c[2]) && li.e23() == 0
                      && li.e31() == 0 && li.e12() == 0);
        }
        {
            b.put(c, 4);
            rotor r;
            r.load_normalized(b.p());
            check("rotor.load_normalized", in, h, beq(r.scalar(), c[0]) && beq(r.e23(), c[1]) && beq(r.e31(), c[2]) && beq(r.e12(), c[3])
                      && beq(r.e32(), -c[1]) && beq(r.e13(), -c[2]) && beq(r.e21(), -c[3]) && b.intact(4));
            Buf sb(g);
            r.store(sb.p());
            float o[4];
            std::memcpy(o, sb.p(), 16);
            check("rotor.store", in, h, beq(o[0], c[0]) && beq(o[1], c[1]) && beq(o[2], c[2]) && beq(o[3], c[3]) && sb.intact(4));
            float t4[4] = {0, c[0], c[1], c[2]};
            Buf tb(g);
            tb.put(t4, 4);
            translator t;
            t.load_normalized(tb.p());
            check("translator.load_normalized", in, h, t.scalar() == 1 && beq(t.e01(), c[0]) && beq(t.e02(), c[1]) && beq(t.e03(), c[2])
                      && beq(t.e10(), -c[0]) && beq(t.e20(), -c[1]) && beq(t.e30(), -c[2]) && tb.intact(4));
            motor mr(r), ms, mt(t);
            ms = mk<motor>(c);
            auto isr = [&](motor const& m) {
                return beq(m.scalar(), c[0]) && beq(m.e23(), c[1]) && beq(m.e31(), c[2]) && beq(m.e12(), c[3]) && m.e01() == 0
                       && m.e02() == 0 && m.e03() == 0 && m.e0123() == 0;
            };
            auto ist = [&](motor const& m) {
                return m.scalar() == 1 && m.e23() == 0 && m.e31() == 0 && m.e12() == 0 && beq(m.e01(), c[0]) && beq(m.e02(), c[1])
                       && beq(m.e03(), c[2]) && m.e0123() == 0;
            };
            check("motor(rotor)", in, h, isr(mr));
            check("motor(translator)", in, h, ist(mt));
            ms = r;
            check("motor=rotor", in, h, isr(ms));
            ms = t;
            check("motor=translator", in, h, ist(ms));
        }
        {
            motor m(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
            check("motor(a..h)", in, h, beq(m.scalar(), c[0]) && beq(m.e23(), c[1]) && beq(m.e31(), c[2]) && beq(m.e12(), c[3])
                      && beq(m.e01(), c[4]) && beq(m.e02(), c[5]) && beq(m.e03(), c[6]) && beq(m.e0123(), c[7]));
            check("motor reversed accessors", in, h, beq(m.e32(), -c[1]) && beq(m.e13(), -c[2]) && beq(m.e21(), -c[3]) && beq(m.e10(), -c[4])
                      && beq(m.e20(), -c[5]) && beq(m.e30(), -c[6]));
            // two unaligned loads: (1, e23, e31, e12), (e0123, e01, e02, e03)
            b.put(c, 8);
            motor l;
            l.load(b.p());
            check("motor.load", in, h, beq(l.scalar(), c[0]) && beq(l.e23(), c[1]) && beq(l.e31(), c[2]) && beq(l.e12(), c[3])
                      && beq(l.e0123(), c[4]) && beq(l.e01(), c[5]) && beq(l.e02(), c[6]) && beq(l.e03(), c[7]) && b.intact(8));
        }
        {
            dual d;
            d.p = c[0], d.q = c[1];
            check("dual", in, h, beq(d.scalar(), c[0]) && beq(d.e0123(), c[1]));
        }
        // direction(x,y,z) is the unit vector along (x,y,z)
        V3 v = rnd3(g, g.chance(3) ? 1000 : 2);
        v    = f3(v);
        if (len(v) > 1e-3)
        {
            direction d(float(v.x), float(v.y), float(v.z));
            check("direction(x,y,z)", show(v) + showx(d), h3(h, v), close(dirv(d), (1 / len(v)) * v, 1, 8));
            followx(g, d);
        }
    }
}

// --------------------------------------------------- C17 extras: comparisons
template <class X>
static void cmp_kind(Rng& g, int k)
{
    Obj a = gen(g, k);
    X x   = a.as<X>();
    Obs o = a.observe();
    int n = kinfo(k).n;
    float c[8];
    for (int i = 0; i < n; ++i) c[i] = o.c[i];
    X y        = mk<X>(c);
    uint64_t h = hobs(uint64_t(k), k, o);
    std::string nm = kname(k);
    check(nm + " == itself", showx(x), h, x == y && x.approx_eq(y, 1e-6f));
    int j    = g.below(n);
    float e  = float(std::pow(10, g.uni(-3, 0)));
    double f = g.chance(2) ? g.uni(0, 0.9) : g.uni(1.1, 4);
    float d  = float(f * e * (g.chance(2) ? 1 : -1));
    float was = c[j];
    c[j]      = was + d;
    double diff = std::fabs(double(c[j]) - was); // what the values really differ by
    X z       = mk<X>(c);
    bool eq   = (c[j] == was);
    check(nm + " == after changing one coefficient", showx(x) + " vs " + showx(z), hmix(h, fbits(d)), (x == z) == eq && (z == x) == eq);
    if (diff < 0.95 * e || diff > 1.05 * e)
        check(nm + " approx_eq", showx(x) + " vs " + showx(z) + " eps " + fmt("%.9g", e), hmix(h, fbits(d)),
              x.approx_eq(z, e) == (diff < e) && z.approx_eq(x, e) == (diff < e));
    // differences at the bound itself, exactly representable
    {
        float k[8];
        for (int i = 0; i < n; ++i) k[i] = o.c[i];
        float eb = g.chance(2) ? e : float(std::ldexp(1, -g.below(20)));
        k[j]     = 0;
        X zero   = mk<X>(k);
        float sg = g.chance(2) ? 1.f : -1.f;
        k[j]     = sg * eb;
        X at     = mk<X>(k);
        k[j]     = sg * std::nextafter(eb, 0.f);
        X in     = mk<X>(k);
        std::string d = showx(zero) + " eps " + fmt("%.9g", eb) + " coefficient " + fmt("%.0f", j);
        check(nm + " approx_eq at the bound", d, hmix(h, fbits(eb)), !zero.approx_eq(at, eb) && !at.approx_eq(zero, eb));
        check(nm + " approx_eq just below the bound", d, hmix(h, fbits(eb) + 1), zero.approx_eq(in, eb) && in.approx_eq(zero, eb));
    }
    // signed zeros compare equal
    c[j] = 0.f;
    X z0 = mk<X>(c);
    c[j] = -0.f;
    X z1 = mk<X>(c);
    check(nm + " == on signed zeros", showx(z0), h, z0 == z1 && z0.approx_eq(z1, 1e-6f));
    // several coefficients differ at once
    for (int i = 0; i < n; ++i) c[i] = o.c[i] + (g.chance(3) ? 2 * e + std::fabs(o.c[i]) : 0);
    X w = mk<X>(c);
    bool same = true;
    for (int i = 0; i < n; ++i)
        if (c[i] != o.c[i]) same = false;
    check(nm + " == after changing several coefficients", showx(x) + showx(w), hmix(h, 7), (x == w) == same && x.approx_eq(w, e) == same);
}
static void c17(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        cmp_kind<plane>(g, PLANE);
        cmp_kind<line>(g, LINE);
        cmp_kind<rotor>(g, ROTOR);
        cmp_kind<motor>(g, MOTOR);
        // a constrained versor moves things as before and has scalar >= 0
        motor m = gmotor(g), c = m.constrained();
        point p = P(rnd3(g, 4));
        double sc = 2 * (tsize(mv(m)) + 9);
        check("constrained motor acts alike", showx(m) + showx(c), hobs(it, MOTOR, obs(m)),
              !std::signbit(c.scalar()) && close(pt(m(p)), pt(c(p)), sc, 16));
        rotor r = grotor(g), d = r.constrained();
        check("constrained rotor acts alike", showx(r) + showx(d), hobs(it, ROTOR, obs(r)),
              !std::signbit(d.scalar()) && close(pt(r(p)), pt(d(p)), sc, 16));
    }
}

// -------------------------------------- C18: what the constructors construct
static void c18(Rng& g, uint64_t n)
{
    const double pi = 3.14159265358979323846;
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -24, 15);
        V3 k   = rndunit(g);
        V3 ax  = f3((g.chance(2) ? 1.0 : g.uni(0.1, 50)) * k);
        V3 ku  = (1 / len(ax)) * ax;
        float th = float(angle(g));
        V3 x   = f3(rnd3(g, 6));
        double X = len(x) + SZ;
        uint64_t h = h3(h3(fbits(th), ax), x);
        std::string in = "angle " + fmt("%.9g", th) + " axis " + show(ax) + " point " + show(x);
        // rotor: rotation about an axis through the origin; positive angles turn
        // clockwise seen with the axis pointing at the viewer
        {
            rotor r(th, float(ax.x), float(ax.y), float(ax.z));
            V3 want = rodrigues(ku, -double(th), x);
            V3 got  = pt(r(P(x)));
            check("rotor(angle, axis) on points", in + " -> " + show(got) + " expected " + show(want), h, close(got, want, X, 24));
            MV mr = mv(r) * rev(mv(r));
            check("rotor(angle, axis) is unit", in, h, close(mr.v[S], 1, 1, 8));
            V3 gd = dirv(r(direction(float(k.x), float(k.y), float(k.z))));
            check("rotor(angle, axis) fixes its axis", in, h, close(gd, k, 1, 24));
            plane pl(float(x.x), float(x.y), float(x.z), 2.5f);
            plane ip = r(pl);
            check("rotor(angle, axis) on planes", in + showx(ip), h, close(nrm(ip), want, X, 24) && close(ip.d(), 2.5, 2.5, 16));
        }
        // translator: displacement along a direction
        float dl = float(SZ * g.uni(-20, 20));
        {
            translator t(dl, float(ax.x), float(ax.y), float(ax.z));
            V3 want = x + double(dl) * ku;
            V3 got  = pt(t(P(x)));
            check("translator(delta, direction) on points", in + " delta " + fmt("%.9g", dl) + " -> " + show(got) + " expected " + show(want),
                  h, close(got, want, X + 20 * SZ, 16));
            V3 nn    = rndunit(g);
            plane pl = PL(nn, 1.5);
            plane ip = t(pl);
            check("translator on planes", in + showx(ip), h,
                  close(nrm(ip), nrm(pl), 1, 8) && close(ip.d(), pl.d() - dot(nrm(pl), double(dl) * ku), 25 * SZ, 16));
            line l = LN(x, nn);
            line il = t(l);
            V3 wm  = cross(x + double(dl) * ku, nn);
            check("translator on lines", in + showx(il), h, close(ldir(il), ldir(l), 1, 8) && close(lmom(il), wm, X + 25 * SZ, 24));
        }
        // motor(angle, d, line): a screw about the line
        {
            V3 c    = f3(rnd3(g, 4));
            line l  = LN(c, ku);
            float d = g.chance(4) ? 0.f : float(SZ * g.uni(-5, 5));
            motor m(th, d, l);
            V3 want = c + rodrigues(ku, double(th), x - c) + double(d) * ku;
            V3 got  = pt(m(P(x)));
            check("motor(angle, d, line) on points",
                  in + " d " + fmt("%.9g", d) + " " + showx(l) + " -> " + show(got) + " expected " + show(want), h,
                  close(got, want, X + len(c) * 2 + 6 * SZ, 40));
            // points of the axis only slide along it
            V3 ga = pt(m(P(c)));
            check("motor(angle, d, line) slides its axis", in + showx(l), h, close(ga, c + double(d) * ku, 2 * len(c) + 7 * SZ, 40));
        }
        // motions by next to nothing are seen where nothing larger hides them: a
        // point on a coordinate axis turned about another, the origin moved
        {
            double tiny = (g.chance(2) ? 1 : -1) * std::pow(10, g.uni(-12, 0));
            float ta    = float(tiny), td = float(SZ * (g.chance(2) ? 1 : -1) * std::pow(10, g.uni(-12, 3)));
            int i = g.below(3), j = (i + 1) % 3, q = (i + 2) % 3;
            double e[3] = {0, 0, 0}, at[3] = {0, 0, 0};
            double ln = g.chance(2) ? 1.0 : g.uni(0.1, 50), far = SZ * g.uni(0.5, 9);
            e[i] = ln, at[j] = far;
            V3 u  = f3(V3{e[0], e[1], e[2]}), w = f3(V3{at[0], at[1], at[2]});
            auto co = [](V3 v, int k) { return k == 0 ? v.x : k == 1 ? v.y : v.z; };
            rotor r(ta, float(u.x), float(u.y), float(u.z));
            double want = -std::sin(double(ta)) * co(w, j), got = co(pt(r(P(w))), q);
            std::string ti = "angle " + fmt("%.9g", ta) + " axis " + show(u) + " point " + show(w) + " -> " + fmt("%.9g", got) + " expected " + fmt("%.9g", want);
            check("rotor(angle, axis) by a tiny angle", ti, fbits(ta), close(got, want, std::fabs(want), 16));
            V3 k1 = f3(V3{e[0] / ln, e[1] / ln, e[2] / ln});
            motor m(ta, td, LN(V3{0, 0, 0}, k1));
            got = co(pt(m(P(w))), q);
            check("motor(angle, d, line) by a tiny angle", ti + " -> " + fmt("%.9g", got), fbits(ta), close(got, -want, std::fabs(want), 24));
            V3 mo = pt(m(P(V3{0, 0, 0})));
            check("motor(angle, d, line) moves the origin", "d " + fmt("%.9g", td) + " axis " + show(k1) + " -> " + show(mo), fbits(td), close(mo, double(td) * k1, std::fabs(td), 24));
            translator t(td, float(ax.x), float(ax.y), float(ax.z));
            V3 to = pt(t(P(V3{0, 0, 0})));
            check("translator(delta, direction) moves the origin", "delta " + fmt("%.9g", td) + " direction " + show(ax) + " -> " + show(to), fbits(td), close(to, double(td) * ku, std::fabs(td), 16));
        }
        // line through two points; plane through three; meets
        V3 a = f3(rnd3(g, 5)), b = f3(rnd3(g, 5)), c = f3(rnd3(g, 5));
        double sc = (len(a) + len(b) + len(c) + SZ);
        {
            line l = P(a) & P(b);
            V3 d   = ldir(l), m = lmom(l);
            check("line through two points", show(a) + show(b) + showx(l), h3(h, a),
                  close(d, b - a, sc, 8) && close(m, cross(a, b - a), sc * sc, 8));
            plane p = P(a) & P(b) & P(c);
            V3 nn   = cross(b - a, c - a);
            V3 gn   = nrm(p);
            bool par = close(len(cross(gn, nn)), 0, (sc * sc) * (sc * sc), 16) && close(len(gn), len(nn), sc * sc, 16);
            bool inc = close(dot(gn, a) + p.d(), 0, sc * sc * sc, 16) && close(dot(gn, b) + p.d(), 0, sc * sc * sc, 16)
                       && close(dot(gn, c) + p.d(), 0, sc * sc * sc, 16);
            check("plane through three points", show(a) + show(b) + show(c) + showx(p), h3(h, c), par && inc);
        }
        {
            V3 n0 = rndunit(g), n1 = rndunit(g), n2 = rndunit(g);
            plane p0 = PL(n0, g.uni(-4, 4)), p1 = PL(n1, g.uni(-4, 4)), p2 = PL(n2, g.uni(-4, 4));
            V3 u0 = nrm(p0), u1 = nrm(p1), u2 = nrm(p2);
            double det = dot(u0, cross(u1, u2));
            point q    = p0 ^ p1 ^ p2;
            check("meet of three planes has weight det", showx(p0) + showx(p1) + showx(p2) + showx(q), h, close(std::fabs(double(q.w())), std::fabs(det), 1, 16));
            if (std::fabs(det) > 0.05)
            {
                V3 r = (1 / det)
                       * ((-double(p0.d())) * cross(u1, u2) + (-double(p1.d())) * cross(u2, u0) + (-double(p2.d())) * cross(u0, u1));
                check("meet of three planes", showx(p0) + showx(p1) + showx(p2) + showx(q), h, close(pt(q), r, SZ * 4 * 3 / std::fabs(det) / std::fabs(det), 24));
            }
        }
        // reflection through ax + by + cz + d = 0
        {
            V3 nn    = rndunit(g);
            plane pl = PL(nn, g.uni(-4, 4));
            V3 u     = nrm(pl);
            double s = dot(u, x) + pl.d();
            V3 want  = x - (2 * s) * u;
            check("reflection of a point", showx(pl) + show(x), h, close(pt(pl(P(x))), want, 2 * X + 8 * SZ, 24));
            // two reflections: rotation by twice the angle between the planes
            V3 n2     = rndunit(g);
            plane pb  = PL(n2, g.uni(-2, 2));
            motor two = pb * pl;
            V3 y1 = pt(pb(pl(P(x)))), y2 = pt(two(P(x)));
            check("product of planes = two reflections", showx(pl) + showx(pb), h, close(y1, y2, 4 * X + 20 * SZ, 24));
        }
        (void)pi;
    }
}

// ------------------------------------------------------------ C28: measuring
static void c28(Rng& g, uint64_t n)
{
    for (uint64_t it = 0; it < n; ++it)
    {
        scene(g, -20, 12);
        V3 a = f3(rnd3(g, 8)), b = g.chance(6) ? a : f3(rnd3(g, 8));
        if (g.chance(8)) b = f3(a + SZ * 1e-3 * rndunit(g));
        V3 nn = rndunit(g), d0 = rndunit(g), d1 = g.chance(5) ? d0 : rndunit(g);
        V3 c     = f3(rnd3(g, 8));
        point A = P(a), B = P(b);
        uint64_t h = h3(h3(it, a), b);
        double sc  = len(a) + len(b) + len(c) + SZ;
        std::string in = show(a) + show(b);
        line AB = A & B;
        check("point-point distance", in + fmt(" -> %.9g", AB.norm()), h, close(AB.norm(), len(b - a), sc, 8));
        check("squared distance", in, h, close(AB.squared_norm(), dot(b - a, b - a), sc * sc, 8));
        plane p = PL(nn, g.uni(-5, 5));
        V3 u    = nrm(p);
        double sd = dot(u, a) + p.d();
        check("point-plane distance (join)", in + showx(p), h, close(std::fabs(double((A & p).scalar())), std::fabs(sd), sc + 5 * SZ, 8));
        check("point-plane distance (meet)", in + showx(p), h, close(std::fabs(double((A ^ p).e0123())), std::fabs(sd), sc + 5 * SZ, 8));
        check("point-plane signed both ways", in + showx(p), h,
              close((p & A).scalar(), -double((A & p).scalar()), sc + 5 * SZ, 8) && close((p ^ A).e0123(), -double((A ^ p).e0123()), sc + 5 * SZ, 8));
        line l   = LN(c, d0);
        V3 ud    = (1 / len(d0)) * d0;
        double pl = len(cross(a - c, ud));
        plane Al  = A & l;
        check("point-line distance", show(a) + showx(l) + fmt(" -> %.9g", Al.norm()), h, close(Al.norm(), pl, sc * 2, 16));
        // a point on the line is at distance zero (and not NaN)
        V3 on{0, 0, 0};
        line l0(0, 0, 0, float(d0.x), float(d0.y), float(d0.z));
        (void)on;
        float z = (point(0, 0, 0) & l0).norm();
        check("distance of incident point and line", showx(l0) + fmt(" -> %.9g", z), h, std::isfinite(z) && close(z, 0, 1, 8));
        // planes: cosine of the angle; parallel planes: distance
        V3 n2   = rndunit(g);
        plane q = PL(n2, g.uni(-5, 5));
        check("cosine between planes", showx(p) + showx(q), h, close(p | q, dot(nrm(p), nrm(q)), 1, 8));
        plane pp = PL(nn, g.uni(-5, 5));
        line pm  = p ^ pp;
        ideal_line im(pm.e01(), pm.e02(), pm.e03());
        check("distance of parallel planes", showx(p) + showx(pp), h, close(im.ideal_norm(), std::fabs(double(p.d()) - pp.d()), 10 * SZ, 8));
        // lines: cosine of the angle and distance of skew lines
        line m = LN(b, d1);
        check("cosine between lines", showx(l) + showx(m), h, close(l | m, -dot(ldir(l), ldir(m)), 1, 8));
        V3 cr = cross(d0, d1);
        double vol = dot(b - c, cr);
        check("moment of two lines", showx(l) + showx(m), h, close(std::fabs(double((l ^ m).e0123())), std::fabs(vol), sc * 2, 16));
        // area and volume from joins and meets
        V3 e = f3(rnd3(g, 4));
        plane tri = A & B & P(e);
        check("area of a triangle", in + show(e), h, close(tri.norm(), len(cross(b - a, e - a)), (sc + len(e)) * (sc + len(e)), 8));
        // norm() agrees with the components
        check("plane.norm", showx(p), h, close(p.norm(), len(nrm(p)), 1, 8));
        check("line.norm", showx(l), h, close(l.norm(), len(ldir(l)), 1, 8));
        // projections realise the distances
        V3 foot = pt(kln::project(A, p));
        check("projection onto a plane", showx(p) + show(a) + show(foot), h, close(foot, a - sd / dot(u, u) * u, 2 * sc + 10 * SZ, 16));
        V3 fl = pt(kln::project(A, l));
        check("projection onto a line", showx(l) + show(a) + show(fl), h, close(fl, c + dot(a - c, ud) * ud, 4 * sc, 24));
        plane par = kln::project(p, A);
        check("parallel plane through a point", showx(p) + show(a) + showx(par), h,
              close(len(cross(nrm(par), u)), 0, 1, 16) && close(dot(nrm(par), a) + par.d(), 0, sc, 16) && close(len(nrm(par)), 1, 1, 16));
        line lp = kln::project(l, A);
        check("parallel line through a point", showx(l) + show(a) + showx(lp), h,
              close(len(cross(ldir(lp), ud)), 0, 1, 16) && close(cross(a, ldir(lp)), lmom(lp), sc, 16) && close(len(ldir(lp)), 1, 1, 16));
        line lpl = kln::project(l, p);
        V3 pd    = d0 - dot(d0, u) * u;
        check("line projected onto a plane", showx(l) + showx(p) + showx(lpl), h,
              close(len(cross(ldir(lpl), pd)), 0, 1, 24) && close(dot(ldir(lpl), u), 0, 1, 24) && close(len(ldir(lpl)), len(pd), 1, 24));
        // angle between a line and a plane: sine from the meet, cosine from the
        // inner product
        check("sine between line and plane", showx(l) + showx(p), h,
              close(std::fabs(double((p ^ l).w())), std::fabs(dot(nrm(p), ldir(l))), 1, 16)
                  && close(std::fabs(double((l ^ p).w())), std::fabs(dot(nrm(p), ldir(l))), 1, 16));
        check("cosine between line and plane", showx(l) + showx(p), h,
              close((p | l).norm(), len(cross(nrm(p), ldir(l))), 1, 16) && close((l | p).norm(), len(cross(nrm(p), ldir(l))), 1, 16));
        // perpendicular and parallel on purpose
        {
            V3 t  = cross(nn, d0);
            line lt = LN(c, t), ln = LN(c, nn);
            double dt = dot(nrm(p), ldir(lt)), cn = len(cross(nrm(p), ldir(ln)));
            check("line in and line normal to a plane", showx(p) + showx(lt) + showx(ln), h,
                  close(std::fabs(double((p ^ lt).w())), std::fabs(dt), 1, 16) && close((p | ln).norm(), cn, 1, 16));
        }
        // entities without a finite part have norm zero, not NaN, and points at
        // infinity weight zero
        {
            plane hz(0, 0, 0, float(g.uni(-5, 5)));
            ideal_line il0(float(a.x), float(a.y), float(a.z));
            line li(il0);
            check("norm of the plane at infinity", showx(hz), h, hz.norm() == 0);
            check("norm of a line at infinity", showx(li), h, li.norm() == 0 && li.squared_norm() == 0);
            check("ideal norm", showx(il0), h, close(il0.ideal_norm(), len(a), len(a), 8) && close(il0.squared_ideal_norm(), dot(a, a), dot(a, a), 8));
            check("coincident points are at distance zero", show(a), h, (A & A).norm() == 0 || close((A & A).norm(), 0, sc * sc, 4));
            line par0 = p ^ plane(-p.x(), -p.y(), -p.z(), float(SZ * g.uni(-5, 5)));
            check("parallel planes meet at infinity", showx(p) + showx(par0), h, std::isfinite(par0.norm()) && close(par0.norm(), 0, 1, 8));
        }
        // projecting again changes nothing
        {
            point A1 = kln::project(A, p), A2 = kln::project(A1, p);
            check("projecting a point onto a plane twice", showx(p) + show(a), h, close(pt(A1), pt(A2), 2 * sc + 10 * SZ, 24));
            point B1 = kln::project(A, l), B2 = kln::project(B1, l);
            check("projecting a point onto a line twice", showx(l) + show(a), h, close(pt(B1), pt(B2), 4 * sc, 32));
            plane q2 = kln::project(par, A);
            check("projecting a plane through a point twice", showx(p) + show(a), h, either(nrm(q2), nrm(par), [&](double f) { return close(nrm(q2), f * nrm(par), 1, 24) && close(q2.d(), f * par.d(), sc, 24); }));
            line l2 = kln::project(lp, A);
            check("projecting a line through a point twice", showx(l) + show(a), h, either(ldir(l2), ldir(lp), [&](double f) { return close(ldir(l2), f * ldir(lp), 1, 24) && close(lmom(l2), f * lmom(lp), sc, 32); }));
            line l3 = kln::project(lpl, p);
            check("projecting a line onto a plane twice", showx(l) + showx(p), h, either(ldir(l3), ldir(lpl), [&](double f) { return close(ldir(l3), f * ldir(lpl), 1, 32) && close(lmom(l3), f * lmom(lpl), sc + 10 * SZ, 40); }));
        }
        plane pol = kln::project(p, l);
        {
            plane pol2 = kln::project(pol, l);
            check("projecting a plane onto a line twice", showx(l) + showx(p), h, either(nrm(pol2), nrm(pol), [&](double f) { return close(nrm(pol2), f * nrm(pol), 1, 32) && close(pol2.d(), f * pol.d(), sc, 40); }));
        }
        check("plane projected onto a line", showx(l) + showx(p) + showx(pol), h,
              close(dot(nrm(pol), ud), 0, 1, 24) && close(dot(nrm(pol), c) + pol.d(), 0, sc, 24));
    }
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed * 7919 + 17);
    std::string const& p = a.prop;
    if (p == "C07") c07(g, a.n);
    else if (p == "C08") c08(g, a.n);
    else if (p == "C09") c09(g, a.n);
    else if (p == "C10") c10(g, a.n);
    else if (p == "C11") c11(g, a.n);
    else if (p == "C14") c14(g, a.n);
    else if (p == "C15") c15(g, a.n);
    else if (p == "C16") c16(g, a.n);
    else if (p == "C17") c17(g, a.n);
    else if (p == "C18") c18(g, a.n);
    else if (p == "C28") c28(g, a.n);
    else if (p == "C02" || p == "C03") c18(g, a.n);
    else if (p == "C04" || p == "C05") c28(g, a.n);
    else if (p == "all")
    {
        uint64_t n = a.n;
        c07(g, n / 8 + 1), c08(g, n / 8 + 1), c09(g, n), c10(g, n), c11(g, n), c14(g, n), SZ = 1, c15(g, n), c16(g, n), c17(g, n), c18(g, n), c28(g, n);
    }
    else return 3;
    return R().finish();
}
