// Memory workload: buffers that end exactly where the documented footprint
// ends, at every float alignment, and batches of exactly `count` elements.
// The observers are the sanitizers (or memcheck) this is built and run under;
// the workload itself only checks the canaries in front of each buffer.
#include "ops.hpp"
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;

// A page that can be made read-only, followed by one that cannot be touched:
// what an operation only reads is put at its end.
static unsigned char* page;
static char const* volatile reading;
static const size_t PAGE = 4096;
static void onFault(int s, siginfo_t* i, void*)
{
    unsigned char* at = (unsigned char*)i->si_addr;
    if (reading && at >= page && at < page + 2 * PAGE)
    {
        std::fprintf(stdout, "FAIL\t%s\t%s\n", reading, at < page + PAGE ? "writes to what it is given to read" : "touches memory behind what it is given to read");
        std::fflush(stdout);
        _exit(0);
    }
    std::signal(s, SIG_DFL);
    std::raise(s);
}
static void setupPages()
{
    page = static_cast<unsigned char*>(mmap(0, 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (page == MAP_FAILED) std::exit(3);
    mprotect(page + PAGE, PAGE, PROT_NONE);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onFault;
    sa.sa_flags     = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
}
// x is put in front of `tail` bytes at the end of the page
static unsigned char* constant(void const* x, size_t n, size_t tail = 0)
{
    mprotect(page, PAGE, PROT_READ | PROT_WRITE);
    std::memcpy(page + PAGE - tail - n, x, n);
    return page + PAGE - tail - n;
}
static void freeze(char const* what)
{
    mprotect(page, PAGE, PROT_READ);
    reading = what;
}
static void thaw()
{
    reading = 0;
    mprotect(page, PAGE, PROT_READ | PROT_WRITE);
}

struct Exact // n floats at an arbitrary 4-byte alignment, ending at the allocation
{
    unsigned char* base;
    int off, n;
    Exact(int off4, int n_)
        : off(16 + 4 * off4)
        , n(n_)
    {
        base = static_cast<unsigned char*>(std::malloc(size_t(off + 4 * n)));
        std::memset(base, 0x77, size_t(off));
    }
    float* p() { return reinterpret_cast<float*>(base + off); }
    void put(float const* f) { std::memcpy(base + off, f, size_t(4 * n)); }
    bool ok() const
    {
        for (int i = 0; i < off; ++i)
            if (base[i] != 0x77) return false;
        return true;
    }
    bool holds(float const* f) const { return !std::memcmp(base + off, f, size_t(4 * n)); }
    ~Exact() { std::free(base); }

private:
    Exact(Exact const&);
};
static void use(std::string const& op, Obj const& o, uint64_t h)
{
    Obs x = o.observe();
    // every visible coefficient is inspected, so that memcheck sees it
    double s = 0;
    for (int i = 0; i < kinfo(o.k).n; ++i)
        if (x.c[i] > 0.f) s += 1;
    check(op, show(o), hobs(hmix(h, uint64_t(s)), o.k, x), true);
}
template <class X>
static void usex(std::string const& op, X const& x, uint64_t h)
{
    Obj o;
    o.set(x);
    use(op, o, h);
}
static void buffers(Rng& g, uint64_t it)
{
    for (int off = 0; off < 5; ++off)
    {
        float c[8];
        for (auto& x : c) x = coef(g, g.below(NSTYLE));
        std::string at = fmt(" at offset %.0f", 4.0 * off);
        uint64_t h     = hmix(it, uint64_t(off));
        Exact b(off, 4), m8(off, 8), o4(off, 4);
        b.put(c);
        m8.put(c);
        {
            plane p(b.p());
            usex("plane(float*)" + at, p, h);
            plane q;
            q.load(b.p());
            usex("plane.load" + at, q, h);
        }
        {
            point p;
            p.load(b.p());
            usex("point.load" + at, p, h);
            p.store(o4.p());
            check("point.store" + at, "stored", h, o4.ok() && o4.holds(c));
        }
        {
            direction d(b.p());
            usex("direction(float*)" + at, d, h);
        }
        {
            rotor r;
            r.load_normalized(b.p());
            usex("rotor.load_normalized" + at, r, h);
            Exact s(off, 4);
            r.store(s.p());
            check("rotor.store" + at, "stored", h, s.ok() && s.holds(c));
        }
        {
            translator t;
            t.load_normalized(b.p());
            usex("translator.load_normalized" + at, t, h);
        }
        {
            motor m;
            m.load(m8.p());
            usex("motor.load" + at, m, h);
        }
        {
            branch r(c[0], c[1], c[2]);
            Exact s(off, 4);
            r.store(s.p());
            check("branch.store" + at, "stored", h, s.ok() && s.holds(std::vector<float>{s.p()[0], c[0], c[1], c[2]}.data()));
        }
        check("inputs untouched" + at, "", h, b.ok() && b.holds(c) && m8.ok() && m8.holds(c), false);
    }
}
template <class V, class X>
static void batches(Rng& g, char const* nm, V const& v0, uint64_t it)
{
    for (size_t n = 0; n < 10; ++n)
    {
        size_t cnt = n == 9 ? size_t(10 + g.below(40)) : n;
        // exactly cnt elements in each array
        V* v  = new V(v0);
        X* a  = static_cast<X*>(std::malloc(cnt * sizeof(X)));
        X* b  = static_cast<X*>(std::malloc(cnt * sizeof(X)));
        for (size_t i = 0; i < cnt; ++i) a[i] = gen(g, KindOf<X>::k).template as<X>();
        (*v)(a, b, cnt);
        std::string op = std::string(nm) + fmt(" of %.0f", double(cnt));
        for (size_t i = 0; i < cnt; ++i) usex(op, b[i], hmix(it, i));
        (*v)(a, a, cnt);
        for (size_t i = 0; i < cnt; ++i) usex(op + " in place", a[i], hmix(it, i));
        if (!cnt) check(op, "no element", it, true);
        // the versor and the input array can only be read
        for (size_t i = 0; i < cnt; ++i) a[i] = gen(g, KindOf<X>::k).template as<X>();
        X* in = reinterpret_cast<X*>(constant(a, cnt * sizeof(X)));
        V const* cv = reinterpret_cast<V const*>(constant(v, sizeof(V), cnt * sizeof(X)));
        freeze(nm);
        (*cv)(in, b, cnt);
        for (size_t i = 0; i < cnt && i < 3; ++i) a[i] = (*cv)(*in);
        thaw();
        for (size_t i = 0; i < cnt; ++i) usex(op + " from read-only memory", b[i], hmix(it, i + 100));
        std::free(a);
        std::free(b);
        delete v;
    }
}
static void singles(Rng& g, uint64_t it)
{
    // every operation on operands that live alone on the heap, in freshly
    // allocated (undefined) storage
    for (auto& op : ops())
    {
        Obj* in  = new Obj[3];
        Obj* out = new Obj;
        MV I[3];
        bool ok = false;
        for (int t = 0; t < 8 && !ok; ++t)
        {
            for (int a = 0; a < op.na; ++a)
            {
                in[a] = op.k[a] == SCALAR ? make(SCALAR, std::vector<float>{float(g.uni(1, 3)), 0}.data()) : gen(g, op.k[a], 1);
                I[a]  = in[a].value();
            }
            ok = !op.dom || op.dom(I);
        }
        if (ok)
        {
            op.ex(in, *out);
            use(op.name, *out, it);
        }
        delete[] in;
        delete out;
    }
}
template <class X>
static void through(char const* nm, X const& x, X const& y, uint64_t it, void (*f)(X const&, X const&, float*))
{
    X const* b = reinterpret_cast<X const*>(constant(&y, sizeof(X)));
    X const* a = reinterpret_cast<X const*>(constant(&x, sizeof(X), sizeof(X)));
    float out[64] = {};
    freeze(nm);
    f(*a, *b, out);
    thaw();
    double s = 0;
    for (float v : out)
        if (v > 0) s += v;
    Obj o;
    o.set(x);
    check(std::string(nm) + ": constant methods on a constant object", show(o), hobs(hmix(it, fbits(float(s))), o.k, o.observe()), true);
}
template <class X>
static void putx(X const& x, float*& o)
{
    Obj b;
    b.set(x);
    Obs v = b.observe();
    for (int i = 0; i < kinfo(b.k).n; ++i) *o++ = v.c[i];
}
// objects that can only be read, and loads from buffers that can only be read
static void constants(Rng& g, uint64_t it)
{
    auto P = [&](int k) { return gen(g, k, 1); };
    through<plane>("plane", P(PLANE).as<plane>(), P(PLANE).as<plane>(), it, [](plane const& a, plane const& b, float* o) {
        putx(a.normalized(), o), putx(a.inverse(), o), putx(a(b), o), putx(a + b, o), putx(a * 2.f, o), putx(-a, o);
        *o++ = a.norm() + a.x() + a.y() + a.z() + a.d() + a.e0() + a.e1() + a.e2() + a.e3() + float(a == b) + float(a.approx_eq(b, .1f)) + (a | b);
    });
    through<point>("point", P(POINT).as<point>(), P(POINT).as<point>(), it, [](point const& a, point const& b, float* o) {
        putx(a.normalized(), o), putx(a.inverse(), o), putx(a + b, o), putx(a & b, o), putx(!a, o), putx(2.f * a, o);
        *o++ = a.x() + a.y() + a.z() + a.w() + a.e123() + a.e032() + a.e013() + a.e021();
        a.store(o);
    });
    through<line>("line", P(LINE).as<line>(), P(LINE).as<line>(), it, [](line const& a, line const& b, float* o) {
        putx(a.normalized(), o), putx(a.inverse(), o), putx(a + b, o), putx(!a, o), putx(~a, o), putx(a * b, o);
        *o++ = a.e01() + a.e02() + a.e03() + a.e23() + a.e31() + a.e12() + float(a == b) + float(a.approx_eq(b, .1f)) + (a | b);
    });
    through<rotor>("rotor", P(ROTOR).as<rotor>(), P(ROTOR).as<rotor>(), it, [](rotor const& a, rotor const& b, float* o) {
        putx(a.normalized(), o), putx(a.inverse(), o), putx(a.constrained(), o), putx(a * b, o), putx(~a, o), putx(a(plane(1, 2, 3, 4)), o), putx(a(point(1, 2, 3)), o);
        *o++ = a.scalar() + a.e12() + a.e31() + a.e23() + float(a == b) + float(a.approx_eq(b, .1f)) + a.as_mat4x4().data[3] + a.as_mat3x4().data[2];
        a.store(o);
    });
    through<motor>("motor", P(MOTOR).as<motor>(), P(MOTOR).as<motor>(), it, [](motor const& a, motor const& b, float* o) {
        putx(a.normalized(), o), putx(a.inverse(), o), putx(a.constrained(), o), putx(a * b, o), putx(~a, o), putx(a(plane(1, 2, 3, 4)), o), putx(a(line(1, 2, 3, 4, 5, 6)), o);
        *o++ = a.scalar() + a.e12() + a.e0123() + a.e01() + float(a == b) + float(a.approx_eq(b, .1f)) + a.as_mat4x4().data[3] + a.as_mat3x4().data[2] + a(origin{}).x();
    });
    through<translator>("translator", P(TRANS).as<translator>(), P(TRANS).as<translator>(), it, [](translator const& a, translator const& b, float* o) {
        putx(a * b, o), putx(a.inverse(), o), putx(a(plane(1, 2, 3, 4)), o), putx(a(line(1, 2, 3, 4, 5, 6)), o), putx(a(point(1, 2, 3)), o);
        *o++ = a.e01() + a.e02() + a.e03();
    });
    float c[8];
    for (auto& x : c) x = coef(g, g.below(NSTYLE));
    c[0]     = 0;
    float* q = reinterpret_cast<float*>(constant(c, 16));
    freeze("loads");
    plane p(q), p2;
    p2.load(q);
    point x;
    x.load(q);
    direction d(q);
    rotor r;
    r.load_normalized(q);
    translator t;
    t.load_normalized(q);
    thaw();
    usex("plane(float*) of a constant", p, it), usex("plane.load of a constant", p2, it), usex("point.load of a constant", x, it);
    usex("direction(float*) of a constant", d, it), usex("rotor.load_normalized of a constant", r, it), usex("translator.load_normalized of a constant", t, it);
    q = reinterpret_cast<float*>(constant(c, 32));
    freeze("motor.load");
    motor m;
    m.load(q);
    thaw();
    usex("motor.load of a constant", m, it);
}
static void others(Rng& g, uint64_t it)
{
    float c[8];
    motor_coefs(unit_motor(g), c);
    motor m = mk<motor>(c);
    coefs_of(ROTOR, unit_motor(g, 0), c);
    rotor r  = mk<rotor>(c);
    auto mat = [&](char const* nm, float const* d, int n) {
        double s = 0;
        for (int i = 0; i < n; ++i)
            if (d[i] > 0) s += 1;
        check(nm, fmt("%.0f positive entries", s), hmix(it, fbits(d[0])), true);
    };
    kln::mat4x4* a = new kln::mat4x4(m.as_mat4x4());
    mat("motor.as_mat4x4", a->data, 16);
    kln::mat3x4* b = new kln::mat3x4(m.as_mat3x4());
    for (int col = 0; col < 4; ++col) mat("motor.as_mat3x4", b->data + 4 * col, 3);
    kln::mat4x4 ra = r.as_mat4x4();
    mat("rotor.as_mat4x4", ra.data, 16);
    kln::mat3x4 rb = r.as_mat3x4();
    for (int col = 0; col < 4; ++col) mat("rotor.as_mat3x4", rb.data + 4 * col, 3);
    float o[4];
    _mm_storeu_ps(o, (*a)(_mm_set_ps(1.f, 3.f, 2.f, 1.f)));
    mat("mat4x4 applied", o, 4);
    _mm_storeu_ps(o, (*b)(_mm_set_ps(1.f, 3.f, 2.f, 1.f)));
    mat("mat3x4 applied", o, 3);
    delete a;
    delete b;
    kln::euler_angles e = r.as_euler_angles();
    usex("euler roll", e.roll, it), usex("euler pitch", e.pitch, it), usex("euler yaw", e.yaw, it);
    usex("rotor(euler)", rotor(e), it);
    usex("rotor(angle, axis)", rotor(float(angle(g)), 0, 1, float(g.uni(-1, 1))), it);
    usex("translator(d, axis)", translator(float(g.uni(-9, 9)), 0, 1, float(g.uni(-1, 1))), it);
    line l(1, 2, 3, float(g.uni(-1, 1)), 1, 2);
    usex("motor(angle, d, line)", motor(float(angle(g)), float(g.uni(-3, 3)), l), it);
    usex("exp(line)", kln::exp(l), it);
    usex("exp(zero)", kln::exp(line(0, 0, 0, 0, 0, 0)), it);
    usex("log(motor)", kln::log(m), it);
    usex("log(identity)", kln::log(motor(1, 0, 0, 0, 0, 0, 0, 0)), it);
    usex("log(rotor)", kln::log(r), it);
    usex("exp(log(rotor))", kln::exp(kln::log(r)), it);
    usex("sqrt(motor)", kln::sqrt(m), it);
    usex("direction", direction(1, float(g.uni(-1, 1)), 2), it);
    motor mi = m, mj = m;
    check("motor ==", "", it, mi == mj && mi.approx_eq(mj, 1e-3f));
    rotor ri = r;
    check("rotor ==", "", it, ri == r && ri.approx_eq(r, 1e-3f));
    plane p(1, 2, 3, 4), q(1, 2, 3, 4);
    check("plane ==", "", it, p == q && p.approx_eq(q, 1e-3f));
    line k = l;
    check("line ==", "", it, k == l && k.approx_eq(l, 1e-3f));
}
int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    setupPages();
    for (uint64_t it = 0; it < a.n; ++it)
    {
        buffers(g, it);
        float c[8];
        motor_coefs(unit_motor(g), c);
        motor m = mk<motor>(c);
        coefs_of(ROTOR, unit_motor(g, 0), c);
        rotor r = mk<rotor>(c);
        batches<rotor, plane>(g, "rotor(plane*)", r, it);
        batches<rotor, line>(g, "rotor(line*)", r, it);
        batches<rotor, point>(g, "rotor(point*)", r, it);
        batches<rotor, direction>(g, "rotor(direction*)", r, it);
        batches<motor, plane>(g, "motor(plane*)", m, it);
        batches<motor, line>(g, "motor(line*)", m, it);
        batches<motor, point>(g, "motor(point*)", m, it);
        batches<motor, direction>(g, "motor(direction*)", m, it);
        singles(g, it);
        others(g, it);
        constants(g, it);
    }
    return R().finish();
}
