// A numeric call is a function of its operands and leaves nothing behind. Every
// task is repeated in changing orders, with other calls in between, over a stack
// and registers full of stale values and under several floating point settings
// of the caller. Observers: bits of the results, bytes of the operands, the
// control words, the allocator and the standard streams.
#include "tasks.hpp"

#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>

// ------------------------------------------------------------ the allocator
static volatile long blocks = 0;
extern "C"
{
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n)
{
    ++blocks;
    return __libc_malloc(n);
}
void* calloc(size_t n, size_t m)
{
    ++blocks;
    return __libc_calloc(n, m);
}
void* realloc(void* p, size_t n)
{
    ++blocks;
    return __libc_realloc(p, n);
}
void* aligned_alloc(size_t a, size_t n)
{
    ++blocks;
    return __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n)
{
    ++blocks;
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
}

// ------------------------------------------------------------- stale values
static uint32_t const stale[] = {0, 0xffffffffu, 0x7fc00000u, 0x7f800000u, 0x3f800000u, 0xbf800000u, 0x80000000u, 0x00000001u, 0x42f6e979u, 0xdeadbeefu};
static int const NSTALE       = int(sizeof stale / sizeof *stale);
static volatile uint32_t sink;
__attribute__((noinline)) static void litter(uint32_t w)
{
    volatile uint32_t buf[3000];
    for (int i = 0; i < 3000; ++i) buf[i] = w;
    sink = buf[w % 3000];
    alignas(16) uint32_t v[4] = {w, w, w, w};
    __asm__ volatile("movups (%0), %%xmm0\n\tmovups (%0), %%xmm1\n\tmovups (%0), %%xmm2\n\tmovups (%0), %%xmm3\n\t"
                     "movups (%0), %%xmm4\n\tmovups (%0), %%xmm5\n\tmovups (%0), %%xmm6\n\tmovups (%0), %%xmm7\n\t"
                     "movups (%0), %%xmm8\n\tmovups (%0), %%xmm9\n\tmovups (%0), %%xmm10\n\tmovups (%0), %%xmm11\n\t"
                     "movups (%0), %%xmm12\n\tmovups (%0), %%xmm13\n\tmovups (%0), %%xmm14\n\tmovups (%0), %%xmm15"
                     :
                     : "r"(v)
                     : "memory", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10",
                       "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
static unsigned short fpcw()
{
    unsigned short w;
    __asm__ volatile("fnstcw %0" : "=m"(w));
    return w;
}
// (the emulated build has its own notion of these)
static void setcsr(unsigned w) { __asm__ volatile("ldmxcsr %0" : : "m"(w) : "memory"); }
static unsigned getcsr()
{
    unsigned w;
    __asm__ volatile("stmxcsr %0" : "=m"(w) : : "memory");
    return w;
}

struct Setting
{
    char const* name;
    unsigned bits; // of the control register
};
static Setting const settings[] = {{"as the process starts", 0x1f80}, {"flush to zero", 0x9f80}, {"flush to zero, denormals are zero", 0x9fc0},
                                   {"round down", 0x3f80}, {"round up", 0x5f80}, {"round towards zero", 0x7f80}};
static int const NSET = int(sizeof settings / sizeof *settings);

// batches of every length, apart and in place; positions and sizes at which
// conversions and normalizations take another branch
template <class V, class X>
static void batches(Rng& g, std::vector<Task>& ts, char const* nm, V const* v)
{
    static int const sizes[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 257};
    size_t n = size_t(sizes[g.below(int(sizeof sizes / sizeof *sizes))]);
    std::vector<X>* in  = new std::vector<X>(n);
    std::vector<X>* out = new std::vector<X>(n);
    for (auto& x : *in) x = any<X>(g);
    X* empty = new X(any<X>(g));
    bool inplace = g.chance(3);
    ts.push_back(Task(nm, [=](Out& o) {
        if (n == 0)
        {
            X x = X(*empty), y = x;
            (*v)(&x, &y, 0);
            putx(o, y);
            return;
        }
        // what the output held is of no account
        if (inplace) std::memcpy(static_cast<void*>(out->data()), in->data(), n * sizeof(X));
        else std::memset(static_cast<void*>(out->data()), int(sink & 0xff), n * sizeof(X));
        (*v)(inplace ? out->data() : in->data(), out->data(), n);
        for (auto& e : *out) putx(o, e);
    }));
    ts.back().on(v, sizeof *v);
    if (n) ts.back().on(in->data(), n * sizeof(X));
}
static void corners(Rng& g, std::vector<Task>& ts)
{
    motor* m = new motor(any<motor>(g));
    rotor* r = new rotor(any<rotor>(g));
    batches<motor, point>(g, ts, "points through a motor", m), batches<motor, line>(g, ts, "lines through a motor", m);
    batches<motor, plane>(g, ts, "planes through a motor", m), batches<motor, direction>(g, ts, "directions through a motor", m);
    batches<rotor, point>(g, ts, "points through a rotor", r), batches<rotor, line>(g, ts, "lines through a rotor", r);
    batches<rotor, plane>(g, ts, "planes through a rotor", r), batches<rotor, direction>(g, ts, "directions through a rotor", r);
    float a = float(g.uni(-7, 7)), b = float(g.uni(-7, 7)), c = float(g.uni(-7, 7));
    float tiny = g.chance(2) ? 0.f : float(g.uni(-1, 1) * std::ldexp(1., -g.below(40)));
    static float const quarters[] = {1.57079637f, -1.57079637f, 3.14159274f, -3.14159274f, 6.28318548f, 0.f, 0.785398185f};
    float q = quarters[g.below(7)] + tiny;
    ts.push_back(Task("Euler angles near the poles", [=](Out& o) {
        rotor x{kln::euler_angles{a, q, b}};
        kln::euler_angles e = x.as_euler_angles();
        putx(o, x), put(o, e.roll), put(o, e.pitch), put(o, e.yaw);
    }));
    ts.push_back(Task("turns near a quarter, a half and none", [=](Out& o) {
        rotor x(q, a, b, c);
        translator t(tiny, a, b, c);
        motor y(q, tiny, line(0, 0, 0, a, b, c));
        putx(o, x), putx(o, kln::log(x)), putx(o, kln::sqrt(x)), putx(o, kln::exp(kln::log(x)));
        putx(o, t), putx(o, kln::log(t)), putx(o, kln::sqrt(t));
        putx(o, y), putx(o, kln::log(y)), putx(o, kln::sqrt(y)), putx(o, kln::exp(kln::log(y)));
        putx(o, x * t), putx(o, t * x), putx(o, motor(x)), putx(o, motor(t));
        putx(o, y(point(a, b, c))), putx(o, y(kln::origin())), putx(o, t(kln::origin()));
        x.constrain(), y.constrain(), putx(o, x), putx(o, y);
    }));
    ts.push_back(Task("entities of no or hardly any extent", [=](Out& o) {
        plane p(tiny, 0, 0, a), z(0, 0, 0, b);
        point w(tiny, tiny, 0);
        line l(a, b, c, tiny, 0, 0), n(0, 0, 0, 0, 0, 0);
        put(o, p.norm()), put(o, z.norm()), putx(o, p.normalized()), putx(o, z.normalized()), putx(o, p.inverse()), putx(o, z.inverse());
        putx(o, w.normalized()), putx(o, w.inverse()), putx(o, l.normalized()), putx(o, n.normalized()), putx(o, l.inverse()), putx(o, kln::exp(l)), putx(o, kln::exp(n));
        putx(o, p ^ z), putx(o, p & w), putx(o, l & w), putx(o, p | z), putx(o, kln::project(w, p)), putx(o, kln::project(l, z));
        put(o, float(p == z)), put(o, float(p.approx_eq(z, tiny))), put(o, float(l.approx_eq(n, 1e-6f)));
        putx(o, p * z), putx(o, l * n), putx(o, p(z)), putx(o, z(w)), putx(o, !p), putx(o, !w), putx(o, !l);
    }));
    float s = float(std::ldexp(g.uni(-1, 1), g.below(121) - 60));
    ts.push_back(Task("entities of any size", [=](Out& o) {
        plane p(a * s, b * s, c * s, a);
        direction d(1, 2, 3);
        d *= s;
        line l(a, b, c, a * s, b * s, c * s);
        branch h(a * s, b * s, c * s);
        rotor r;
        float rc[4] = {s, c * s, b * s, a * s};
        r.load_normalized(rc);
        motor m(s, a * s, b * s, c * s, a, b, c, s);
        putx(o, p.normalized()), putx(o, d.normalized()), putx(o, l.normalized()), putx(o, h.normalized()), putx(o, r.normalized()), putx(o, m.normalized());
        putx(o, p.inverse()), putx(o, l.inverse()), putx(o, h.inverse()), putx(o, r.inverse()), putx(o, m.inverse());
        d.normalize(), p.normalize(), l.normalize(), r.normalize(), m.normalize(), h.normalize();
        putx(o, d), putx(o, p), putx(o, l), putx(o, r), putx(o, m), putx(o, h);
        put(o, p.norm()), put(o, l.norm()), put(o, h.norm()), put(o, l.squared_norm());
        p /= s, d /= s, l /= s, r /= s, m /= s;
        putx(o, d), putx(o, p), putx(o, l), putx(o, r), putx(o, m);
        p *= int(a), d *= int(b), l /= int(c) * 2 + 1, r *= s;
        putx(o, d), putx(o, p), putx(o, l), putx(o, r);
    }));
}

static size_t const REPS = 18;
static uint64_t calls = 0, ntasks = 0;
static bool world(Rng& g, bool wide)
{
    std::vector<Task> ts;
    first.clear();
    for (int v = 0; v < 6; ++v) tasks(g, ts, v, wide), corners(g, ts);
    size_t N = ts.size();
    std::vector<std::vector<unsigned char> > before(N);
    for (size_t i = 0; i < N; ++i)
        for (auto& r : ts[i].reads)
            before[i].insert(before[i].end(), static_cast<unsigned char const*>(r.first), static_cast<unsigned char const*>(r.first) + r.second);
    struct Bad
    {
        size_t task;
        std::string what;
    };
    std::vector<Bad> bad;
    std::vector<std::vector<Out> > want((size_t)NSET, std::vector<Out>(N));
    std::vector<size_t> order(N);
    for (size_t i = 0; i < N; ++i) order[i] = i;
    struct Seen
    {
        size_t task;
        uint64_t h;
    };
    std::vector<Seen> seen;
    seen.reserve(REPS * N * 2);
    Out o;
    o.reserve(4096);

    // whatever is written to the standard streams from here on ends in a file
    std::fflush(stdout), std::fflush(stderr);
    int out1 = dup(1), out2 = dup(2), sinkfd = memfd_create("streams", 0);
    if (out1 < 0 || out2 < 0 || sinkfd < 0) return false;
    dup2(sinkfd, 1), dup2(sinkfd, 2);

    auto run = [&](size_t i, int set, bool judged) {
        uint32_t w = stale[g.below(NSTALE)];
        if (g.chance(3)) w = uint32_t(g.next());
        unsigned csr      = settings[set].bits | (g.chance(2) ? 0x3fu : 0u); // sticky flags
        unsigned short cw = fpcw();
        o.clear();
        litter(w);
        long b0 = blocks;
        setcsr(csr);
        ts[i].f(o);
        unsigned after = getcsr();
        setcsr(0x1f80);
        long b1 = blocks;
        ++calls;
        std::string what;
        if ((after & ~0x3fu) != (csr & ~0x3fu)) what = "leaves the control register at " + fmt("%.0f", after & ~0x3fu) + ", it was " + fmt("%.0f", csr & ~0x3fu);
        if (fpcw() != cw) what = "changes the x87 control word";
        if (b1 - b0 > ts[i].own) what = "takes memory from the heap";
        size_t at = 0;
        for (auto& r : ts[i].reads)
        {
            if (std::memcmp(&before[i][at], r.first, r.second) != 0)
            {
                what = "writes to an operand it was given to read";
                std::memcpy(&before[i][at], r.first, r.second);
            }
            at += r.second;
        }
        Out& ref = want[size_t(set)][i];
        uint64_t h = hmix(i, uint64_t(set));
        for (auto x : o) h = hmix(h, x);
        if (ref.empty()) ref = o;
        else if (ref != o)
        {
            for (size_t j = 0; j < o.size() && j < ref.size(); ++j)
                if (o[j] != ref[j])
                {
                    float x, y;
                    std::memcpy(&x, &ref[j], 4), std::memcpy(&y, &o[j], 4);
                    if (x != x && y != y) continue;
                    what = "value " + fmt("%.0f", double(j)) + " was " + fmt("%.9g", x) + ", now " + fmt("%.9g", y);
                }
        }
        if (judged) seen.push_back({i, hmix(h, w)});
        if (!what.empty() && bad.size() < 1000) bad.push_back({i, what + " (" + settings[set].name + ", stale " + fmt("%.0f", w) + ")"});
    };
    for (uint64_t rep = 0; rep <= REPS; ++rep)
    {
        // settings take turns, except that now and then they mix
        int set  = int(rep % uint64_t(NSET));
        bool mix = rep >= uint64_t(NSET) && g.chance(4);
        if (rep > 0)
            for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[size_t(g.below(int(i)))]);
        for (size_t i = 0; i < N; ++i)
        {
            int s2 = mix ? g.below(NSET) : set;
            run(order[i], s2, rep > 0);
            // the same call again at once, or right after one on related operands
            if (g.chance(8)) run(order[i], s2, rep > 0);
            if (g.chance(8))
            {
                size_t rel = (order[i] + N / 6 * size_t(1 + g.below(5))) % N;
                run(rel, s2, rep > 0);
                run(order[i], s2, rep > 0);
            }
        }
    }
    std::fflush(stdout), std::fflush(stderr);
    long written = long(lseek(sinkfd, 0, SEEK_END));
    dup2(out1, 1), dup2(out2, 2);
    close(out1), close(out2), close(sinkfd);
    ntasks += N;
    std::vector<char> spoiled(N, 0);
    for (auto& b : bad) spoiled[b.task] = 1;
    for (auto& s : seen)
        if (!spoiled[s.task]) check(ts[s.task].name, "", s.h, true);
    for (auto& b : bad) check(ts[b.task].name, b.what, b.task, false);
    check("nothing is written to the standard streams", fmt("%.0f bytes", double(written)), uint64_t(calls), written == 0);
    return true;
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    for (uint64_t w = 0; w < a.n; ++w)
        if (!world(g, w % 2 == 1)) return 3;
    std::printf("STAT\ttasks\t%llu\n", (unsigned long long)ntasks);
    std::printf("STAT\tcalls\t%llu\n", (unsigned long long)calls);
    return R().finish();
}
