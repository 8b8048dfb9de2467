// Monitor for the C bindings. The calls are made by C code (c_calls.c) on raw
// structures; this side fills them, reads them back and judges every result
// against the reference algebra and against the C++ call it stands for.
#include "ops.hpp"
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;
extern "C"
{
extern void (*const vf_c_calls[])(void const*, void const*, void*);
void vf_c_plane(float const*, void*);
void vf_c_point(float const*, void*);
void vf_c_line(float const*, void*);
size_t vf_c_size(int);
size_t vf_c_align(int);
}
struct CCall
{
    char const* name;
    int a, b, o;
    // composition: b applied after a, i.e. b * a; action: a acts on b
    int how; // 0 reflection, 1 action, 2 composition, 3 log, 4 exp
};
static const CCall calls[] = {
    {"kln_reflect_point", PLANE, POINT, POINT, 0},       {"kln_reflect_line", PLANE, LINE, LINE, 0},
    {"kln_reflect_plane", PLANE, PLANE, PLANE, 0},       {"kln_rotate_point", ROTOR, POINT, POINT, 1},
    {"kln_rotate_line", ROTOR, LINE, LINE, 1},           {"kln_rotate_plane", ROTOR, PLANE, PLANE, 1},
    {"kln_translate_point", TRANS, POINT, POINT, 1},     {"kln_translate_line", TRANS, LINE, LINE, 1},
    {"kln_translate_plane", TRANS, PLANE, PLANE, 1},     {"kln_motor_point", MOTOR, POINT, POINT, 1},
    {"kln_motor_line", MOTOR, LINE, LINE, 1},            {"kln_motor_plane", MOTOR, PLANE, PLANE, 1},
    {"kln_compose_rotors", ROTOR, ROTOR, ROTOR, 2},      {"kln_compose_translators", TRANS, TRANS, TRANS, 2},
    {"kln_compose_rotor_translator", ROTOR, TRANS, MOTOR, 2},
    {"kln_compose_translator_rotor", TRANS, ROTOR, MOTOR, 2},
    {"kln_compose_motors", MOTOR, MOTOR, MOTOR, 2},      {"motor_log", MOTOR, -1, LINE, 3},
    {"line_exp", LINE, -1, MOTOR, 4},
};
static size_t size_of(int k) { return k == LINE || k == MOTOR ? 32 : 16; }

// the C++ call that a binding stands for
static Obj cpp(int i, Obj const& a, Obj const& b)
{
    Obj o;
    switch (i)
    {
    case 0: o.set(a.as<plane>()(b.as<point>())); break;
    case 1: o.set(a.as<plane>()(b.as<line>())); break;
    case 2: o.set(a.as<plane>()(b.as<plane>())); break;
    case 3: o.set(a.as<rotor>()(b.as<point>())); break;
    case 4: o.set(a.as<rotor>()(b.as<line>())); break;
    case 5: o.set(a.as<rotor>()(b.as<plane>())); break;
    case 6: o.set(a.as<translator>()(b.as<point>())); break;
    case 7: o.set(a.as<translator>()(b.as<line>())); break;
    case 8: o.set(a.as<translator>()(b.as<plane>())); break;
    case 9: o.set(a.as<motor>()(b.as<point>())); break;
    case 10: o.set(a.as<motor>()(b.as<line>())); break;
    case 11: o.set(a.as<motor>()(b.as<plane>())); break;
    case 12: o.set(b.as<rotor>() * a.as<rotor>()); break;
    case 13: o.set(b.as<translator>() * a.as<translator>()); break;
    case 14: o.set(b.as<translator>() * a.as<rotor>()); break;
    case 15: o.set(b.as<rotor>() * a.as<translator>()); break;
    case 16: o.set(b.as<motor>() * a.as<motor>()); break;
    case 17: o.set(kln::log(a.as<motor>())); break;
    case 18: o.set(kln::exp(a.as<line>())); break;
    }
    return o;
}
static Obj unitmotor(Rng& g)
{
    float c[8];
    do
    {
        motor_coefs(unit_motor(g), c);
    } while (c[0] < -0.9f);
    return make(MOTOR, c);
}

static unsigned char* readonly;
static char const* volatile calling;
static void onWrite(int s, siginfo_t* i, void*)
{
    if (calling && (unsigned char*)i->si_addr >= readonly && (unsigned char*)i->si_addr < readonly + 4096)
    {
        std::fprintf(stdout, "FAIL\toperands are only read\t%s writes to an operand it was given as constant\n", calling);
        std::fflush(stdout);
        _exit(0);
    }
    std::signal(s, SIG_DFL);
    std::raise(s);
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    readonly = static_cast<unsigned char*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (readonly == MAP_FAILED) return 3;
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onWrite;
    sa.sa_flags     = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, 0);
    Rng g(a.seed);
    static const size_t sz[] = {sizeof(plane), sizeof(point), sizeof(line), sizeof(direction), sizeof(rotor), sizeof(translator), sizeof(motor)};
    static const size_t al[] = {alignof(plane), alignof(point), alignof(line), alignof(direction), alignof(rotor), alignof(translator), alignof(motor)};
    for (int i = 0; i < 7; ++i)
        check("structure alignment", fmt("structure %.0f has alignment ", i) + fmt("%.0f", double(vf_c_align(i))), uint64_t(i), vf_c_align(i) == al[i]);
    for (int i = 0; i < 7; ++i)
        check("structure sizes", fmt("structure %.0f has size ", i) + fmt("%.0f", double(vf_c_size(i))), uint64_t(i), vf_c_size(i) == sz[i]);
    // pools so that values produced by the bindings are fed back into them
    std::vector<std::vector<Obj> > pool(NKIND);
    for (uint64_t it = 0; it < a.n; ++it)
    {
        int i          = int(it % 19);
        CCall const& c = calls[i];
        Obj in[2], o, want;
        auto pick = [&](int k) {
            auto& p = pool[size_t(k)];
            if (!p.empty() && g.chance(4)) return p[size_t(g.below(int(p.size())))];
            return gen(g, k);
        };
        in[0] = i == 17 ? unitmotor(g) : pick(c.a);
        if (i == 18)
        {
            // moderate bivectors
            float f[6];
            for (auto& x : f) x = float(g.uni(-1.5, 1.5));
            if (g.chance(5)) f[3] = f[4] = f[5] = 0;
            in[0] = make(LINE, f);
        }
        if (c.b >= 0) in[1] = pick(c.b);
        if (!sane(in[0]) || (c.b >= 0 && !sane(in[1]))) continue;
        // one structure passed twice
        bool twice = c.a == c.b && g.chance(6);
        if (twice) in[1] = in[0];
        Obj before[2] = {in[0], in[1]};
        alignas(16) unsigned char buf[64];
        std::memset(buf, 0x5a, sizeof buf);
        unsigned char *pa = in[0].b, *pb = twice ? in[0].b : in[1].b;
        if (g.chance(4)) // operands nobody may write to
        {
            pa = readonly;
            pb = twice ? pa : readonly + 64;
            mprotect(readonly, 4096, PROT_READ | PROT_WRITE);
            std::memcpy(readonly, in[0].b, size_of(c.a));
            if (c.b >= 0) std::memcpy(readonly + 64, in[1].b, size_of(c.b));
            mprotect(readonly, 4096, PROT_READ);
            calling = c.name;
            vf_c_calls[i](pa, pb, buf + 16);
            calling = 0;
        }
        else
            vf_c_calls[i](pa, pb, buf + 16);
        o.k = c.o;
        std::memcpy(o.b, buf + 16, size_of(c.o));
        std::string s = show(in[0]) + (c.b >= 0 ? show(in[1]) : "");
        uint64_t h    = hobs(uint64_t(i), c.a, in[0].observe());
        if (c.b >= 0) h = hobs(h, c.b, in[1].observe());
        check(std::string(c.name) + " leaves its operands alone", s, h,
              !std::memcmp(before[0].b, in[0].b, size_of(c.a)) && (c.b < 0 || !std::memcmp(before[1].b, in[1].b, size_of(c.b))));
        MV A = in[0].value(), B = c.b >= 0 ? in[1].value() : MV(), w;
        double K = 8;
        switch (c.how)
        {
        case 0: w = reflect(A, B); break;
        case 1: w = sandwich(A, B); break;
        case 2: w = B * A; break;
        }
        Obs ob = o.observe();
        R().event(c.name, h, true);
        if (R().samples.size() < 6) R().sample(std::string(c.name) + ": " + s + " -> " + show(o));
        // the very same numbers as the C++ call (up to rounding)
        Obj cp  = cpp(i, before[0], before[1]);
        MV cv   = cp.value();
        if (c.how <= 2)
        {
            int b = agrees(c.name, c.o, ob, w, K);
            if (b >= 0)
                R().fail(c.name, s + " -> " + show(o) + " expected " + show(only(w, c.o)) + " (differs in " + bname(b) + ")");
            for (int b2 = 0; b2 < NB; ++b2) cv.m[b2] = w.m[b2];
        }
        else
            for (int b2 = 0; b2 < NB; ++b2) cv.m[b2] = 1 + maxabs(c.o, cp.observe());
        int b = agrees(c.name, c.o, ob, cv, 16);
        if (b >= 0)
            R().fail(std::string(c.name) + " = C++", s + " -> " + show(o) + " but the C++ call gives " + show(cp));
        if (sane(o))
        {
            auto& p = pool[size_t(c.o)];
            if (p.size() < 16) p.push_back(o);
            else p[size_t(g.below(16))] = o;
            // what comes out of the bindings is usable by C++ as is
            Op const& q = ops()[size_t(g.below(int(ops().size())))];
            for (int x = 0; x < q.na && q.ref; ++x)
                if (q.k[x] == o.k)
                {
                    Obj in2[3], r;
                    for (int y = 0; y < q.na; ++y) in2[y] = gen(g, q.k[y]);
                    in2[x] = o;
                    run_op(q, in2, r, true, "[follow-up on a value made by the bindings] ");
                    break;
                }
        }
        if (i == 0)
        {
            float f[6];
            for (auto& x : f) x = coef(g, g.below(NSTYLE));
            alignas(16) unsigned char raw[64];
            auto guard = [&](size_t n) {
                for (size_t j = 0; j < 64; ++j)
                    if ((j < 16 || j >= 16 + n) && raw[j] != 0x5a) return false;
                return true;
            };
            std::memset(raw, 0x5a, 64);
            vf_c_plane(f, raw + 16);
            Obj p;
            p.k = PLANE;
            std::memcpy(p.b, raw + 16, 16);
            Obs x = p.observe();
            check("kln_plane_init", show(p), hobs(it, PLANE, x), guard(16) && x.c[0] == f[0] && x.c[1] == f[1] && x.c[2] == f[2] && x.c[3] == f[3]);
            std::memset(raw, 0x5a, 64);
            vf_c_point(f, raw + 16);
            p.k = POINT;
            std::memcpy(p.b, raw + 16, 16);
            x = p.observe();
            check("kln_point_init", show(p), hobs(it, POINT, x), guard(16) && x.c[0] == f[0] && x.c[1] == f[1] && x.c[2] == f[2] && x.c[3] == 1);
            std::memset(raw, 0x5a, 64);
            vf_c_line(f, raw + 16);
            p.k = LINE;
            std::memcpy(p.b, raw + 16, 32);
            x = p.observe();
            bool ok = guard(32);
            for (int j = 0; j < 6; ++j) ok = ok && x.c[j] == f[j];
            check("kln_line_init", show(p), hobs(it, LINE, x), ok);
            // initialized structures are ordinary values (hidden lanes included)
            for (int t = 0; t < 4; ++t)
            {
                Op const& q = ops()[size_t(g.below(int(ops().size())))];
                for (int y = 0; y < q.na && q.ref; ++y)
                    if (q.k[y] == LINE)
                    {
                        Obj in2[3], r;
                        for (int z = 0; z < q.na; ++z) in2[z] = gen(g, q.k[z]);
                        in2[y] = p;
                        run_op(q, in2, r, true, "[follow-up on an initialized structure] ");
                        break;
                    }
            }
        }
    }
    return R().finish();
}
