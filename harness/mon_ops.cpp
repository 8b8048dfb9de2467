// Single-step operations against the reference algebra: (1) every operation on
// generated, structured and related operands, (2) random typed histories in
// which the operands are whatever earlier operations produced.
#include "ops.hpp"
using namespace vf;

static std::vector<int> const& producers(int k)
{
    static std::vector<int> t[NKIND];
    static bool init = false;
    if (!init)
    {
        init = true;
        for (size_t i = 0; i < ops().size(); ++i)
            for (int a = 0; a < ops()[i].na; ++a) t[ops()[i].k[a]].push_back(int(i));
    }
    return t[k];
}

static Obj arg(Rng& g, int k, std::string const& op)
{
    (void)op;
    if (k == SCALAR)
    {
        float c[8];
        c[0] = g.chance(2) ? coef(g, g.below(NSTYLE + 1)) : float(g.below(21) - 10);
        if (g.chance(30)) c[0] = (g.chance(2) ? 1 : -1) * float(std::ldexp(1 + g.below(7) / 8.0, g.chance(2) ? 10 + g.below(20) : g.below(121) - 60));
        return make(SCALAR, c);
    }
    return gen(g, k);
}

static void direct(Rng& g, std::string const& prop, uint64_t n)
{
    std::vector<Op const*> mine;
    for (auto& o : ops())
        if (prop == o.prop || (prop == "all" && o.ref)) mine.push_back(&o);
    if (mine.empty()) return;
    for (uint64_t i = 0; i < n; ++i)
    {
        Op const& op = *mine[i % mine.size()];
        Obj in[3], out;
        for (int t = 0; t < 20; ++t)
        {
            for (int a = 0; a < op.na; ++a) in[a] = arg(g, op.k[a], op.name);
            if (op.na == 2 && op.k[0] == op.k[1] && g.chance(4)) in[1] = related(g, in[0]);
            if (run_op(op, in, out, true)) break;
        }
        // again, with part of one operand changed
        if (g.chance(3))
        {
            int t = g.below(op.na);
            if (in[t].k != SCALAR && in[t].k != ORIGIN)
            {
                in[t] = g.chance(4) ? related(g, in[t]) : halfway(in[t], arg(g, op.k[t], op.name), g.below(5));
                run_op(op, in, out, true, "[after a call that shares operands] ");
            }
        }
    }
}

// Values with hidden lanes must behave exactly as their visible coefficients.
static void probe(Rng& g, Obj const& o)
{
    if (o.k == SCALAR || o.k == ORIGIN) return;
    auto const& ps = producers(o.k);
    Op const& op   = ops()[size_t(ps[size_t(g.below(int(ps.size())))])];
    Obj in[3], out;
    int slot = -1;
    for (int a = 0; a < op.na; ++a)
    {
        if (op.k[a] == o.k && (slot < 0 || g.chance(2))) slot = a;
        in[a] = arg(g, op.k[a], op.name);
    }
    in[slot] = o;
    run_op(op, in, out, true, "[follow-up on a computed value] ");
}

static void histories(Rng& g, std::string const& prop, uint64_t n, bool probes)
{
    // pool of values per kind
    std::vector<std::vector<Obj> > pool(NKIND);
    uint64_t steps = 0;
    while (steps < n)
    {
        for (int k = 0; k < NKIND; ++k)
        {
            pool[size_t(k)].clear();
            for (int i = 0; i < 3; ++i) pool[size_t(k)].push_back(arg(g, k, ""));
        }
        for (int len = 0; len < 120 && steps < n; ++len)
        {
            Op const& op = ops()[size_t(g.below(int(ops().size())))];
            bool mine = op.ref && (prop == op.prop || prop == "all");
            // spend most steps on operations this property owns or that feed them
            if (!mine && g.chance(3)) continue;
            Obj in[3], out;
            bool ok = true;
            for (int a = 0; a < op.na; ++a)
            {
                auto& p = pool[size_t(op.k[a])];
                in[a]   = p[size_t(g.below(int(p.size())))];
            }
            ok = run_op(op, in, out, mine, "[history] ");
            ++steps;
            if (!ok) continue;
            if (!sane(out)) continue;
            if (probes && mine && g.chance(2)) probe(g, out);
            Obs oo = out.observe();
            if (maxabs(out.k, oo) < 1e-4 && !g.chance(8)) continue;
            auto& p = pool[size_t(op.ko)];
            p[size_t(g.below(int(p.size())))] = out;
            // keep versors from drifting away from the interesting set
            if (g.chance(10)) p[size_t(g.below(int(p.size())))] = arg(g, op.ko, "");
        }
    }
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    if (a.mode == "direct" || a.mode.empty() || a.mode == "both") direct(g, a.prop, a.n);
    if (a.mode == "history" || a.mode.empty() || a.mode == "both")
        histories(g, a.prop, a.n * 2, true);
    if (a.mode == "program") histories(g, "all", a.n, true);
    return R().finish();
}
