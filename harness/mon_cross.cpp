// Two implementations of one algebra observe each other: an expression is
// expanded by the symbolic tool with named coefficients, the same operations are
// executed by the numeric library, and the polynomials are evaluated at the
// coefficients the operands show.
#include "formula.hpp"
#include "ops.hpp"

using namespace vf;

struct Rule
{
    Op const* op;
    std::string form; // A and B stand for the operands
};

static std::vector<Rule> const& rules()
{
    static std::vector<Rule> v;
    if (!v.empty()) return v;
    for (auto& o : ops())
    {
        std::string n = o.name, p = o.prop, f;
        auto has = [&](char const* s) { return n.find(s) != std::string::npos; };
        if (n == "point*point" || has("int*") || has("*int") || has("=") || has("/")) continue; // normalized, truncated
        bool tr = o.k[0] == TRANS || (o.na == 2 && o.k[1] == TRANS);
        if (p == "C01") f = "A*B";
        else if (p == "C02") f = "A^B";
        else if (p == "C03" && has("&")) f = "A&B";
        else if (p == "C04") f = "A|B";
        else if (p == "C05") f = o.ko == POINT || n == "project(line,plane)" ? "(A|B)^B" : "(A|B)|B";
        else if (p == "C06") f = o.k[0] == PLANE ? "A*B*A" : o.k[1] == ORIGIN ? "" : "A*B*~A";
        else if (p == "C17" && !tr && n[0] == '~') f = "~A";
        else if (p == "C17" && !tr && n[0] == '-' && o.ko != PLANE && o.ko != POINT) f = "-A";
        else if (p == "C17" && !tr && o.na == 2 && has("+")) f = "A+B";
        else if (p == "C17" && !tr && o.na == 2 && has("-")) f = "A-B";
        else if (p == "C17" && !tr && has("*float")) f = "A*B";
        else if (p == "C17" && !tr && has("float*")) f = "B*A";
        else if (p == "C16" && o.na == 1 && o.k[0] != ORIGIN) f = "A";
        if (!f.empty()) v.push_back({&o, f});
    }
    return v;
}

// ------------------------------------------------------------- expressions
struct Node
{
    int rule = -1; // -1: an operand
    int leaf = -1;
    int sub[2] = {-1, -1};
};
struct Tree
{
    std::vector<Node> nodes; // children first
    std::vector<int> leaves; // kinds
    std::string text;
    int weight = 0;
    std::map<std::string, std::pair<int, int> > var; // name -> leaf, component
};

static std::string pick(Rng& g, std::initializer_list<char const*> l) { return *(l.begin() + g.below(int(l.size()))); }

// an operand with named coefficients, written in one of many ways
static std::string operand(Rng& g, Tree& t, int leaf, int kind)
{
    static char const* const spelling[16][3] = {
        {"", "", ""},          {"e0", "e0", "e0"},     {"e1", "e1", "e1"},      {"e01", "-e10", "e01"},
        {"e2", "e2", "e2"},    {"e02", "-e20", "e02"}, {"e12", "-e21", "e12"},  {"e021", "-e012", "e102"},
        {"e3", "e3", "e3"},    {"e03", "-e30", "e03"}, {"e31", "-e13", "e31"},  {"e013", "e301", "-e031"},
        {"e23", "-e32", "e23"}, {"e032", "-e023", "e203"}, {"e123", "-e132", "e231"}, {"e0123", "-e1023", "e0123"}};
    KindInfo const& ki = kinfo(kind);
    std::vector<std::string> parts;
    if (kind == TRANS) parts.push_back("1");
    for (int i = 0; i < ki.n; ++i)
    {
        std::string name = std::string(1, char('a' + leaf < 'e' ? 'a' + leaf : 'f' + (leaf - 4))) + std::to_string(i);
        t.var[name]      = {leaf, i};
        std::string b    = spelling[ki.b[i]][g.below(3)];
        std::string s;
        if (b.empty()) s = name;
        else if (b[0] == '-') s = "-" + name + " " + b.substr(1);
        else s = name + " " + b;
        parts.push_back(s);
    }
    std::string r;
    for (size_t n = parts.size(); n > 0; --n)
    {
        size_t i = size_t(g.below(int(n)));
        std::swap(parts[i], parts[n - 1]);
        if (!r.empty()) r += parts[n - 1][0] == '-' && g.chance(2) ? " " : pick(g, {" + ", "+", "  +\t"});
        r += parts[n - 1];
    }
    return "(" + r + ")";
}

static int grow(Rng& g, Tree& t, int kind, int depth, std::string& text);
static int apply(Rng& g, Tree& t, int rule, int depth, std::string& text)
{
    Rule const& r = rules()[size_t(rule)];
    Node n;
    n.rule = rule;
    std::string s[2];
    for (int i = 0; i < r.op->na; ++i) n.sub[i] = grow(g, t, r.op->k[i], depth - 1, s[i]);
    for (char c : r.form)
    {
        if (c == 'A') text += s[0];
        else if (c == 'B') text += s[1];
        else if (std::strchr("*^|&+-", c) && g.chance(3)) text += std::string(" ") + c + " ";
        else text += c;
    }
    text = "(" + text + ")";
    t.weight += r.op->prop[2] == '6' ? 2 : 1;
    t.nodes.push_back(n);
    return int(t.nodes.size()) - 1;
}
static int grow(Rng& g, Tree& t, int kind, int depth, std::string& text)
{
    if (depth > 0 && !g.chance(3))
    {
        std::vector<int> c;
        for (size_t i = 0; i < rules().size(); ++i)
            if (rules()[i].op->ko == kind) c.push_back(int(i));
        if (!c.empty()) return apply(g, t, c[size_t(g.below(int(c.size())))], depth, text);
    }
    Node n;
    n.leaf = int(t.leaves.size());
    t.leaves.push_back(kind);
    text = operand(g, t, n.leaf, kind);
    t.nodes.push_back(n);
    return int(t.nodes.size()) - 1;
}
// cost of the expansion, roughly
static double size(Tree const& t, int node)
{
    Node const& n = t.nodes[size_t(node)];
    if (n.rule < 0) return kinfo(t.leaves[size_t(n.leaf)]).n + 1;
    double r = 1;
    for (char c : rules()[size_t(n.rule)].form)
        if (c == 'A' || c == 'B') r *= size(t, n.sub[c == 'B']);
    return r;
}

static void observe(Rng& g, Tree const& t, int kind, int trials)
{
    std::string why;
    std::vector<Term> terms;
    Op const& last = *rules()[size_t(t.nodes.back().rule)].op;
    std::string op = last.name;
    uint64_t ht    = std::hash<std::string>()(t.text);
    if (!expand(t.text, terms, why))
    {
        check(op + ": expanded", t.text + ": " + why, ht, false);
        return;
    }
    // nothing the numeric type could not hold
    bool fits = true;
    for (auto& x : terms)
    {
        bool in = kind == TRANS && x.blade == 0 && x.factors.empty() && x.coef == 1;
        for (int i = 0; i < kinfo(kind).n; ++i) in = in || kinfo(kind).b[i] == x.blade;
        fits = fits && in;
    }
    check(op + ": fits its type", t.text, ht, fits);
    struct Flat
    {
        int blade;
        double coef;
        std::vector<std::pair<std::pair<int, int>, int> > f;
    };
    std::vector<Flat> flat;
    for (auto& x : terms)
    {
        Flat f;
        f.blade = x.blade;
        f.coef  = x.coef;
        for (auto& y : x.factors)
        {
            auto it = t.var.find(y.first);
            if (it == t.var.end())
            {
                check(op + ": known names", t.text + ": " + y.first, ht, false);
                return;
            }
            f.f.push_back({it->second, y.second});
        }
        flat.push_back(f);
    }
    for (int k = 0; k < trials; ++k)
    {
        std::vector<Obj> leaf;
        std::vector<Obs> lo;
        uint64_t h = ht;
        for (int kd : t.leaves)
        {
            Obj o;
            if (kd == SCALAR)
            {
                float c[8] = {coef(g, g.below(NSTYLE))};
                o          = make(SCALAR, c);
            }
            else
                o = gen(g, kd);
            for (auto& prev : leaf)
                if (prev.k == kd && g.chance(8)) o = related(g, prev);
            leaf.push_back(o);
            lo.push_back(o.observe());
            h = hobs(h, kd, lo.back());
        }
        std::vector<Obj> val;
        bool ok = true;
        for (auto& n : t.nodes)
        {
            Obj out;
            if (n.rule < 0) out = leaf[size_t(n.leaf)];
            else
            {
                Op const& o = *rules()[size_t(n.rule)].op;
                Obj in[3];
                for (int i = 0; i < o.na; ++i) in[i] = val[size_t(n.sub[i])];
                o.ex(in, out);
            }
            Obs ob = out.observe();
            if (!finite(out.k, ob) || maxabs(out.k, ob) > 1e15) ok = false;
            val.push_back(out);
        }
        MV want;
        for (auto& f : flat)
        {
            double x = f.coef;
            for (auto& y : f.f)
                for (int d = 0; d < std::abs(y.second); ++d)
                {
                    double c = lo[size_t(y.first.first)].c[y.first.second];
                    x        = y.second > 0 ? x * c : x / c;
                }
            want.v[f.blade] += x;
            want.m[f.blade] += std::fabs(x);
        }
        if (!ok || !finite(want) || maxm(want) > 1e28)
        {
            ++R().skipped;
            continue;
        }
        // terms that cancelled in the expansion still round in the execution
        if (t.weight > 1)
        {
            double s = 0;
            std::vector<double> big; // bound on each value by its operands
            for (size_t i = 0; i < t.nodes.size(); ++i)
            {
                Node const& n = t.nodes[i];
                double b      = 1;
                if (n.rule < 0) b = std::max(maxabs(leaf[size_t(n.leaf)].k, lo[size_t(n.leaf)]), t.leaves[size_t(n.leaf)] == TRANS ? 1. : 0.);
                else
                {
                    std::string const& f = rules()[size_t(n.rule)].form;
                    bool sum             = f == "A+B" || f == "A-B";
                    if (sum) b = 0;
                    for (char c : f)
                        if (c == 'A' || c == 'B') b = sum ? b + big[size_t(n.sub[c == 'B'])] : b * big[size_t(n.sub[c == 'B'])];
                    if (!sum) b *= 2;
                }
                big.push_back(b);
            }
            s = big.back();
            for (int i = 0; i < NB; ++i) want.m[i] = std::max(want.m[i], s);
        }
        Obj const& out = val.back();
        Obs o          = out.observe();
        R().event(op, h, maxv(want) > 0);
        int b = agrees(op, kind, o, want, 8. * t.weight);
        if (b >= 0 || R().samples.size() < 6)
        {
            std::string in = t.text;
            for (auto& l : leaf) in += ", " + show(l);
            in += " -> " + show(kind, o);
            R().sample(op + ": " + in);
            if (b >= 0) R().fail(op, in + " expected " + show(only(want, kind)) + " (differs in " + bname(b) + ")");
        }
    }
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    uint64_t done = 0;
    // every operation on its own, then compositions
    for (uint64_t round = 0; done < a.n; ++round)
    {
        for (size_t r = 0; r < rules().size() && done < a.n; ++r)
        {
            int depth = 1;
            if (round > 0) depth = 2 + g.below(3);
            Tree t;
            std::string text;
            apply(g, t, int(r), depth, text);
            if (size(t, int(t.nodes.size()) - 1) > 40000 || t.leaves.size() > 12) continue;
            t.text = text;
            observe(g, t, rules()[r].op->ko, depth == 1 ? 60 : 20);
            done += 20;
        }
    }
    return R().finish();
}
