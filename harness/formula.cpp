// The symbolic tool's side of mon_cross: compiled with the tool's own standard.
#include "formula.hpp"

#include "parser.hpp"

#include <stdexcept>

bool vf::expand(std::string const& text, std::vector<vf::Term>& out, std::string& why)
{
    static algebra const a{3, 0, 1};
    out.clear();
    try
    {
        mv m = parse(text, a);
        for (auto& t : m.terms)
            for (auto& p : t.second.terms)
            {
                vf::Term x;
                x.blade = int(t.first);
                x.coef  = p.second;
                for (auto& f : p.first.factors) x.factors.push_back({f.first, f.second});
                out.push_back(x);
            }
    }
    catch (std::exception const& e)
    {
        why = e.what();
        return false;
    }
    return true;
}
