// What the symbolic tool makes of an expression, in plain data: this interface
// is shared by translation units of different language standards.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace vf
{
struct Term
{
    int blade; // bit field, ascending order of indices
    double coef;
    std::vector<std::pair<std::string, int> > factors; // name, degree
};
// Expand in the algebra of projective space. False when the tool refuses.
bool expand(std::string const& text, std::vector<Term>& out, std::string& why);
} // namespace vf
