// Stand-in for the ChemicalFun formula parser (not installed in this sandbox; see DESIGN.md).
// Implements only the interface ThermoFun uses, with the documented meaning:
// a formula is a sequence of terms  Symbol[|valence|][count] | (formula)[count]  followed by an
// optional charge  +n / -n / @ (neutral aqueous).
#ifndef VERIF_CHEMICALFUN_STUB_H
#define VERIF_CHEMICALFUN_STUB_H
#include <cctype>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace ChemicalFun {

class ElementKey
{
    std::string symbol_;
    int class__ = 0;
    int isotope_ = 0;
public:
    explicit ElementKey(const std::string& asymbol, int aclass = 0, int aisotope = 0)
    : symbol_(asymbol), class__(aclass), isotope_(aisotope) {}
    auto Symbol() const -> const std::string& { return symbol_; }
    auto Class() const -> int { return class__; }
    auto Isotope() const -> int { return isotope_; }
    friend bool operator<(const ElementKey& a, const ElementKey& b)
    { return std::tie(a.symbol_, a.class__, a.isotope_) < std::tie(b.symbol_, b.class__, b.isotope_); }
    friend bool operator==(const ElementKey& a, const ElementKey& b)
    { return std::tie(a.symbol_, a.class__, a.isotope_) == std::tie(b.symbol_, b.class__, b.isotope_); }
};

struct ElementValues
{
    std::string recid;
    double atomic_mass = 0;
    double entropy = 0;
    double heat_capacity = 0;
    double volume = 0;
    int valence = 0;
    int number = 0;
    std::string name;
};

struct FormulaProperties
{
    std::string formula;
    double charge = 0;
    double atomic_mass = 0;
    double elemental_entropy = 0;
    double atoms_formula_unit = 0;
};

using ElementsData = std::map<ElementKey, ElementValues>;
using StoichMap = std::map<ElementKey, double>;

class FormulaToken
{
    std::string formula_;
    StoichMap coef_;
    double charge_ = 0;
    size_t pos_ = 0;

    double number(double def)
    {
        size_t b = pos_;
        while (pos_ < formula_.size() && (std::isdigit((unsigned char)formula_[pos_]) || formula_[pos_] == '.')) ++pos_;
        return b == pos_ ? def : std::strtod(formula_.substr(b, pos_ - b).c_str(), nullptr);
    }
    void terms(StoichMap& out)
    {
        while (pos_ < formula_.size()) {
            char c = formula_[pos_];
            if (c == '(') {
                ++pos_;
                StoichMap in;
                terms(in);
                if (pos_ >= formula_.size() || formula_[pos_] != ')') throw std::runtime_error("formula: missing ) in " + formula_);
                ++pos_;
                double n = number(1);
                for (auto& k : in) out[k.first] += n * k.second;
            } else if (std::isupper((unsigned char)c)) {
                std::string s(1, c);
                ++pos_;
                while (pos_ < formula_.size() && (std::islower((unsigned char)formula_[pos_]) || formula_[pos_] == '_')) s += formula_[pos_++];
                if (pos_ < formula_.size() && formula_[pos_] == '|') { // valence
                    ++pos_;
                    while (pos_ < formula_.size() && formula_[pos_] != '|') ++pos_;
                    ++pos_;
                }
                out[ElementKey(s)] += number(1);
            } else
                return;
        }
    }
public:
    explicit FormulaToken(const std::string& formula) : formula_(formula)
    {
        terms(coef_);
        if (pos_ < formula_.size() && (formula_[pos_] == '+' || formula_[pos_] == '-')) {
            double sgn = formula_[pos_] == '+' ? 1 : -1;
            ++pos_;
            charge_ = sgn * number(1);
        } else if (pos_ < formula_.size() && formula_[pos_] == '@') { ++pos_; }
        if (pos_ < formula_.size()) throw std::runtime_error("formula: cannot parse " + formula_);
    }
    auto getStoichCoefficients() const -> const StoichMap& { return coef_; }
    auto properties(const ElementsData& db) const -> FormulaProperties
    {
        FormulaProperties p;
        p.formula = formula_;
        p.charge = charge_;
        for (auto& k : coef_) {
            auto it = db.find(k.first);
            if (it == db.end()) throw std::runtime_error("formula: unknown element " + k.first.Symbol());
            p.atomic_mass += k.second * it->second.atomic_mass;
            p.elemental_entropy += k.second * it->second.entropy;
            p.atoms_formula_unit += k.second;
        }
        return p;
    }
};

class DBElements
{
    ElementsData data_;
public:
    auto addElement(const ElementKey& k, const ElementValues& v) -> void { data_[k] = v; }
    auto elements() const -> const ElementsData& { return data_; }
    auto formulasProperties(const std::string& f) const -> FormulaProperties { return FormulaToken(f).properties(data_); }
    static auto defaultValence(const std::string& s) -> int
    {
        static const std::map<std::string, int> v = {{"H",1},{"O",-2},{"Na",1},{"Cl",-1},{"Ca",2},{"C",4},{"Si",4}};
        auto it = v.find(s);
        return it == v.end() ? 0 : it->second;
    }
};

} // namespace ChemicalFun
#endif
