// Stand-in for the ChemicalFun dependency, which is not installed here: the assumed contract of the
// formula parser, as far as ThermoFun uses it (element symbols followed by numbers, a charge at the end).
#pragma once
#include <map>
#include <string>
#include <cctype>
#include <cstdlib>
namespace ChemicalFun {
class ElementKey { std::string s; int c, i; public:
    ElementKey(const std::string& symbol = "", int cls = 0, int isotope = 0) : s(symbol), c(cls), i(isotope) {}
    std::string Symbol() const { return s; } int Class() const { return c; } int Isotope() const { return i; }
    bool operator<(const ElementKey& o) const { return s != o.s ? s < o.s : c != o.c ? c < o.c : i < o.i; } bool operator==(const ElementKey& o) const { return s == o.s && c == o.c && i == o.i; } };
struct ElementValues { std::string recid; double atomic_mass = 0, entropy = 0, heat_capacity = 0, volume = 0; int valence = 0, number = 0; std::string name; };
typedef std::map<ElementKey, ElementValues> ElementsData;
struct FormulaProperties { std::string formula; int charge = 0; double atomic_mass = 0, elemental_entropy = 0; double atoms_formula_unit = 0; };
class FormulaToken { std::map<ElementKey, double> m; int z = 0; public:
    FormulaToken(const std::string& f) { size_t i = 0, n = f.size(); if (n && f[n - 1] == '@') --n;
        while (i < n) { if (isupper((unsigned char)f[i])) { std::string e(1, f[i++]); while (i < n && islower((unsigned char)f[i])) e += f[i++]; int k = 0; while (i < n && isdigit((unsigned char)f[i])) k = 10 * k + (f[i++] - '0'); ElementKey key(e); if (!m.count(key)) m[key] = 0; m[key] += k ? k : 1; }
            else if (f[i] == '+' || f[i] == '-') { int s = f[i++] == '+' ? 1 : -1, k = 0; while (i < n && isdigit((unsigned char)f[i])) k = 10 * k + (f[i++] - '0'); z = s * (k ? k : 1); } else ++i; } }
    const std::map<ElementKey, double>& getStoichCoefficients() const { return m; }
    FormulaProperties properties(const ElementsData& d) const { FormulaProperties p; p.charge = z; for (auto& x : m) { auto it = d.find(x.first); if (it == d.end()) continue; p.atomic_mass += x.second * it->second.atomic_mass; p.elemental_entropy += x.second * it->second.entropy; p.atoms_formula_unit += x.second; } return p; } };
class DBElements { ElementsData d; public:
    void addElement(const ElementKey& k, const ElementValues& v) { d[k] = v; }
    const ElementsData& elements() const { return d; }
    FormulaProperties formulasProperties(const std::string& f) const { return FormulaToken(f).properties(d); }
    static int defaultValence(const std::string&) { return 0; } };
}
