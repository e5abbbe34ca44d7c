// Conformance driver: executes a stream of abstract commands (one JSON object per line, as produced
// from the TLA+ specifications) on the real ThermoFun code and records, per command, what the public
// API returned.  It contains no oracle: every judgement is made by the trace specifications.
//
//   driver CMDS.ndjson OUT.ndjson SCRATCHDIR
//
// Numbers travel as decimal strings ("%.17g", "nan", "inf", "-inf").
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>
#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include "ThermoFun/ThermoFun.h"
#include "ThermoFun/OptimizationUtils.h"
#include "ThermoFun/ThermoParameters.h"
#include "ThermoFun/Common/Exception.h"
#include "ThermoFun/Common/OutputToCSV.h"
#include "ThermoFun/Common/ParseJsonToData.h"
#include "ThermoFun/Common/Units.hpp"

using json = nlohmann::json;
using namespace ThermoFun;
using TS = Reaktoro_::ThermoScalar;
using std::string;
using std::vector;

static string scratch = ".";

// ---------------------------------------------------------------- numbers
static string num(double x)
{
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
static double dbl(const json& j)
{
    if (j.is_number()) return j.get<double>();
    return std::strtod(j.get<string>().c_str(), nullptr);
}
static double dbl(const json& c, const char* k, double d) { return c.contains(k) ? dbl(c[k]) : d; }
static string str(const json& c, const char* k, const string& d = "") { return c.contains(k) ? c[k].get<string>() : d; }
static int integer(const json& c, const char* k, int d = 0) { return c.contains(k) ? c[k].get<int>() : d; }
static bool flag(const json& c, const char* k, bool d = false) { return c.contains(k) ? c[k].get<bool>() : d; }

static json ts(const TS& x) { return json::array({num(x.val), num(x.ddt), num(x.ddp), num(x.err), (int)x.sta.first}); }
// what the message of a property says: outside of the limits of the record, of the heat capacity equations, of the density range
static json mark(const TS& x)
{
    json a = json::array();
    for (auto [k, t] : {std::pair("record", "out of T("), std::pair("intervals", "Outside temperature bounds"), std::pair("density", "outside of 600-1400")})
        if (x.sta.second.find(t) != string::npos) a.push_back(k);
    return a;
}
static json vec(const vd& v) { json a = json::array(); for (double x : v) a.push_back(num(x)); return a; }
static json vec(const vvd& v) { json a = json::array(); for (auto& x : v) a.push_back(vec(x)); return a; }

static json dump(const ThermoPropertiesSubstance& p)
{
    return {{"G", ts(p.gibbs_energy)}, {"A", ts(p.helmholtz_energy)}, {"U", ts(p.internal_energy)}, {"H", ts(p.enthalpy)},
            {"S", ts(p.entropy)}, {"V", ts(p.volume)}, {"Cp", ts(p.heat_capacity_cp)}, {"Cv", ts(p.heat_capacity_cv)}};
}
static json dump(const ThermoPropertiesReaction& p)
{
    return {{"lnK", ts(p.ln_equilibrium_constant)}, {"logK", ts(p.log_equilibrium_constant)},
            {"G", ts(p.reaction_gibbs_energy)}, {"A", ts(p.reaction_helmholtz_energy)}, {"U", ts(p.reaction_internal_energy)},
            {"H", ts(p.reaction_enthalpy)}, {"S", ts(p.reaction_entropy)}, {"V", ts(p.reaction_volume)},
            {"Cp", ts(p.reaction_heat_capacity_cp)}, {"Cv", ts(p.reaction_heat_capacity_cv)}};
}
static json dump(const PropertiesSolvent& p)
{
    return {{"alpha", ts(p.Alpha)}, {"dAldT", ts(p.dAldT)}, {"beta", ts(p.Beta)}, {"albe", ts(p.Albe)},
            {"rho", ts(p.density)}, {"rhoT", ts(p.densityT)}, {"rhoP", ts(p.densityP)}, {"rhoTT", ts(p.densityTT)},
            {"rhoTP", ts(p.densityTP)}, {"rhoPP", ts(p.densityPP)}, {"p", ts(p.pressure)}};
}
static json dump(const ElectroPropertiesSolvent& p)
{
    return {{"eps", ts(p.epsilon)}, {"epsT", ts(p.epsilonT)}, {"epsP", ts(p.epsilonP)}, {"epsTT", ts(p.epsilonTT)},
            {"epsTP", ts(p.epsilonTP)}, {"epsPP", ts(p.epsilonPP)}, {"Z", ts(p.bornZ)}, {"Y", ts(p.bornY)}, {"Q", ts(p.bornQ)},
            {"N", ts(p.bornN)}, {"U", ts(p.bornU)}, {"X", ts(p.bornX)}};
}
static json dump(const Element& e, bool js = false)
{
    json r = {{"name", e.name()}, {"symbol", e.symbol()}, {"mass", num(e.molarMass())}, {"entropy", num(e.entropy())},
              {"cp", num(e.heatCapacity())}, {"volume", num(e.volume())}, {"valence", e.valence()}, {"class", e.class_()},
              {"isotope", e.isotopeMass()}, {"number", e.number()}};
    if (js) r["json"] = e.jsonString();
    return r;
}
static json dump(const Substance& s)
{
    auto p = s.thermoParameters();
    return {{"name", s.name()}, {"symbol", s.symbol()}, {"formula", s.formula()}, {"reaction", s.reactionSymbol()},
            {"mass", num(s.molarMass())}, {"Tr", num(s.referenceT())}, {"Pr", num(s.referenceP())},
            {"lowT", num(s.lowerT())}, {"upT", num(s.upperT())}, {"lowP", num(s.lowerP())}, {"upP", num(s.upperP())},
            {"eos", (int)s.methodGenEOS()}, {"mT", (int)s.method_T()}, {"mP", (int)s.method_P()},
            {"class", (int)s.substanceClass()}, {"calc", (int)s.thermoCalculationType()}, {"state", (int)s.aggregateState()},
            {"charge", s.charge()}, {"ref", dump(s.thermoReferenceProperties())},
            {"tint", vec(p.temperature_intervals)}, {"cp", vec(p.Cp_coeff)}, {"ad", vec(p.Cp_nonElectrolyte_coeff)},
            {"ph", vec(p.phase_transition_prop)}, {"landau", vec(p.m_landau_phase_trans_props)}, {"hkf", vec(p.HKF_parameters)},
            {"crit", vec(p.critical_parameters)}, {"hp98", vec(p.solute_holland_powell98_coeff)},
            {"expans", num(p.isobaric_expansivity)}, {"compr", num(p.isothermal_compresibility)}};
}
static json reactants(const std::map<string, double>& m)
{
    json a = json::array();
    for (auto& k : m) a.push_back({k.first, num(k.second)});
    return a;
}
static json dump(const Reaction& r)
{
    auto p = r.thermoParameters();
    return {{"name", r.name()}, {"symbol", r.symbol()}, {"equation", r.equation()}, {"reactants", reactants(r.reactants())},
            {"Tr", num(r.referenceT())}, {"Pr", num(r.referenceP())}, {"lowT", num(r.lowerT())}, {"upT", num(r.upperT())},
            {"lowP", num(r.lowerP())}, {"upP", num(r.upperP())}, {"eos", (int)r.methodGenEOS()}, {"mT", (int)r.method_T()},
            {"mP", (int)r.method_P()}, {"ref", dump(r.thermoReferenceProperties())},
            {"logk", vec(p.reaction_logK_fT_coeff)}, {"cp", vec(p.reaction_Cp_fT_coeff)}, {"v", vec(p.reaction_V_fT_coeff)},
            {"rb", vec(p.reaction_RB_coeff)}, {"fm", vec(p.reaction_FM_coeff)}, {"dm", vec(p.reaction_DM10_coeff)}};
}

// ---------------------------------------------------------------- objects
static std::map<string, std::unique_ptr<Database>> dbs;
static std::map<string, std::unique_ptr<ThermoEngine>> ens;
static std::map<string, std::unique_ptr<ThermoBatch>> bas;
static std::map<string, std::unique_ptr<Output>> outs;
static std::map<string, std::unique_ptr<Element>> els;
static std::map<string, std::unique_ptr<Substance>> subs;
static std::map<string, std::unique_ptr<Reaction>> reas;
static std::map<string, std::unique_ptr<OutputToCSV>> csvs;
static std::map<string, TS> regs;

template<class T> static T& at(std::map<string, std::unique_ptr<T>>& m, const json& c, const char* k)
{
    string h = c.at(k).get<string>();
    auto it = m.find(h);
    if (it == m.end()) throw std::logic_error("HARNESS unknown handle " + h);
    return *it->second;
}

struct Memo
{
    int calls = 0;
    std::function<double(double, double, double&, string)> ref;
    std::function<double(double, string)> val;
    std::function<string(int)> one;
    std::shared_ptr<std::function<double(double, string)>> ptr;
};
static std::map<string, std::shared_ptr<Memo>> memos;
static bool memoFail = false;
static string failP; // the pressure argument after a failed engine query
static double lastP = 1e5; // the pressure found by the last engine query at pressure 0
static string fresh(const json& c);

static void reset()
{
    outs.clear(); bas.clear(); ens.clear(); dbs.clear(); els.clear(); subs.clear(); reas.clear(); csvs.clear(); memos.clear();
    regs.clear();
    lastP = 1e5;
    memoFail = false;
    // files the library wrote into the scratch folder
    for (auto& f : std::filesystem::directory_iterator(scratch))
        if (f.is_regular_file() && f.path().extension() == ".csv") std::filesystem::remove(f.path());
}

// records are given as JSON objects in which a string "@x" stands for the literal x (numbers, null)
static string literal(const json& j)
{
    string d = j.dump(), o;
    for (size_t i = 0; i < d.size(); ++i) {
        if (d[i] == '"' && i + 1 < d.size() && d[i + 1] == '@') {
            size_t e = d.find('"', i + 2);
            o += d.substr(i + 2, e - i - 2);
            i = e;
        } else if (d[i] == '"') { // copy the whole string
            size_t e = i + 1;
            while (d[e] != '"') e += d[e] == '\\' ? 2 : 1;
            o += d.substr(i, e - i + 1);
            i = e;
        } else
            o += d[i];
    }
    return o;
}
// records named in a pool file ($VF_POOL/<pool>.json: name -> record)
static const json& pool(const string& name)
{
    static std::map<string, json> m;
    auto it = m.find(name);
    if (it == m.end()) {
        std::ifstream f(string(getenv("VF_POOL") ? getenv("VF_POOL") : ".") + "/" + name + ".json");
        if (!f.good()) throw std::logic_error("HARNESS pool " + name);
        it = m.emplace(name, json::parse(f)).first;
    }
    return it->second;
}
static string text(const json& c) {
    if (c.contains("use")) return literal(pool(str(c, "pool", "pool")).at(c["use"].get<string>())); 
    if (c.contains("raw")) return c["raw"];
    if (!c.contains("rec")) return c.at("text").get<string>();
    json j = c["rec"];
    if (c.contains("nulls")) for (auto& k : c["nulls"]) j[k.get<string>()] = nullptr;
    return flag(c, "wrap") ? "{\"properties\":" + literal(j) + ",\"_key\":\"x\"}" : literal(j);
}
static bool hasText(const json& c) { return (c.contains("use") && c["use"].is_string()) || c.contains("rec") || c.contains("text"); }
static vector<string> texts(const json& c)
{
    vector<string> r;
    if (c.contains("use")) for (auto& x : c["use"]) r.push_back(literal(pool(str(c, "pool", "pool")).at(x.get<string>())));
    else if (c.contains("recs")) for (auto& x : c["recs"]) r.push_back(literal(x));
    else r = c.at("records").get<vector<string>>();
    return r;
}
static bool hasTexts(const json& c) { return (c.contains("use") && c["use"].is_array()) || c.contains("recs") || c.contains("records"); }

// records to be loaded: items [kind, use | rec], conventions, and a way to give them
struct Source { bool list = false; vector<string> texts; string label = "unknown label", text; };
static Source load(const json& c)
{
    static const std::map<string, string> section = {{"el", "elements"}, {"su", "substances"}, {"re", "reactions"}}, label = {{"el", "element"}, {"su", "substance"}, {"re", "reaction"}};
    Source s;
    string way = c.at("way");
    auto rec = [&](const json& i) { return i.contains("text") ? i["text"].get<string>() : literal(i.contains("use") ? pool("pool").at(i["use"].get<string>()) : i.at("rec")); };
    auto labelled = [&](const json& i, bool wrap) {
        string k = i.at("kind"), l = "\"_label\":\"" + (label.count(k) ? label.at(k) : k) + "\"", r = rec(i);
        if (wrap) return "{\"_key\":\"k\",\"properties\":" + r + "," + l + "}";
        if (json::parse(r).contains("_label") && label.count(k)) return r;
        if (json::parse(r).contains("_label")) { json j = json::parse(r); j["_label"] = k; return j.dump(); }
        return json::parse(r).empty() ? "{" + l + "}" : "{" + l + "," + r.substr(1);
    };
    json is = c.contains("items") ? c["items"] : json::array();
    if (!c.contains("items")) for (auto& i : c.at("use")) is.push_back({{"kind", i.get<string>().substr(0, 2)}, {"use", i}});
    if (way == "list" || way == "wrapped") { s.list = true; for (auto& i : is) s.texts.push_back(labelled(i, way == "wrapped")); return s; }
    if (way == "kind") { s.list = true; if (!is.empty()) s.label = label.at(is[0].at("kind")); for (auto& i : is) s.texts.push_back(rec(i)); return s; }
    string t;
    if (way == "array" || way == "arrayfile") {
        for (auto& i : is) t += (t.empty() ? "" : ",\n") + labelled(i, integer(c, "wrap", 0));
        t = "[" + t + "]";
    } else { // sections
        for (auto& k : {"reactions", "elements", "substances"}) { // the order in the text does not matter
            string x;
            bool any = false;
            for (auto& i : is) if (section.at(i.at("kind")) == k) { any = true; x += (x.empty() ? "" : ",\n") + rec(i); }
            if (any || flag(c, "empty")) t += string(t.empty() ? "" : ",\n") + "\"" + k + "\":[" + x + "]";
        }
        if (c.contains("water")) t += string(t.empty() ? "" : ",") + "\"conventions\":{\"water_triple_point_reference\":\"" + c["water"].get<string>() + "\"}";
        t = "{" + t + "}";
    }
    if (way == "file" || way == "arrayfile") {
        static int n = 0;
        string f = scratch + "/load" + std::to_string(n++ % 8) + ".json";
        std::ofstream(f) << t;
        t = f;
    }
    s.text = t;
    return s;
}
// a database of the repository by its name
static string shipped(const json& c)
{
    string f = c.at("file");
    return f.find('/') != string::npos ? f : string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/Resources/databases/" + f + "-thermofun.json";
}
// the records of a file in another order and split into parts, each a command for load()
static vector<json> partsOf(const json& c)
{
    std::ifstream f(shipped(c));
    json d = json::parse(f);
    unsigned seed = c.at("seed").get<unsigned>();
    auto rnd = [&](size_t n) { seed = seed * 1103515245u + 12345u; return (seed >> 8) % n; };
    static const std::map<string, string> kinds = {{"elements", "el"}, {"substances", "su"}, {"reactions", "re"}};
    json items = json::array();
    for (auto& k : kinds) if (d.contains(k.first)) for (auto& r : d[k.first]) items.push_back({{"kind", k.second}, {"text", r.dump()}});
    for (size_t i = items.size(); i > 1; --i) std::swap(items[i - 1], items[rnd(i)]);
    const json& ways = c.at("ways");
    size_t n = ways.size(), b = 0;
    vector<json> out;
    for (size_t i = 0; i < n; ++i) {
        size_t e = i + 1 == n ? items.size() : b + rnd(items.size() - b + 1);
        json part = json::array();
        for (; b < e; ++b) part.push_back(items[b]);
        out.push_back({{"way", ways[i]}, {"items", part}});
    }
    return out;
}
static void addOneByOne(Database& d, const json& items, bool js)
{
    for (auto& i : items) {
        string k = i.at("kind"), t = i.at("text");
        if (k == "el") { if (js) d.addElement(t); else d.setElement(Element(t)); }
        if (k == "su") { if (js) d.addSubstance(t); else d.setSubstance(Substance(t)); }
        if (k == "re") { if (js) d.addReaction(t); else d.setReaction(Reaction(t)); }
    }
}
static string hash(const string& s)
{
    unsigned long long h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    char b[32];
    std::snprintf(b, sizeof b, "%016llx", h);
    return b;
}
// file content given inline ("text") or by name ("file", relative to /repo or absolute)
static string source(const json& c)
{
    if (hasText(c) && !flag(c, "tofile")) return text(c);
    if (hasText(c)) { // write text to a scratch file, pass the path
        static int n = 0;
        string f = scratch + "/src" + std::to_string(n++) + ".json";
        std::ofstream(f) << text(c);
        return f;
    }
    return c.at("file").get<string>();
}
static vector<string> strings(const json& j) { return j.get<vector<string>>(); }
static vd doubles(const json& j) { vd r; for (auto& x : j) r.push_back(dbl(x)); return r; }

static json lines(const string& file, const string& sep)
{
    json rows = json::array();
    std::ifstream f(file);
    if (!f.good()) return rows;
    string l;
    while (std::getline(f, l)) {
        if (sep.empty()) { rows.push_back(l); continue; }
        json cells = json::array();
        size_t b = 0, e;
        while ((e = l.find(sep, b)) != string::npos) { cells.push_back(l.substr(b, e - b)); b = e + sep.size(); }
        cells.push_back(l.substr(b));
        rows.push_back(cells);
    }
    return rows;
}

static json prefs(const EnginePreferences& p)
{
    return {{"memo", p.enable_memoize}, {"size", (long)p.max_cache_size}, {"state", p.solvent_state}, {"solvent", p.solvent_symbol},
            {"fallback", p.fallback_to_reference_properties}, {"gas", p.apply_pressure_correction_to_gas_props}};
}
static void applyPrefs(EnginePreferences& p, const json& c)
{
    if (c.contains("memo")) p.enable_memoize = c["memo"].get<bool>();
    if (c.contains("size")) p.max_cache_size = c["size"].get<int>();
    if (c.contains("state")) p.solvent_state = c["state"].get<int>();
    if (c.contains("solvent")) p.solvent_symbol = c["solvent"].get<string>();
    if (c.contains("fallback")) p.fallback_to_reference_properties = c["fallback"].get<bool>();
    if (c.contains("gas")) p.apply_pressure_correction_to_gas_props = c["gas"].get<bool>();
}
static json dbdump(const Database& d)
{
    json r;
    r["el"] = d.getElementsList(); r["su"] = d.getSubstancesList(); r["re"] = d.getReactionsList();
    r["n"] = json::array({(int)d.numberOfElements(), (int)d.numberOfSubstances(), (int)d.numberOfReactions()});
    return r;
}
static json elmap(const std::map<Element, double>& m)
{
    json a = json::array();
    for (auto& k : m) a.push_back({k.first.symbol(), num(k.second), num(k.first.molarMass()), num(k.first.entropy())});
    return a;
}

// small observable function for the memoisation templates
static double memoBody(double T, double P, const string& s)
{
    double h = 0;
    for (char c : s) h = h * 31 + c;
    return T * 1000 + P * 7 + h;
}

static json sol(const vector<vector<double>>& r) { return vec(r); }

// ---------------------------------------------------------------- ThermoScalar expressions
static TS expr(const json& e)
{
    string op = e.at(0).get<string>();
    auto d = [&](int i) { return dbl(e.at(i)); };
    if (op == "ts") return TS(d(1), d(2), d(3), d(4), {(Reaktoro_::Status)e.at(5).get<int>(), ""});
    if (op == "T") return Reaktoro_::Temperature(d(1));
    if (op == "P") return Reaktoro_::Pressure(d(1));
    if (op == "lit") return TS(d(1));
    if (op == "asg") { TS x; x = d(1); return x; }
    if (op == "reg") return regs.at(e.at(1).get<string>());
    if (op == "neg") return -expr(e.at(1));
    if (op == "pos") return +expr(e.at(1));
    if (op == "sqrt") return sqrt(expr(e.at(1)));
    if (op == "exp") return exp(expr(e.at(1)));
    if (op == "log") return log(expr(e.at(1)));
    if (op == "log10") return log10(expr(e.at(1)));
    if (op == "powd") return pow(expr(e.at(1)), d(2));
    if (op == "pow") return pow(expr(e.at(1)), expr(e.at(2)));
    if (op == "add") return expr(e.at(1)) + expr(e.at(2));
    if (op == "sub") return expr(e.at(1)) - expr(e.at(2));
    if (op == "mul") return expr(e.at(1)) * expr(e.at(2));
    if (op == "div") return expr(e.at(1)) / expr(e.at(2));
    if (op == "addd") return expr(e.at(1)) + d(2);
    if (op == "subd") return expr(e.at(1)) - d(2);
    if (op == "muld") return expr(e.at(1)) * d(2);
    if (op == "divd") return expr(e.at(1)) / d(2);
    if (op == "dadd") return d(1) + expr(e.at(2));
    if (op == "dsub") return d(1) - expr(e.at(2));
    if (op == "dmul") return d(1) * expr(e.at(2));
    if (op == "ddiv") return d(1) / expr(e.at(2));
    if (op == "addq") { TS x = expr(e.at(1)); x += expr(e.at(2)); return x; }
    if (op == "subq") { TS x = expr(e.at(1)); x -= expr(e.at(2)); return x; }
    if (op == "mulq") { TS x = expr(e.at(1)); x *= expr(e.at(2)); return x; }
    if (op == "divq") { TS x = expr(e.at(1)); x /= expr(e.at(2)); return x; }
    if (op == "addqd") { TS x = expr(e.at(1)); x += d(2); return x; }
    if (op == "subqd") { TS x = expr(e.at(1)); x -= d(2); return x; }
    if (op == "mulqd") { TS x = expr(e.at(1)); x *= d(2); return x; }
    if (op == "divqd") { TS x = expr(e.at(1)); x /= d(2); return x; }
    throw std::logic_error("HARNESS unknown expression " + op);
}

// ---------------------------------------------------------------- batches
// separator and properties of the calculation an output comes from
struct OutInfo { string sep; vector<string> props; bool empty; };
static std::map<string, OutInfo> outInfo;

static json runCsv(const json& c, Output& o, const string& which)
{
    static int n = 0;
    string f = "out" + std::to_string(n++) + ".csv";
    OutInfo& info = outInfo.at(c.at("out").get<string>());
    string sep = info.sep;
    if (which == "grid") {
        // the property name is put in front of the file name: work inside the scratch folder
        char old[4096];
        if (!getcwd(old, sizeof old)) throw std::logic_error("HARNESS getcwd");
        if (chdir(scratch.c_str())) throw std::logic_error("HARNESS chdir");
        try { o.toCSVPropertyGrid(f); } catch (...) { if (chdir(old)) {} throw; }
        if (chdir(old)) {}
        json r = json::array();
        for (auto& p : info.props) { r.push_back(lines(scratch + "/" + p + "_" + f, sep)); }
        for (auto& p : info.props) unlink((scratch + "/" + p + "_" + f).c_str());
        return r;
    }
    f = scratch + "/" + f;
    if (which == "csv") o.toCSV(f); else o.toCSVTransposed(f);
    json r = lines(f, sep);
    unlink(f.c_str());
    return r;
}

static json calc(const json& c)
{
    ThermoBatch& b = at(bas, c, "ba");
    string kind = str(c, "kind", "sub"), form = str(c, "form", "pair");
    vector<string> sy, pr;
    if (c.contains("syms")) sy = strings(c["syms"]);
    if (c.contains("props")) pr = strings(c["props"]);
    std::unique_ptr<Output> o;
    vtps vs; vtpr vr;
    if (c.contains("given")) { // results supplied by the caller, computed here with an engine
        ThermoEngine& e = at(ens, c, "en");
        for (auto& g : c["given"]) {
            double P = dbl(g.at(1));
            if (kind == "sub") vs.push_back(e.thermoPropertiesSubstance(dbl(g.at(0)), P, g.at(2).get<string>()));
            else vr.push_back(e.thermoPropertiesReaction(dbl(g.at(0)), P, g.at(2).get<string>()));
        }
    }
    bool given = c.contains("given");
    if (form == "one") {
        double T = dbl(c.at("T")), P = dbl(c.at("P"));
        if (kind == "sub") o.reset(new Output(b.thermoPropertiesSubstance(T, P, sy.at(0), pr.at(0))));
        else o.reset(new Output(b.thermoPropertiesReaction(T, P, sy.at(0), pr.at(0))));
    } else if (form == "pair") {
        double T = dbl(c.at("T")), P = dbl(c.at("P"));
        if (kind == "sub") o.reset(new Output(b.thermoPropertiesSubstance(T, P, sy, pr)));
        else o.reset(new Output(b.thermoPropertiesReaction(T, P, sy, pr)));
    } else if (form == "pairs") {
        vvd tp; for (auto& x : c.at("tp")) tp.push_back(doubles(x));
        if (kind == "sub") o.reset(new Output(given ? b.thermoPropertiesSubstance(tp, sy, pr, vs) : b.thermoPropertiesSubstance(tp, sy, pr)));
        else o.reset(new Output(given ? b.thermoPropertiesReaction(tp, sy, pr, vr) : b.thermoPropertiesReaction(tp, sy, pr)));
    } else if (form == "grid") {
        vd Ts = doubles(c.at("Ts")), Ps = doubles(c.at("Ps"));
        if (kind == "sub") o.reset(new Output(given ? b.thermoPropertiesSubstance(Ts, Ps, sy, pr, vs) : b.thermoPropertiesSubstance(Ts, Ps, sy, pr)));
        else o.reset(new Output(given ? b.thermoPropertiesReaction(Ts, Ps, sy, pr, vr) : b.thermoPropertiesReaction(Ts, Ps, sy, pr)));
    } else if (form == "incr") {
        if (kind == "sub") o.reset(new Output(b.thermoPropertiesSubstance(sy, pr)));
        else o.reset(new Output(b.thermoPropertiesReaction(sy, pr)));
    } else
        throw std::logic_error("HARNESS form " + form);
    auto rows = o->to2DVectorDouble();
    json r = {{"rows", sol(rows)}};
    outInfo[c.at("out").get<string>()] = {b.preferences().separator, pr, rows.empty() || rows[0].empty()};
    outs[c.at("out").get<string>()] = std::move(o);
    return r;
}

// ---------------------------------------------------------------- engine queries
static json query(const ThermoEngine& e, const json& c)
{
    string op = c.at("op");
    // a number, or a number and a unit
    auto cond = [](const json& v, const char* unit) {
        string t = v.is_string() ? v.get<string>() : "";
        auto b = t.find(' ');
        return b == string::npos ? dbl(v) : units::convert(dbl(t.substr(0, b)), t.substr(b + 1), unit);
    };
    double T = cond(c.at("T"), "K"), P = c["P"] == "last" ? lastP : cond(c["P"], "Pa");
    string s = c.at("s");
    bool zero = P == 0, obj = c.contains("objdb"), rec = c.contains("obj"); // an object of a database, or one made from a record
    json p, marks;
    try {
        auto S = [&] { return rec ? Substance(literal(pool("pool").at(c["obj"].get<string>()))) : at(dbs, c, "objdb").getSubstance(s); };
        auto R = [&] { return rec ? Reaction(literal(pool("pool").at(c["obj"].get<string>()))) : at(dbs, c, "objdb").getReaction(s); };
        obj = obj || rec;
        int st = integer(c, "state", -1);
        if (op == "en_sub") {
            auto a = obj ? e.thermoPropertiesSubstance(T, P, S()) : e.thermoPropertiesSubstance(T, P, s);
            p = dump(a);
            marks = json{{"G", mark(a.gibbs_energy)}, {"H", mark(a.enthalpy)}, {"S", mark(a.entropy)}, {"Cp", mark(a.heat_capacity_cp)}};
        }
        if (op == "en_rea") p = dump(obj ? e.thermoPropertiesReaction(T, P, R()) : e.thermoPropertiesReaction(T, P, s));
        if (op == "en_rfr") p = dump(obj ? e.thermoPropertiesReactionFromReactants(T, P, R()) : e.thermoPropertiesReactionFromReactants(T, P, s));
        if (op == "en_solv") p = dump(obj ? e.propertiesSolvent(T, P, S(), st) : e.propertiesSolvent(T, P, s, st));
        if (op == "en_elec") p = dump(obj ? e.electroPropertiesSolvent(T, P, S(), st) : e.electroPropertiesSolvent(T, P, s, st));
    } catch (...) { failP = num(P); throw; }
    if (zero && P != 0) lastP = P;
    if (flag(c, "msg")) return {{"P", num(P)}, {"p", p}, {"m", marks}};
    return {{"P", num(P)}, {"p", p}};
}

// ---------------------------------------------------------------- dispatch
static json run(const json& c)
{
    const string op = c.at("op").get<string>();
    json r = json::object();

    if (op == "reset") { reset(); return r; }

    // ---- databases
    if (op == "db_new") {
        if (c.contains("way")) { Source x = load(c); dbs[c["db"]] = x.list ? std::make_unique<Database>(x.texts, x.label) : std::make_unique<Database>(x.text); }
        else if (hasTexts(c)) dbs[c["db"]] = std::make_unique<Database>(texts(c), str(c, "label", "unknown label"));
        else if (hasText(c) || c.contains("file")) dbs[c["db"]] = std::make_unique<Database>(source(c));
        else dbs[c["db"]] = std::make_unique<Database>();
        return dbdump(at(dbs, c, "db"));
    }
    if (op == "db_copy") { dbs[c["db"]] = std::make_unique<Database>(at(dbs, c, "from")); return dbdump(at(dbs, c, "db")); }
    if (op == "db_assign") { at(dbs, c, "db") = at(dbs, c, "from"); return dbdump(at(dbs, c, "db")); }
    if (op == "db_del") { dbs.erase(c["db"].get<string>()); return r; }
    if (op == "db_append") {
        Database& d = at(dbs, c, "db");
        if (c.contains("way")) { Source x = load(c); if (x.list) d.appendData(x.texts, x.label); else d.appendData(x.text); }
        else if (hasTexts(c)) d.appendData(texts(c), str(c, "label", "unknown label"));
        else d.appendData(source(c));
        return dbdump(d);
    }
    if (op == "db_add" || op == "db_set") {
        Database& d = at(dbs, c, "db");
        string k = c.at("kind"), t = c.contains("use") ? literal(pool("pool").at(c["use"].get<string>())) : text(c);
        bool js = flag(c, "json"), add = op == "db_add";
        if (k == "el") { if (js) add ? d.addElement(t) : d.setElement(t); else add ? d.addElement(Element(t)) : d.setElement(Element(t)); }
        if (k == "su") { if (js) add ? d.addSubstance(t) : d.setSubstance(t); else add ? d.addSubstance(Substance(t)) : d.setSubstance(Substance(t)); }
        if (k == "re") { if (js) add ? d.addReaction(t) : d.setReaction(t); else add ? d.addReaction(Reaction(t)) : d.setReaction(Reaction(t)); }
        return dbdump(d);
    }
    if (op == "db_map") { // replace a whole map by the records given
        Database& d = at(dbs, c, "db");
        string k = c.at("kind");
        if (k == "el") { ElementsMap m; for (auto& t : texts(c)) { Element e(t); m[e.symbol()] = e; } d.addMapElements(m); }
        if (k == "su") { SubstancesMap m; for (auto& t : texts(c)) { Substance e(t); m[e.symbol()] = e; } d.addMapSubstances(m); }
        if (k == "re") { ReactionsMap m; for (auto& t : texts(c)) { Reaction e(t); m[e.symbol()] = e; } d.addMapReactions(m); }
        return dbdump(d);
    }
    if (op == "db_setmap") {
        Database& d = at(dbs, c, "db");
        string k = c.at("kind");
        if (k == "el") { ElementsMap m; for (auto& t : texts(c)) { Element e(t); m[e.symbol()] = e; } d.setMapElements(m); }
        if (k == "su") { SubstancesMap m; for (auto& t : texts(c)) { Substance e(t); m[e.symbol()] = e; } d.setMapSubstances(m); }
        if (k == "re") { ReactionsMap m; for (auto& t : texts(c)) { Reaction e(t); m[e.symbol()] = e; } d.setMapReactions(m); }
        return dbdump(d);
    }
    if (op == "db_file") { dbs[c["db"]] = std::make_unique<Database>(shipped(c)); return r; }
    if (op == "db_parts") {
        std::unique_ptr<Database> d;
        for (auto& p : partsOf(c)) {
            string w = p.at("way");
            if (w == "add" || w == "addjson") { if (!d) d = std::make_unique<Database>(); addOneByOne(*d, p.at("items"), w == "addjson"); continue; }
            Source x = load(p);
            if (!d) d = x.list ? std::make_unique<Database>(x.texts, x.label) : std::make_unique<Database>(x.text);
            else if (x.list) d->appendData(x.texts, x.label); else d->appendData(x.text);
        }
        dbs[c["db"]] = std::move(d);
        return r;
    }
    if (op == "db_digest") { // what the getters of every record show
        const Database& d = at(dbs, c, "db");
        json e = json::array(), u = json::array(), x = json::array();
        for (auto& s : d.getElementsList()) { json o = dump(d.getElement(s)); o.erase("valence"); e.push_back({s, hash(o.dump())}); }
        for (auto& s : d.getSubstancesList()) u.push_back({s, hash(dump(d.getSubstance(s)).dump())});
        for (auto& s : d.getReactionsList()) x.push_back({s, hash(dump(d.getReaction(s)).dump())});
        return {{"el", e}, {"su", u}, {"re", x}};
    }
    if (op == "en_file") { ens[c["en"]] = std::make_unique<ThermoEngine>(shipped(c)); return r; }
    if (op == "en_parts") {
        std::unique_ptr<ThermoEngine> e;
        for (auto& p : partsOf(c)) {
            Source x = load(p);
            if (!e) e = x.list ? std::make_unique<ThermoEngine>(Database(x.texts, x.label)) : std::make_unique<ThermoEngine>(x.text);
            else if (x.list) e->appendData(x.texts, x.label); else e->appendData(x.text);
        }
        ens[c["en"]] = std::move(e);
        return r;
    }
    if (op == "en_digest") { // the properties of every substance and reaction
        const ThermoEngine& e = at(ens, c, "en");
        double T = dbl(c.at("T"));
        auto look = [&](const std::function<json(double&)>& f) {
            string t;
            double P = dbl(c.at("P"));
            try { t = f(P).dump(); } catch (const std::exception& x) { t = "error"; }
            return hash(t + num(P));
        };
        json u = json::array(), x = json::array();
        for (auto& s : e.database().getSubstancesList()) u.push_back({s, look([&](double& P) { return dump(e.thermoPropertiesSubstance(T, P, s)); })});
        for (auto& s : e.database().getReactionsList()) { x.push_back({s, look([&](double& P) { return dump(e.thermoPropertiesReaction(T, P, s)); })}); x.push_back({s, look([&](double& P) { return dump(e.thermoPropertiesReactionFromReactants(T, P, s)); })}); }
        return {{"su", u}, {"re", x}};
    }
    if (op == "db_dump") return dbdump(at(dbs, c, "db"));
    if (op == "db_get" || op == "db_ref") { // "ref" uses the creating accessors
        Database& d = at(dbs, c, "db");
        string k = c.at("kind"), s = c.at("s");
        bool ref = op == "db_ref";
        if (k == "el") return dump(ref ? d.element(s) : d.getElement(s));
        if (k == "su") return dump(ref ? d.substance(s) : d.getSubstance(s));
        return dump(ref ? d.reaction(s) : d.getReaction(s));
    }
    if (op == "db_all") { // every record, in the order of the value collections and of the maps
        Database& d = at(dbs, c, "db");
        json a = json::array(), b = json::array();
        string k = c.at("kind");
        if (k == "el") { for (auto& e : d.getElements()) a.push_back({e.symbol(), e.name()}); for (auto& e : d.mapElements()) b.push_back({e.first, e.second.name()}); }
        if (k == "su") { for (auto& e : d.getSubstances()) a.push_back({e.symbol(), e.name()}); for (auto& e : d.mapSubstances()) b.push_back({e.first, e.second.name()}); }
        if (k == "re") { for (auto& e : d.getReactions()) a.push_back({e.symbol(), e.name()}); for (auto& e : d.mapReactions()) b.push_back({e.first, e.second.name()}); }
        return {{"list", a}, {"map", b}};
    }
    if (op == "db_has") {
        Database& d = at(dbs, c, "db");
        string k = c.at("kind"), s = c.at("s");
        return {{"v", k == "el" ? d.containsElement(s) : k == "su" ? d.containsSubstance(s) : d.containsReaction(s)}};
    }
    if (op == "db_touch") { // change a record through the reference the database hands out
        Database& d = at(dbs, c, "db");
        string k = c.at("kind"), s = c.at("s");
        if (k == "el") { auto& e = d.element(s); if (c.contains("name")) e.setName(c["name"]); if (c.contains("mass")) e.setMolarMass(dbl(c["mass"])); if (c.contains("entropy")) e.setEntropy(dbl(c["entropy"])); }
        if (k == "su") { auto& e = d.substance(s); if (c.contains("name")) e.setName(c["name"]); if (c.contains("mass")) e.setMolarMass(dbl(c["mass"])); if (c.contains("formula")) e.setFormula(c["formula"]);
            if (c.contains("G")) { auto p = e.thermoReferenceProperties(); p.gibbs_energy = dbl(c["G"]); e.setThermoReferenceProperties(p); } }
        if (k == "re") { auto& e = d.reaction(s); if (c.contains("name")) e.setName(c["name"]); if (c.contains("eq")) e.fromEquation(c["eq"]); }
        return dbdump(d);
    }
    if (op == "db_sub") return dump(at(dbs, c, "db").getSubstance(c.at("s")));
    if (op == "db_rea") return dump(at(dbs, c, "db").getReaction(c.at("s")));
    if (op == "db_formula") return {{"v", elmap(at(dbs, c, "db").parseSubstanceFormula(c.at("f")))}};
    if (op == "db_entropy") return {{"v", num(at(dbs, c, "db").elementalEntropyFormula(c.at("f")))}};
    if (op == "db_charges") {
        Database& d = at(dbs, c, "db");
        d.setSubstancesChargeFromFromula();
        json a = json::array();
        for (auto& k : d.mapSubstances()) a.push_back({k.first, k.second.charge()});
        return {{"v", a}};
    }
    if (op == "db_conv") { at(dbs, c, "db").conventions().water_triple_point_reference = c.at("water"); return r; }
    if (op == "db_getconv") return {{"water", at(dbs, c, "db").conventions().water_triple_point_reference}};

    // ---- engines
    if (op == "en_new") {
        std::unique_ptr<ThermoEngine> e;
        if (c.contains("db")) e.reset(new ThermoEngine(at(dbs, c, "db"))); else if (c.contains("way")) e.reset(new ThermoEngine(load(c).text)); else e.reset(new ThermoEngine(source(c)));
        ens[c["en"]] = std::move(e);
        return r;
    }
    if (op == "th_new") { // an engine with the records given; "api": what can only be set through the interface
        json x = c;
        x["way"] = str(c, "way", "sections");
        Source src = load(x);
        std::unique_ptr<Database> d = src.list ? std::make_unique<Database>(src.texts, src.label) : std::make_unique<Database>(src.text);
        for (auto& i : c.at("items")) {
            if (!i.contains("api")) continue;
            const json& a = i["api"];
            Substance s = d->getSubstance(i.at("rec").at("symbol"));
            auto p = s.thermoParameters();
            if (a.contains("vc")) p.volume_coeff = doubles(a["vc"]);
            if (a.contains("bm")) p.volume_BirchM_coeff = doubles(a["bm"]);
            s.setThermoParameters(p);
            if (a.contains("eos")) s.setMethodGenEoS(MethodGenEoS_Thrift::type(a["eos"].get<int>()));
            if (a.contains("mT")) s.setMethod_T(MethodCorrT_Thrift::type(a["mT"].get<int>()));
            if (a.contains("mP")) s.setMethod_P(MethodCorrP_Thrift::type(a["mP"].get<int>()));
            if (a.contains("lowP")) s.setLowerP(dbl(a["lowP"]));
            if (a.contains("upP")) s.setUpperP(dbl(a["upP"]));
            d->setSubstance(s);
        }
        if (c.contains("water")) d->conventions().water_triple_point_reference = c["water"];
        ens[c["en"]] = std::make_unique<ThermoEngine>(*d);
        return r;
    }
    if (op == "en_copy") { ens[c["en"]] = std::make_unique<ThermoEngine>(at(ens, c, "from")); return r; }
    if (op == "en_assign") { at(ens, c, "en") = at(ens, c, "from"); return r; }
    if (op == "en_del") { ens.erase(c["en"].get<string>()); return r; }
    if (op == "en_prefs") { applyPrefs(at(ens, c, "en").preferences(), c.at("set")); return prefs(at(ens, c, "en").preferences()); }
    if (op == "en_setprefs") {
        EnginePreferences p = at(ens, c, "en").preferences();
        applyPrefs(p, c.at("set"));
        at(ens, c, "en").setPreferences(p);
        return prefs(at(ens, c, "en").preferences());
    }
    if (op == "en_getprefs") { const ThermoEngine& e = at(ens, c, "en"); return prefs(e.preferences()); }
    if (op == "en_solvent") { if (flag(c, "byref")) at(ens, c, "en").solventSymbol() = c.at("s").get<string>(); else at(ens, c, "en").setSolventSymbol(c.at("s")); return r; }
    if (op == "en_conv") {
        auto& v = at(ens, c, "en").conventions();
        if (c.contains("apparent")) v.apparent_properties = c["apparent"];
        if (c.contains("water")) v.water_properties = c["water"];
        return r;
    }
    if (op == "en_append") {
        ThermoEngine& e = at(ens, c, "en");
        if (c.contains("way")) { Source x = load(c); if (c.contains("fail")) x.texts.push_back("{\"_label\":\"nothing\",\"symbol\":\"x\"}"); if (x.list) e.appendData(x.texts, x.label); else e.appendData(x.text); }
        else if (hasTexts(c)) e.appendData(texts(c), str(c, "label", "unknown label"));
        else e.appendData(source(c));
        return dbdump(e.database());
    }
    if (op == "en_dump") return dbdump(at(ens, c, "en").database());
    if (op == "en_formula") return {{"v", elmap(at(ens, c, "en").parseSubstanceFormula(c.at("f")))}};
    if (op == "en_sub" || op == "en_rea" || op == "en_rfr" || op == "en_solv" || op == "en_elec") {
        const ThermoEngine& e = at(ens, c, "en");
        return query(e, c);
    }
    if (op == "en_probe") return json::parse(fresh(c));

    // ---- value objects
    if (op == "el_new") { els[c["h"]] = std::make_unique<Element>(text(c)); return dump(at(els, c, "h")); }
    if (op == "el_copy") { els[c["h"]] = std::make_unique<Element>(at(els, c, "from")); return dump(at(els, c, "h")); }
    if (op == "el_assign") { at(els, c, "h") = at(els, c, "from"); return dump(at(els, c, "h")); }
    if (op == "el_set") { auto& e = at(els, c, "h"); if (c.contains("name")) e.setName(c["name"]); if (c.contains("symbol")) e.setSymbol(c["symbol"]);
        if (c.contains("mass")) e.setMolarMass(dbl(c["mass"])); if (c.contains("entropy")) e.setEntropy(dbl(c["entropy"]));
        if (c.contains("cp")) e.setHeatCapacity(dbl(c["cp"])); if (c.contains("volume")) e.setVolume(dbl(c["volume"]));
        if (c.contains("valence")) e.setValence(c["valence"]); if (c.contains("class")) e.setClass(c["class"]);
        if (c.contains("isotope")) e.setIsotopeMass(c["isotope"]); if (c.contains("number")) e.setNumber(c["number"]); return dump(e); }
    if (op == "el_get") return dump(at(els, c, "h"));
    if (op == "el_key") { ChemicalFun::ElementValues v; auto k = at(els, c, "h").toElementKey(v); Element b(k, v); return dump(b); }
    if (op == "el_cmp") return {{"lt", at(els, c, "h") < at(els, c, "from")}, {"eq", at(els, c, "h") == at(els, c, "from")}};
    if (op == "su_new") { if (hasText(c)) subs[c["h"]] = std::make_unique<Substance>(text(c)); else subs[c["h"]] = std::make_unique<Substance>(); return dump(at(subs, c, "h")); }
    if (op == "su_copy") { subs[c["h"]] = std::make_unique<Substance>(at(subs, c, "from")); return dump(at(subs, c, "h")); }
    if (op == "su_assign") { at(subs, c, "h") = at(subs, c, "from"); return dump(at(subs, c, "h")); }
    if (op == "su_cmp") return {{"lt", at(subs, c, "h") < at(subs, c, "from")}, {"gt", at(subs, c, "h") > at(subs, c, "from")}, {"eq", at(subs, c, "h") == at(subs, c, "from")}};
    if (op == "su_get") return dump(at(subs, c, "h"));
    if (op == "su_set") {
        auto& e = at(subs, c, "h");
        if (c.contains("name")) e.setName(c["name"]); if (c.contains("symbol")) e.setSymbol(c["symbol"]); if (c.contains("formula")) e.setFormula(c["formula"]);
        if (c.contains("reaction")) e.setReactionSymbol(c["reaction"]); if (c.contains("mass")) e.setMolarMass(dbl(c["mass"]));
        if (c.contains("Tr")) e.setReferenceT(dbl(c["Tr"])); if (c.contains("Pr")) e.setReferenceP(dbl(c["Pr"]));
        if (c.contains("lowT")) e.setLowerT(dbl(c["lowT"])); if (c.contains("upT")) e.setUpperT(dbl(c["upT"]));
        if (c.contains("lowP")) e.setLowerP(dbl(c["lowP"])); if (c.contains("upP")) e.setUpperP(dbl(c["upP"]));
        if (c.contains("charge")) e.setCharge(c["charge"]); if (c.contains("eos")) e.setMethodGenEoS((MethodGenEoS_Thrift::type)c["eos"].get<int>());
        if (c.contains("mT")) e.setMethod_T((MethodCorrT_Thrift::type)c["mT"].get<int>()); if (c.contains("mP")) e.setMethod_P((MethodCorrP_Thrift::type)c["mP"].get<int>());
        if (c.contains("class")) e.setSubstanceClass((SubstanceClass::type)c["class"].get<int>()); if (c.contains("state")) e.setAggregateState((AggregateState::type)c["state"].get<int>());
        if (c.contains("G")) { auto p = e.thermoReferenceProperties(); p.gibbs_energy = dbl(c["G"]); e.setThermoReferenceProperties(p); }
        if (c.contains("hkf")) { auto p = e.thermoParameters(); p.HKF_parameters = doubles(c["hkf"]); e.setThermoParameters(p); }
        return dump(e);
    }
    if (op == "su_bounds") { // message appended when outside of the model bounds
        ThermoPropertiesSubstance p; p.gibbs_energy = TS(1, 0, 0, 0, {Reaktoro_::Status::calculated, ""});
        at(subs, c, "h").checkCalcMethodBounds("M", dbl(c.at("T")), dbl(c.at("P")), p);
        return {{"out", !p.gibbs_energy.sta.second.empty()}};
    }
    if (op == "re_new") { if (hasText(c)) reas[c["h"]] = std::make_unique<Reaction>(text(c)); else reas[c["h"]] = std::make_unique<Reaction>(); return dump(at(reas, c, "h")); }
    if (op == "re_copy") { reas[c["h"]] = std::make_unique<Reaction>(at(reas, c, "from")); return dump(at(reas, c, "h")); }
    if (op == "re_assign") { at(reas, c, "h") = at(reas, c, "from"); return dump(at(reas, c, "h")); }
    if (op == "re_get") return dump(at(reas, c, "h"));
    if (op == "re_eq") { auto& e = at(reas, c, "h"); e.fromEquation(c.at("eq")); return {{"reactants", reactants(e.reactants())}, {"symbol", e.symbol()}, {"equation", e.equation()}}; }
    if (op == "re_set") {
        auto& e = at(reas, c, "h");
        if (c.contains("name")) e.setName(c["name"]); if (c.contains("symbol")) e.setSymbol(c["symbol"]); if (c.contains("equation")) e.setEquation(c["equation"]);
        if (c.contains("Tr")) e.setReferenceT(dbl(c["Tr"])); if (c.contains("Pr")) e.setReferenceP(dbl(c["Pr"]));
        if (c.contains("lowT")) e.setLowerT(dbl(c["lowT"])); if (c.contains("upT")) e.setUpperT(dbl(c["upT"]));
        if (c.contains("lowP")) e.setLowerP(dbl(c["lowP"])); if (c.contains("upP")) e.setUpperP(dbl(c["upP"]));
        if (c.contains("eos")) e.setMethodGenEoS((MethodGenEoS_Thrift::type)c["eos"].get<int>());
        if (c.contains("mT")) e.setMethod_T((MethodCorrT_Thrift::type)c["mT"].get<int>()); if (c.contains("mP")) e.setMethod_P((MethodCorrP_Thrift::type)c["mP"].get<int>());
        if (c.contains("reactants")) { std::map<string, double> m; for (auto& k : c["reactants"]) m[k.at(0)] = dbl(k.at(1)); e.setReactants(m); }
        if (c.contains("logk")) { auto p = e.thermoParameters(); p.reaction_logK_fT_coeff = doubles(c["logk"]); e.setThermoParameters(p); }
        if (c.contains("logK")) { auto p = e.thermoReferenceProperties(); p.log_equilibrium_constant = dbl(c["logK"]); e.setThermoReferenceProperties(p); }
        return dump(e);
    }
    if (op == "re_coef") return {{"v", vec(at(reas, c, "h").calc_logK_fT_coefficients())}};

    // ---- batches
    if (op == "ba_new") {
        std::unique_ptr<ThermoBatch> b;
        if (c.contains("en")) b.reset(new ThermoBatch(at(ens, c, "en"))); else if (c.contains("db")) b.reset(new ThermoBatch(at(dbs, c, "db"))); else if (c.contains("way")) b.reset(new ThermoBatch(load(c).text)); else b.reset(new ThermoBatch(source(c)));
        bas[c["ba"]] = std::move(b);
        return r;
    }
    if (op == "ba_del") { bas.erase(c["ba"].get<string>()); return r; }
    if (op == "ba_prefs") {
        ThermoBatch& b = at(bas, c, "ba");
        BatchPreferences p = b.preferences();
        const json& s = c.at("set");
        p.isFixed = flag(s, "fixed", p.isFixed); p.isScientific = flag(s, "sci", p.isScientific); p.separator = str(s, "sep", p.separator);
        p.reactionPropertiesFromReactants = flag(s, "fromReactants", p.reactionPropertiesFromReactants);
        p.loopOverTPpairsFirst = flag(s, "pairsFirst", p.loopOverTPpairsFirst); p.loopTemperatureThenPressure = flag(s, "Tfirst", p.loopTemperatureThenPressure);
        p.writeNaNifNotDefinedValue = flag(s, "nan", p.writeNaNifNotDefinedValue);
        if (flag(c, "byref")) b.preferences() = p; else b.setBatchPreferences(p);
        return r;
    }
    if (op == "ba_solvent") { at(bas, c, "ba").setSolventSymbol(c.at("s")); return r; }
    if (op == "ba_unit") { at(bas, c, "ba").setPropertyUnit(c.at("p"), c.at("u")); return r; }
    if (op == "ba_digit") { at(bas, c, "ba").setPropertyDigit(c.at("p"), c.at("d").get<int>()); return r; }
    if (op == "ba_unitdigit") { at(bas, c, "ba").setPropertyUnitDigit(c.at("p"), c.at("u"), c.at("d").get<int>()); return r; }
    if (op == "ba_units") { at(bas, c, "ba").setPropertiesUnits(strings(c.at("ps")), strings(c.at("us"))); return r; }
    if (op == "ba_digits") { at(bas, c, "ba").setPropertiesDigits(strings(c.at("ps")), c.at("ds").get<vector<int>>()); return r; }
    if (op == "ba_mapunits") { auto m = at(bas, c, "ba").propertyUnits(); for (auto& k : c.at("m")) m[k.at(0)] = k.at(1); at(bas, c, "ba").setUnits(m); return r; }
    if (op == "ba_mapdigits") { auto m = at(bas, c, "ba").propertyDigits(); for (auto& k : c.at("m")) m[k.at(0)] = k.at(1).get<int>(); at(bas, c, "ba").setDigits(m); return r; }
    if (op == "ba_Tinc") { at(bas, c, "ba").setTemperatureIncrement(dbl(c.at("v").at(0)), dbl(c.at("v").at(1)), dbl(c.at("v").at(2))); return r; }
    if (op == "ba_Pinc") { at(bas, c, "ba").setPressureIncrement(dbl(c.at("v").at(0)), dbl(c.at("v").at(1)), dbl(c.at("v").at(2))); return r; }
    if (op == "ba_get") {
        ThermoBatch& b = at(bas, c, "ba");
        json u = json::object(), d = json::object(), t = json::object(), p = json::object();
        for (auto& k : b.propertyUnits()) u[k.first] = k.second;
        for (auto& k : b.propertyDigits()) d[k.first] = k.second;
        for (auto& k : b.temperatureIncrement()) t[k.first] = num(k.second);
        for (auto& k : b.pressureIncrement()) p[k.first] = num(k.second);
        return {{"units", u}, {"digits", d}, {"Tinc", t}, {"Pinc", p}};
    }
    if (op == "ba_calc") return calc(c);
    if (op.rfind("out_", 0) == 0 && !outs.count(c.at("out").get<string>())) return {{"none", true}};
    if (op == "out_rows") return {{"rows", sol(at(outs, c, "out").to2DVectorDouble())}};
    if ((op == "out_double" || op == "out_scalar") && outInfo.at(c.at("out").get<string>()).empty) return {{"none", true}};
    if (op == "out_double") return {{"v", num(at(outs, c, "out").toDouble())}};
    if (op == "out_scalar") return {{"v", ts(at(outs, c, "out").toThermoScalar())}};
    if (op == "out_csv") return {{"lines", runCsv(c, at(outs, c, "out"), "csv")}};
    if (op == "out_tcsv") return {{"lines", runCsv(c, at(outs, c, "out"), "tcsv")}};
    if (op == "out_grid") return {{"files", runCsv(c, at(outs, c, "out"), "grid")}};
    if (op == "out_del") { outs.erase(c["out"].get<string>()); return r; }

    // ---- units
    if (op == "conv") return {{"v", num(units::convert(dbl(c.at("v")), c.at("from"), c.at("to")))}};
    if (op == "convable") return {{"v", units::convertible(c.at("from"), c.at("to"))}};

    // ---- scalars
    if (op == "ts") { TS x = expr(c.at("e")); if (c.contains("reg")) regs[c["reg"]] = x; return {{"v", ts(x)}}; }
    if (op == "tscmp") {
        TS a = expr(c.at("a")), b = expr(c.at("b"));
        double d = b.val;
        return {{"v", json::array({a < b, a <= b, a > b, a >= b, a == b, a != b})}, {"r", json::array({a < d, a <= d, a > d, a >= d, a == d, a != d})},
                {"l", json::array({a.val < b, a.val <= b, a.val > b, a.val >= b, a.val == b, a.val != b})}};
    }

    // ---- memoisation templates
    if (op == "memo_new") {
        auto m = std::make_shared<Memo>();
        string kind = c.at("kind"), sig = c.at("sig");
        int n = integer(c, "n", 0);
        auto raw = m.get(); // the wrapped functions live inside m
        if (sig == "ref") {
            std::function<double(double, double, double&, string)> f = [raw](double T, double, double& P, string s) {
                raw->calls++;
                if (memoFail) throw std::runtime_error("memo body failed");
                if (P == 0) P = T + 0.5;
                return memoBody(T, P, s);
            };
            m->ref = kind == "all" ? memoize(f) : memoizeN(f, n);
        } else if (sig == "val") {
            std::function<double(double, string)> f = [raw](double T, string s) { raw->calls++; if (memoFail) throw std::runtime_error("memo body failed"); return memoBody(T, 0, s); };
            if (kind == "all") m->val = memoize(f); else if (kind == "last") m->val = memoizeLast(f);
            else if (kind == "lastptr") { m->ptr = memoizeLastPtr(f); m->val = dereference(m->ptr); } else m->val = memoizeN(f, n);
        } else {
            std::function<string(int)> f = [raw](int k) { raw->calls++; if (memoFail) throw std::runtime_error("memo body failed"); return "v" + std::to_string(k); };
            m->one = kind == "all" ? memoize(f) : kind == "last" ? memoizeLast(f) : memoizeN(f, n);
        }
        memos[c["h"]] = m;
        return r;
    }
    if (op == "memo_call") {
        auto m = memos.at(c.at("h").get<string>());
        memoFail = flag(c, "fail");
        int before = m->calls;
        json out = json::object();
        try {
            if (m->ref) { double P = dbl(c.at("P")); double P0 = P; out["v"] = num(m->ref(dbl(c.at("T")), P0, P, c.at("s"))); out["P"] = num(P); }
            else if (m->val) out["v"] = num(m->val(dbl(c.at("T")), c.at("s")));
            else out["v"] = m->one(c.at("k").get<int>());
            out["ok"] = true;
        } catch (const std::runtime_error& e) { out["ok"] = false; }
        memoFail = false;
        out["calls"] = m->calls - before;
        return out;
    }

    // ---- CSV files written by the library
    if (op == "csv_new") { csvs[c["h"]] = std::make_unique<OutputToCSV>(scratch + "/x"); return {{"folder", csvs[c["h"]]->getOutputFolderPath() == scratch}}; }
    if (op == "csv_del") { csvs.erase(c["h"].get<string>()); return r; }
    if (op == "csv_open") { auto& o = at(csvs, c, "h"); string k = c.at("kind"), f = c.at("f");
        if (k == "th") { o.openThermoPropertiesSubstanceFile(f); r["name"] = o.getFileThermoPropertiesSubstance(); }
        if (k == "so") { o.openPropertiesSolventFile(f); r["name"] = o.getFilePropertiesSolvent(); }
        if (k == "el") { o.openElectroPropertiesSolventFile(f); r["name"] = o.getFileElectroPropertiesSolvent(); }
        return r; }
    if (op == "csv_close") { auto& o = at(csvs, c, "h"); string k = c.at("kind");
        if (k == "th") o.closeThermoPropertiesSubstanceFile(); if (k == "so") o.closePropertiesSolventFile(); if (k == "el") o.closeElectroPropertiesSolventFile();
        return r; }
    if (op == "csv_write") {
        auto& o = at(csvs, c, "h"); string k = c.at("kind"), s = c.at("s");
        double T = dbl(c.at("T")), P = dbl(c.at("P")), b = dbl(c.at("base"));
        auto v = [&](int i) { return TS(b + i, 0, 0, 0, {Reaktoro_::Status::calculated, ""}); };
        if (k == "th") { ThermoPropertiesSubstance p; p.gibbs_energy = v(1); p.enthalpy = v(2); p.entropy = v(3); p.heat_capacity_cp = v(4); p.heat_capacity_cv = v(5); p.volume = v(6); p.helmholtz_energy = v(7); p.internal_energy = v(8);
            o.writeThermoPropertiesSubstance(s, T, P, p); }
        if (k == "so") { PropertiesSolvent p; p.density = v(1); p.densityT = v(2); p.densityP = v(3); p.densityTT = v(4); p.densityTP = v(5); p.densityPP = v(6); p.Alpha = v(7); p.dAldT = v(8); p.Beta = v(9);
            o.writePropertiesSolvent(s, T, P, p); }
        if (k == "el") { ElectroPropertiesSolvent p; p.bornN = v(1); p.bornQ = v(2); p.bornU = v(3); p.bornX = v(4); p.bornY = v(5); p.bornZ = v(6); p.epsilon = v(7); p.epsilonP = v(8); p.epsilonPP = v(9); p.epsilonT = v(10); p.epsilonTP = v(11); p.epsilonTT = v(12);
            o.writeElectroPropertiesSolvent(s, T, P, p); }
        return r;
    }
    if (op == "csv_read") { string f = scratch + "/" + c.at("f").get<string>(); return {{"exists", access(f.c_str(), F_OK) == 0}, {"lines", lines(f, ",")}}; }
    if (op == "csv_unlink") { unlink((scratch + "/" + c.at("f").get<string>()).c_str()); return r; }

    throw std::logic_error("HARNESS unknown op " + op);
}

// ---------------------------------------------------------------- queries of a new engine in a new process
// A process forked before the first command waits for queries; it answers each of them from a child of its own, so that
// nothing that happened before (in this process) can have an effect.
static FILE *toFresh = nullptr, *fromFresh = nullptr;

static string answerFresh(const json& c)
{
    json e;
    try {
        Database d(texts(c), "unknown label");
        if (c.contains("water")) d.conventions().water_triple_point_reference = c["water"];
        ThermoEngine en(d);
        applyPrefs(en.preferences(), c.at("prefs"));
        en.conventions().apparent_properties = c.at("conv").at("apparent");
        en.conventions().water_properties = c.at("conv").at("water");
        e = {{"ok", true}, {"r", query(en, c.at("q"))}};
    } catch (const std::exception& x) { e = {{"ok", false}, {"err", string(x.what())}}; }
    return e.dump(-1, ' ', false, json::error_handler_t::replace);
}
static void zygote(int in, int out)
{
    if (getenv("VF_POOL")) pool("pool");
    FILE *i = fdopen(in, "r"), *o = fdopen(out, "w");
    std::vector<char> buf(1 << 20);
    while (std::fgets(buf.data(), buf.size(), i)) {
        int fd[2];
        if (pipe(fd)) _exit(3);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            alarm(20);
            string a = answerFresh(json::parse(buf.data()));
            size_t n = 0;
            while (n < a.size()) { ssize_t k = write(fd[1], a.data() + n, a.size() - n); if (k <= 0) break; n += k; }
            _exit(0);
        }
        close(fd[1]);
        string a;
        char b[65536];
        ssize_t k;
        while ((k = read(fd[0], b, sizeof b)) > 0) a.append(b, k);
        close(fd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        if (status != 0) a = "{\"ok\":false,\"err\":\"abnormal termination\",\"abnormal\":true}";
        std::fprintf(o, "%s\n", a.c_str());
        std::fflush(o);
    }
    _exit(0);
}
static string fresh(const json& c)
{
    json d = c;
    if (d["q"]["P"] == "last") d["q"]["P"] = num(lastP);
    std::fprintf(toFresh, "%s\n", d.dump().c_str());
    std::fflush(toFresh);
    string a;
    int ch;
    while ((ch = std::fgetc(fromFresh)) != EOF && ch != '\n') a += (char)ch;
    if (a.empty()) throw std::logic_error("HARNESS no answer from the new process");
    return a;
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    if (ThermoFun::thfun_logger) ThermoFun::thfun_logger->set_level(spdlog::level::off);
    scratch = argv[3];
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return 2;
    if (fork() == 0) { close(a[1]); close(b[0]); zygote(a[0], b[1]); }
    close(a[0]); close(b[1]);
    toFresh = fdopen(a[1], "w");
    fromFresh = fdopen(b[0], "r");
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "a");
    if (!in.good() || !out) return 2;
    string l;
    bool failed = false;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        json c = json::parse(l);
        json e;
        failP.clear();
        if (c.at("op") == "reset") failed = false;
        try {
            json r = run(c);
            e = {{"c", c}, {"ok", true}, {"r", r}};
        } catch (const std::logic_error& x) {
            string w = x.what();
            // an object that could not be made before in this behaviour does not exist: an answer like any other
            if (w.rfind("HARNESS", 0) == 0 && !(failed && w.rfind("HARNESS unknown handle", 0) == 0)) { std::fprintf(stderr, "%s in %s\n", w.c_str(), l.c_str()); return 3; }
            e = {{"c", c}, {"ok", false}, {"err", w}}; failed = true;
        } catch (const std::exception& x) {
            e = {{"c", c}, {"ok", false}, {"err", string(x.what())}}; failed = true;
        }
        if (!failP.empty()) e["P"] = failP;
        std::fprintf(out, "%s\n", e.dump(-1, ' ', false, json::error_handler_t::replace).c_str());
        std::fflush(out);
    }
    std::fclose(out);
    reset();
    return 0;
}
