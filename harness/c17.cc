// C17: unit conversions are exact, invertible and consistent.
#include "mc.h"
#include <wreport/conv.h>
#include <wreport/error.h>
#include <wreport/var.h>
#include <wreport/vartable.h>
#include <wreport/options.h>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <map>
#include <set>
using namespace wreport;

const char* mc::property = "C17";

namespace {

/// Meaning of a unit: value * factor + offset is in the reference unit of the dimension
struct Unit { const char* dim; double factor; double offset; };

const std::multimap<std::string, Unit>& model()
{
    static const std::multimap<std::string, Unit> m {
        { "K", { "temperature", 1, 0 } }, { "C", { "temperature", 1, 273.15 } }, { "C/10", { "temperature", 0.1, 273.15 } },
        { "S", { "time", 1, 0 } }, { "SECOND", { "time", 1, 0 } }, { "SECONDS", { "time", 1, 0 } }, { "sec", { "time", 1, 0 } },
        { "MINUTE", { "time", 60, 0 } }, { "MINUTES", { "time", 60, 0 } }, { "MIN", { "time", 60, 0 } }, { "minuti", { "time", 60, 0 } },
        { "H", { "time", 3600, 0 } }, { "HOUR", { "time", 3600, 0 } }, { "HOURS", { "time", 3600, 0 } },
        { "D", { "time", 86400, 0 } }, { "DAY", { "time", 86400, 0 } }, { "DAYS", { "time", 86400, 0 } },
        { "A", { "years", 1, 0 } }, { "YEAR", { "years", 1, 0 } }, { "YEARS", { "years", 1, 0 } },
        { "MON", { "months", 1, 0 } }, { "MONTH", { "months", 1, 0 } }, { "MONTHS", { "months", 1, 0 } },
        { "KG/M**3", { "density", 1, 0 } }, { "G/M**3", { "density", 1e-3, 0 } }, { "ug/m**3", { "density", 1e-9, 0 } }, { "mg/l", { "density", 1e-3, 0 } },
        { "PA", { "pressure", 1, 0 } }, { "KPA", { "pressure", 1000, 0 } }, { "mBar", { "pressure", 100, 0 } }, { "hPa", { "pressure", 100, 0 } },
        { "Bar", { "pressure", 1e5, 0 } }, { "NBAR", { "pressure", 1e-4, 0 } },
        { "M", { "length", 1, 0 } }, { "m", { "length", 1, 0 } }, { "MM", { "length", 1e-3, 0 } }, { "mm", { "length", 1e-3, 0 } }, { "cm", { "length", 0.01, 0 } },
        { "KM", { "length", 1000, 0 } }, { "hm", { "length", 100, 0 } }, { "FT", { "length", 0.3048, 0 } },
        { "%", { "ratio", 0.01, 0 } }, { "PERCENT", { "ratio", 0.01, 0 } }, { "1/8", { "ratio", 0.125, 0 } }, { "RATIO", { "ratio", 1, 0 } },
        { "ppt", { "ratio", 0.001, 0 } }, { "PART PER THOUSAND", { "ratio", 0.001, 0 } },
        { "J/M**2", { "energy per area", 1, 0 } }, { "J M-2", { "energy per area", 1, 0 } }, { "JM-2", { "energy per area", 1, 0 } },
        { "cal/cm**2", { "energy per area", 41868, 0 } }, { "MJ/M**2", { "energy per area", 1e6, 0 } }, { "Mj/m**2", { "energy per area", 1e6, 0 } },
        { "M/S", { "speed", 1, 0 } }, { "m/sec", { "speed", 1, 0 } }, { "m/s/10", { "speed", 0.1, 0 } }, { "nodi", { "speed", 0.514444, 0 } },
        { "mV", { "voltage", 1e-3, 0 } }, { "V", { "voltage", 1, 0 } },
        { "KG/M**2", { "mass per area", 1, 0 } }, { "KGM-2", { "mass per area", 1, 0 } }, { "KG M-2", { "mass per area", 1, 0 } },
        { "mm", { "mass per area", 1, 0 } }, { "mm/10", { "mass per area", 0.1, 0 } },
        { "GPM", { "geopotential", 9.80665, 0 } }, { "MGP", { "geopotential", 9.80665, 0 } }, { "m**2/s**2", { "geopotential", 1, 0 } }, { "M**2/S**2", { "geopotential", 1, 0 } },
        { "W/M**2", { "irradiance", 1, 0 } }, { "W/m**2", { "irradiance", 1, 0 } }, { "cal/s/cm**2", { "irradiance", 41868, 0 } }, { "cal/h/cm**2", { "irradiance", 11.63, 0 } },
        { "S/M", { "conductivity", 1, 0 } }, { "ms/cm", { "conductivity", 0.1, 0 } }, { "mS/cm", { "conductivity", 0.1, 0 } },
        { "KG/KG", { "mixing ratio", 1, 0 } }, { "G/G", { "mixing ratio", 1, 0 } },
        { "m**(2/3)/S", { "diffusion", 1, 0 } }, { "M**(2/3)/S", { "diffusion", 1, 0 } },
        { "DEGREE**2", { "squared degrees", 1, 0 } }, { "DEGREE2", { "squared degrees", 1, 0 } },
        { "Bq/L", { "activity", 1, 0 } }, { "BQ L-1", { "activity", 1, 0 } },
        { "DOBSON", { "ozone", 1, 0 } }, { "DU", { "ozone", 1, 0 } },
        { "LOG(1/M**2)", { "log per area", 1, 0 } }, { "LOG (M-2)", { "log per area", 1, 0 } },
        { "DEGREE", { "angle", 1, 0 } }, { "DEG", { "angle", 1, 0 } }, { "DEGREE TRUE", { "angle", 1, 0 } }, { "degree true", { "angle", 1, 0 } }, { "gsess", { "angle", 1, 0 } },
        { "NTU", { "turbidity", 1, 0 } }, { "LM", { "turbidity", 1, 0 } },
        { "octants", { "octants", 1, 0 } },
    };
    return m;
}

/// Conversions that are supported, in both directions
const char* supported[][2] = {
    { "K", "C" }, { "K", "C/10" }, { "C", "C/10" }, { "minuti", "S" }, { "MINUTE", "S" }, { "G/M**3", "KG/M**3" }, { "ug/m**3", "KG/M**3" }, { "mg/l", "KG/M**3" },
    { "PA", "KPA" }, { "M", "MM" }, { "M", "cm" }, { "M", "KM" }, { "%", "PERCENT" }, { "M", "FT" }, { "cal/cm**2", "J/M**2" }, { "J/M**2", "MJ/M**2" },
    { "m/s/10", "M/S" }, { "nodi", "M/S" }, { "PA", "mBar" }, { "PA", "hPa" }, { "PA", "Bar" }, { "PA", "NBAR" }, { "hm", "M" }, { "mm", "M" }, { "mV", "V" },
    { "1/8", "%" }, { "mm/10", "KG/M**2" }, { "GPM", "m**2/s**2" }, { "GPM", "M**2/S**2" }, { "MGP", "m**2/s**2" }, { "MGP", "M**2/S**2" },
    { "cal/s/cm**2", "W/M**2" }, { "cal/h/cm**2", "W/M**2" }, { "Mj/m**2", "J/M**2" }, { "RATIO", "%" }, { "ms/cm", "S/M" }, { "mS/cm", "S/M" },
    { "A", "YEAR" }, { "YEARS", "YEAR" }, { "MON", "MONTH" }, { "MONTHS", "MONTH" }, { "D", "DAY" }, { "DAYS", "DAY" }, { "H", "HOUR" }, { "HOURS", "HOUR" },
    { "MIN", "MINUTE" }, { "MINUTES", "MINUTE" }, { "SECONDS", "SECOND" }, { "SECOND", "S" }, { "sec", "S" }, { "G/G", "KG/KG" }, { "m**(2/3)/S", "M**(2/3)/S" },
    { "DEGREE**2", "DEGREE2" }, { "KG/M**2", "KGM-2" }, { "KG/M**2", "KG M-2" }, { "J/M**2", "JM-2" }, { "Bq/L", "BQ L-1" }, { "DOBSON", "DU" },
    { "LOG(1/M**2)", "LOG (M-2)" }, { "DEGREE", "DEG" }, { "DEGREE TRUE", "DEG" }, { "DEGREE TRUE", "gsess" }, { "m/sec", "M/S" }, { "m", "M" }, { "mm", "KG/M**2" },
    { "degree true", "DEGREE TRUE" }, { "GPM", "MGP" }, { "W/m**2", "W/M**2" }, { "J M-2", "J/M**2" }, { "ppt", "PART PER THOUSAND" }, { "NTU", "LM" }, { "octants", "DEGREE TRUE" },
};

const std::vector<double>& values() { static std::vector<double> v { 0, 1, -1, 0.1, 2.5, 45, 90, 100, 273.15, -40, 1013.25, 12345.678, 1e-9, 1e9 }; return v; }

bool conv(const std::string& from, const std::string& to, double v, double& res)
{
    try { res = convert_units(from.c_str(), to.c_str(), v); return true; } catch (error_unimplemented&) { return false; }
}

// Conversion factors are known to 5 digits, and the temperature of fusion of ice to the fifth decimal
bool close(double a, double b, double mag) { return std::fabs(a - b) <= 3e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-12 * mag; }
bool temperature(const std::string& u) { return u == "K" || u == "C" || u == "C/10"; }
bool octants(const std::string& a, const std::string& b) { return a == "octants" || b == "octants"; }

const std::vector<std::string>& units()
{
    static std::vector<std::string> res;
    if (res.empty())
    {
        std::set<std::string> s;
        for (auto& i: model()) s.insert(i.first);
        for (auto& e: std::filesystem::directory_iterator(mc::repo() + "/tables"))
        {
            std::string name = e.path().filename();
            if (name[0] != 'B' || name.size() < 5 || name.substr(name.size() - 4) != ".txt") continue;
            const Vartable* t = name.size() == 11 ? Vartable::load_crex(e.path()) : Vartable::load_bufr(e.path());
            t->iterate([&](Varinfo i) { s.insert(i->unit); return true; });
        }
        for (const char* x: { "", " ", "k", "K ", "Km", "no such unit" }) s.insert(x);
        res.assign(s.begin(), s.end());
    }
    return res;
}

/// All ordered pairs of units, with all the values
void pairs()
{
    const auto& us = units();
    const std::string& from = us[mc::choose(us.size(), "from")];
    for (const auto& to: us)
    {
        mc::step();
        mc::state(from + "|" + to);
        double r, b;
        bool ok = conv(from, to, 1, r);
        bool back_ok = conv(to, from, 1, b);
        MC_CHECK(ok == back_ok, "%s to %s is %ssupported but the opposite is %ssupported", from.c_str(), to.c_str(), ok ? "" : "not ", back_ok ? "" : "not ");
        mc::outcome(ok ? "supported" : "not supported");
        if (from == to) MC_CHECK(ok, "%s to itself is not supported", from.c_str());
        if (!ok || octants(from, to)) continue;
        // Find a dimension that both have
        const Unit* uf = nullptr; const Unit* ut = nullptr;
        auto rf = model().equal_range(from), rt = model().equal_range(to);
        for (auto i = rf.first; i != rf.second; ++i)
            for (auto j = rt.first; j != rt.second; ++j)
                if (!strcmp(i->second.dim, j->second.dim)) { uf = &i->second; ut = &j->second; }
        if (!uf && rf.first != rf.second && rt.first != rt.second)
            mc::fail("%s can be converted to %s, which measures something else", from.c_str(), to.c_str());
        for (double v: values())
        {
            mc::step();
            MC_CHECK(conv(from, to, v, r), "%s to %s is not supported for %g", from.c_str(), to.c_str(), v);
            if (from == to) MC_CHECK(r == v, "%s to itself changes %.17g to %.17g", from.c_str(), v, r);
            double absolute = temperature(from) ? 2e-4 : 0;
            if (uf)
            {
                double e = (v * uf->factor + uf->offset - ut->offset) / ut->factor;
                MC_CHECK(close(r, e, fabs(e)) || fabs(r - e) <= absolute, "%.10g %s is %.10g %s instead of %.10g", v, from.c_str(), r, to.c_str(), e);
            }
            MC_CHECK(conv(to, from, r, b), "%s to %s is not supported for %g", to.c_str(), from.c_str(), r);
            MC_CHECK(close(b, v, 1) || fabs(b - v) <= absolute * 1e-3, "%.10g %s is %.10g %s which is %.10g %s", v, from.c_str(), r, to.c_str(), b, from.c_str());
        }
    }
}

/// Going through a third unit
void triples()
{
    static std::vector<std::string> us;
    if (us.empty()) { for (auto& i: model()) if (us.empty() || us.back() != i.first) us.push_back(i.first); }
    const std::string& from = us[mc::choose(us.size(), "from")];
    const std::string& mid = us[mc::choose(us.size(), "through")];
    for (const auto& to: us)
        for (double v: values())
        {
            mc::step();
            double d, m, r;
            if (octants(from, to) || octants(from, mid)) continue;
            if (!conv(from, mid, v, m) || !conv(mid, to, m, r) || !conv(from, to, v, d)) break;
            double absolute = temperature(from) ? 2e-4 : 0;
            MC_CHECK(close(r, d, 1) || fabs(r - d) <= absolute, "%g %s is %.10g %s, but %.10g going through %s", v, from.c_str(), d, to.c_str(), r, mid.c_str());
        }
}

void required()
{
    const unsigned n = sizeof(supported) / sizeof(supported[0]);
    const char* const* p = supported[mc::choose(n, "pair")];
    mc::step();
    double r;
    MC_CHECK(conv(p[0], p[1], 1, r), "%s to %s is not supported", p[0], p[1]);
    MC_CHECK(conv(p[1], p[0], 1, r), "%s to %s is not supported", p[1], p[0]);
}

void oct()
{
    for (int o = 0; o <= 8; ++o)
    {
        mc::step();
        double d, b;
        MC_CHECK(conv("octants", "DEGREE TRUE", o, d) && d == o * 45, "octant %d is %f degrees", o, d);
        MC_CHECK(conv("DEGREE TRUE", "octants", d, b) && b == o, "%f degrees is octant %f", d, b);
    }
    // All directions, by 1/16 of a degree
    for (int n = 0; n <= 360 * 16; ++n)
    {
        mc::step();
        double d = n / 16.0, b;
        int e = d == 0 ? 0 : (int)ceil((d - 22.5) / 45);
        if (d > 0 && e <= 0) e = 8;
        MC_CHECK(conv("DEGREE TRUE", "octants", d, b) && b == e, "%f degrees is octant %f instead of %d", d, b, e);
    }
}

/// Setting a variable from one in another unit converts it
void vars()
{
    const unsigned n = sizeof(supported) / sizeof(supported[0]);
    const char* const* p = supported[mc::choose(n, "pair")];
    bool swap = mc::flag("swap");
    const char* from = p[swap ? 1 : 0]; const char* to = p[swap ? 0 : 1];
    _Varinfo fi, ti;
    fi.set_bufr(WR_VAR(0, 12, 1), "FROM", from, 2, 9, -500000000, 30);
    ti.set_bufr(WR_VAR(0, 12, 1), "TO", to, 2, 9, -500000000, 30);
    for (double v: { 0.0, 45.0, 273.15, 1.25 })
    {
        mc::step();
        Var a(&fi, v);
        double e;
        try { e = convert_units(from, to, v); } catch (error&) { continue; }
        if (e > ti.dmax || e < ti.dmin) continue;
        Var b(&ti), c(&ti, a);
        b.setval(a);
        MC_CHECK(fabs(b.enqd() - e) <= 0.00501, "%f %s is set as %f %s instead of %f", v, from, b.enqd(), to, e);
        MC_CHECK(b == c, "construction and setting give different values");
    }
    // No conversion, no value
    _Varinfo other; other.set_bufr(WR_VAR(0, 12, 1), "OTHER", "no such unit", 2, 9, 0, 30);
    Var a(&fi, 1.0), o(&other, 1.0);
    bool raised = false;
    try { o.setval(a); } catch (error_unimplemented&) { raised = true; }
    MC_CHECK(raised, "setting a value from a different unit is accepted");
}

}

void mc::setup()
{
    mc::add("pairs of units", pairs);
    mc::add("triples of units", triples);
    mc::add("supported conversions", required);
    mc::add("octants", oct);
    mc::add("variables", vars);
}
